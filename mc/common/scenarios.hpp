// Scenarios shared by the checks of the memory management (C01, C02, C03).
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "common/host.hpp"

namespace mc {

extern const char* const lib_source; // module "lib": producers, R (what can be observed of a value), churn (garbage)

struct Producer {
    const char* name;
    const char* expr; // depends on n
};
extern const std::vector<Producer> producers;

struct Holder {
    const char* name;
    const char* body;  // of main(n); $P is the producer
    const char* decls = "";
};
extern const std::vector<Holder> holders;

// Expressions that allocate in the virtual machine's own functions.
extern const std::vector<const char*> allocating_ops;

struct HostOp {
    const char* name;
    std::function<void(XVm&, tiro_handle_t dst, tiro_handle_t src, tiro_handle_t other, tiro_error_t* e)> f;
};
const std::vector<HostOp>& host_ops();
std::string deep_dump(XVm& vm, tiro_handle_t h);

std::string replace(std::string_view text, std::string_view what, std::string_view with);
const CompileResult& compiled_lib();
std::unique_ptr<XVm> machine_with_lib(const VmOptions& opts = {});

} // namespace mc
