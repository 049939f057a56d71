// Compile-and-run helpers on top of tiro's public C API.
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <vector>

#include "tiro/api.h"

#include "common/mc.hpp"

namespace mc {

struct ApiError {
    tiro_errc_t code = TIRO_OK;
    std::string message, details;
    bool ok() const { return code == TIRO_OK; }
};

// Converts and frees the error.
ApiError take_error(tiro_error_t& err);

// Passed as `tiro_error_t*`; throws mc::Failure when the call failed and the error was not inspected.
class Err {
public:
    Err() = default;
    Err(const Err&) = delete;
    ~Err() noexcept(false);
    operator tiro_error_t*() { return &err_; }
    // Fetches the outcome of the last call.
    ApiError get();

private:
    tiro_error_t err_ = nullptr;
};

inline tiro_string_t S(std::string_view s) {
    tiro_string_t r;
    r.data = s.data();
    r.length = s.size();
    return r;
}
inline std::string_view V(tiro_string_t s) {
    return std::string_view(s.data ? s.data : "", s.length);
}

struct Message {
    tiro_severity_t severity;
    std::string file, text;
    uint32_t line, column;
};

struct CompileResult {
    ApiError error;
    tiro_module_t module = nullptr;
    std::vector<Message> messages;
    std::string attachment;
    CompileResult() = default;
    CompileResult(CompileResult&& o) noexcept
        : error(std::move(o.error))
        , module(o.module)
        , messages(std::move(o.messages))
        , attachment(std::move(o.attachment)) {
        o.module = nullptr;
    }
    CompileResult(const CompileResult&) = delete;
    ~CompileResult() {
        if (module)
            tiro_module_free(module);
    }
    std::string describe() const;
};

CompileResult compile(std::string_view source, std::string_view module_name, int attachment = 0);

struct Outcome {
    bool ok = false;      // returned normally
    std::string value;    // canonical dump of the value, or of the panic
    bool operator==(const Outcome& o) const { return ok == o.ok && value == o.value; }
    std::string str() const { return (ok ? "value " : "panic ") + value; }
};

struct VmOptions {
    size_t page_size = 1 << 16;
    size_t max_heap = size_t(64) << 20;
    bool stack_trace = false;
    bool load_std = true;
    bool host_module = true; // module "h" with function t(x): logs dump(x), returns x
};

class Vm {
public:
    explicit Vm(VmOptions opts = {});
    ~Vm();
    Vm(const Vm&) = delete;

    tiro_vm_t get() const { return vm_; }
    operator tiro_vm_t() const { return vm_; }

    ApiError load(tiro_module_t mod);
    // Compiles and loads; fails the case on any error.
    void load_source(std::string_view src, std::string_view name);
    // Calls an exported function (arguments: see make_args) and runs until its coroutine is done.
    Outcome call(std::string_view module, std::string_view function, tiro_handle_t args = nullptr);
    ApiError get_export(std::string_view module, std::string_view name, tiro_handle_t result);

    tiro_handle_t global();               // freed with the vm
    void free_global(tiro_handle_t h);
    std::string dump(tiro_handle_t h, int depth = 0);

    std::vector<std::string> log;         // calls of h.t
    std::string out;                      // printed text
    std::string take_log();

    std::function<void(std::string_view)> on_log;

private:
    tiro_vm_t vm_ = nullptr;
};

Vm& vm_of(tiro_vm_t vm); // wrapper from native callback

// Temporary handle
class H {
public:
    explicit H(tiro_vm_t vm);
    H(H&& o) noexcept : h_(o.h_) { o.h_ = nullptr; }
    H(const H&) = delete;
    ~H();
    operator tiro_handle_t() const { return h_; }

private:
    tiro_handle_t h_;
};

H make_int(tiro_vm_t vm, int64_t v);
H make_float(tiro_vm_t vm, double v);
H make_str(tiro_vm_t vm, std::string_view v);
H make_bool(tiro_vm_t vm, bool v);

std::string fmt_float(double d); // canonical dump of floats

} // namespace mc
