// A virtual machine with a host module "g": native objects, native closures, asynchronous and resumable functions.
//   g.native(n)      a native object with the payload n
//   g.nval(o)        its payload
//   g.mkfn(v)        a native function f(x) with the closure v that returns (v, x)
//   g.later(v)       asynchronous: yields and returns v later
//   g.later_new(v)   asynchronous: yields and returns (v, "late") later, built by the host
//   g.call(f, a)     resumable: keeps a in a local, calls f(a, a), returns (local, argument, closure, result)
//   g.keep(v) kept() a host handle
//   g.both(a, b)     allocates between reading its arguments, returns (a, b, [a, b])
//   g.array(n)       an array with capacity n
//   g.bytes(n, b)    a buffer of n bytes b
//   g.tuple(n, v)    a tuple with n elements v
#pragma once
#include <deque>

#include "common/lang.hpp"

namespace mc {

class XVm : public Vm {
public:
    explicit XVm(VmOptions opts = {});
    ~XVm();

    // Starts the function, runs everything and delivers pending asynchronous results in order.
    Outcome run(std::string_view module, std::string_view function, tiro_handle_t args = nullptr);

    ApiError deliver(); // the oldest pending result
    size_t pending() const { return pending_.size(); }
    ApiError run_error;                  // error reported by run_ready
    std::vector<ApiError> native_errors; // errors seen by native functions

    struct Pending {
        tiro_async_token_t token;
        tiro_handle_t value;
        bool build;
    };
    std::deque<Pending> pending_;
    tiro_handle_t kept_ = nullptr;
};

inline XVm& xvm(tiro_vm_t vm) { return static_cast<XVm&>(vm_of(vm)); }

struct NativeData {
    int64_t id;
    uint64_t check;
};
extern std::map<int64_t, int> finalized; // finalizer calls by payload
H make_native(tiro_vm_t vm, int64_t id, tiro_error_t* err);

} // namespace mc
