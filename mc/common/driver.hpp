// Runs operation sequences on tiro values through a driver program: the program gets the sequence as an array of
// integers and returns what it observed.
#pragma once
#include "common/lang.hpp"

namespace mc {

class Driver {
public:
    explicit Driver(std::string_view source, VmOptions opts = {})
        : vm_(opts) {
        vm_.load_source(source, "driver");
    }
    Vm& vm() { return vm_; }

    Outcome run(std::string_view fn, const std::vector<int64_t>& ops) {
        H arr(vm_), args(vm_), v(vm_);
        tiro_make_array(vm_, ops.size(), arr, Err());
        for (int64_t op : ops) {
            tiro_make_integer(vm_, op, v, Err());
            tiro_array_push(vm_, arr, v, Err());
        }
        tiro_make_tuple(vm_, 1, args, Err());
        tiro_tuple_set(vm_, args, 0, arr, Err());
        vm_.log.clear();
        return vm_.call("driver", fn, args);
    }

private:
    Vm vm_;
};

inline std::string show(const std::vector<int64_t>& v) {
    std::string s;
    for (size_t i = 0; i < v.size(); ++i)
        s += (i ? " " : "") + std::to_string(v[i]);
    return s;
}

} // namespace mc
