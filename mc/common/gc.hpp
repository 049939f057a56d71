// Controls when the virtual machine collects garbage and which of its allocations fail
// (through the TIRO_VERIF hook in Heap::allocate).
#pragma once
#include <cstdint>
#include <vector>

struct tiro_vm;

namespace mc::gc {

// Allocations are counted from the call to any of these functions.
void off();                                   // count only
void always();                                // collect before every allocation
void every(uint64_t n, uint64_t phase);       // before allocations phase, phase + n, ...
void at(std::vector<uint64_t> allocations);   // before these allocations
void fail_at(uint64_t first, uint64_t count); // allocations first .. first + count - 1 fail
void suspend();                               // neither count nor act
void resume();
uint64_t count();
uint64_t bytes(); // requested since then
void collect(tiro_vm*); // a full collection now

bool failed(); // an allocation failed since the last call of the functions above

// No failures in this scope (collections happen).
struct NoFailures {
    NoFailures();
    ~NoFailures();
    NoFailures(const NoFailures&) = delete;

private:
    bool paused_;
};

struct Guard { // back to normal at the end of a scope
    ~Guard();
};

} // namespace mc::gc
