#include "common/gc.hpp"

#include <algorithm>
#include <cstddef>

#include "common/lang.hpp"

extern int (*tiro_verif_before_allocate)(size_t bytes);

namespace mc::gc {

static uint64_t n, period, phase_, fail_first, fail_count;
static std::vector<uint64_t> points;
static enum { Off, Every, At, Fail } mode;

static bool failed_;

static uint64_t total;

static int hook(size_t size) {
    const uint64_t i = n++;
    total += size;
    switch (mode) {
    case Off:
        return 0;
    case Every:
        return i >= phase_ && (i - phase_) % period == 0;
    case At:
        return std::binary_search(points.begin(), points.end(), i);
    case Fail:
        if (i < fail_first || i - fail_first >= fail_count)
            return 0;
        failed_ = true;
        return 2;
    }
    return 0;
}

static void set(decltype(mode) m) {
    mode = m;
    n = 0;
    total = 0;
    failed_ = false;
    tiro_verif_before_allocate = hook;
}

void off() { set(Off); }
void always() { every(1, 0); }
void every(uint64_t k, uint64_t phase) {
    period = k;
    phase_ = phase;
    set(Every);
}
void at(std::vector<uint64_t> p) {
    points = std::move(p);
    std::sort(points.begin(), points.end());
    set(At);
}
void fail_at(uint64_t first, uint64_t count) {
    fail_first = first;
    fail_count = count;
    set(Fail);
}
void suspend() { tiro_verif_before_allocate = nullptr; }
void resume() { tiro_verif_before_allocate = hook; }
uint64_t count() { return n; }
uint64_t bytes() { return total; }
void collect(tiro_vm_t vm) {
    auto old = tiro_verif_before_allocate;
    H f(vm);
    static bool called;
    called = false;
    tiro_verif_before_allocate = [](size_t) {
        called = true;
        return 1;
    };
    tiro_error_t e = nullptr;
    tiro_make_buffer(vm, size_t(1) << 44, f, &e); // fails after the collection, does not need memory
    take_error(e);
    if (!called) {
        tiro_make_float(vm, 1, f, &e);
        take_error(e);
    }
    tiro_verif_before_allocate = old;
}
bool failed() { return failed_; }
NoFailures::NoFailures()
    : paused_(mode == Fail && tiro_verif_before_allocate) {
    if (paused_)
        suspend();
}
NoFailures::~NoFailures() {
    if (paused_)
        resume();
}
Guard::~Guard() {
    mode = Off;
    suspend();
}

} // namespace mc::gc
