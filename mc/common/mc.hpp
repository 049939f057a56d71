// Bounded-exhaustive exploration driver shared by every check.
//
// A check is a deterministic enumeration: it walks its whole (bounded) case space in a fixed order and
// offers every case to the runner.  The space is distributed over forked worker processes; each case is
// executed exactly once.  A case is identified by a canonical text key, which is enough to re-execute it
// alone (`--replay`).  Crashes, sanitizer reports, uncaught exceptions and hangs of a worker are attributed
// to the case it was executing.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

#include "fmt/format.h"

namespace mc {

struct Failure {
    std::string what;
};

template<typename... A>
[[noreturn]] void fail(fmt::format_string<A...> f, A&&... a) {
    throw Failure{fmt::format(f, std::forward<A>(a)...)};
}

#define MC_CHECK(cond, ...)         \
    do {                            \
        if (!(cond))                \
            ::mc::fail(__VA_ARGS__); \
    } while (0)

class Runner {
public:
    bool thorough = false;
    uint64_t seed = 1;

    // True if the next case of the enumeration has to be executed by this process.
    bool claim();

    // Executes a claimed case. `key` is the canonical identification of the case.
    template<typename F>
    void exec(std::string_view key, F&& f) {
        exec_impl(key, std::function<void()>(std::forward<F>(f)));
    }

    // claim + exec, for cheap keys.
    template<typename F>
    void run(std::string_view key, F&& f) {
        if (claim())
            exec(key, std::forward<F>(f));
    }

    // Executes `n` related cases together (e.g. compiled as one module).  `body(b, e)` handles the items [b, e): it
    // calls sub(i) before it runs item i and sub_fail(i, detail) if that item is violated.  If the body throws or
    // crashes before it got to the individual items, they are executed one by one.
    void exec_batch(size_t n, const std::function<std::string(size_t)>& key,
        const std::function<void(size_t, size_t)>& body);
    void sub(size_t i);
    void sub_fail(size_t i, std::string_view detail);
    bool replaying() const;
    const std::string& replay_key() const;

    // Additional information about the case that is currently executing (e.g. the program text); reported on failure.
    void note(std::string_view text);

    // Measured coverage.
    void states(uint64_t n = 1);
    void transitions(uint64_t n = 1);
    void traces(uint64_t n = 1);
    void evaluations(uint64_t n = 1);
    void outcome(std::string_view canonical); // distinct observed outcomes (hashed)
    void nontrivial(uint64_t n = 1);
    void cov(const std::string& name, uint64_t n = 1);
    void sample(std::string_view text); // a few actual cases are kept
    void capped(std::string_view what); // something was not explored completely
    bool want_sample() const;

    // internal
    void exec_impl(std::string_view key, const std::function<void()>& f);
    void heartbeat();
};

extern Runner R;

// Defined by each check.
extern const char* const check_id;
void enumerate();

// All sequences of length `len` over 0..alphabet-1 (odometer).
template<typename F>
void all_sequences(size_t alphabet, size_t len, F&& f) {
    std::vector<int> seq(len, 0);
    while (true) {
        f(static_cast<const std::vector<int>&>(seq));
        size_t i = len;
        while (i > 0) {
            --i;
            if (++seq[i] < int(alphabet))
                break;
            seq[i] = 0;
            if (i == 0)
                return;
        }
        if (len == 0)
            return;
    }
}

std::string quote(std::string_view s);

} // namespace mc
