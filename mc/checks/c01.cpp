// C01: garbage collection is invisible.  Every program and host scenario is executed without collections and then
// under every schedule of the stated set (a collection before every allocation, before every single allocation, before
// every pair of allocations, periodic); all observations must be the same.  Reclaimed storage is poisoned by the hook.
#include "common/gc.hpp"
#include <cstring>

#include "common/scenarios.hpp"

namespace mc {
const char* const check_id = "C01";
}
using namespace mc;

namespace {

struct Observed {
    std::string text;
    uint64_t allocations = 0;
    bool operator==(const Observed& o) const { return text == o.text && allocations == o.allocations; }
};

// Executes the scenario once; collections happen according to the schedule.
Observed observe(XVm& vm, const std::function<std::string(XVm&)>& s, const std::function<void()>& schedule) {
    gc::Guard guard;
    vm.out.clear();
    vm.native_errors.clear();
    schedule();
    Observed o;
    o.text = s(vm);
    o.allocations = gc::count();
    gc::suspend();
    o.text += " log " + vm.take_log() + " out " + vm.out;
    if (!vm.native_errors.empty())
        o.text += " native error " + vm.native_errors[0].message;
    return o;
}

struct Depth {
    uint64_t singles = 0; // single collections for scenarios with up to this number of allocations
    uint64_t pairs = 0;   // the same for pairs
    uint64_t periods = 0; // all collections before every p-th allocation, starting with any
};

// `fresh`: every schedule gets a new machine, otherwise they all run in the same one.
void explore(const std::function<std::string(XVm&)>& s, const Depth& depth, bool fresh, const std::function<void(XVm&)>& prepare = {},
    const VmOptions& opts = {}) {
    std::unique_ptr<XVm> vm;
    auto next = [&] {
        if (fresh || !vm) {
            vm = machine_with_lib(opts);
            if (prepare)
                prepare(*vm);
        }
    };
    next();
    if (!fresh)
        observe(*vm, s, gc::off); // symbols and capacities have settled afterwards
    const Observed base = observe(*vm, s, gc::off);
    R.outcome(base.text);
    if (R.want_sample())
        R.sample(fmt::format("{} ({} allocations)", base.text, base.allocations));
    auto check = [&](const std::function<void()>& schedule, auto&& describe) {
        next();
        Observed o = observe(*vm, s, schedule);
        R.traces();
        R.transitions(o.allocations);
        if (o.text != base.text)
            fail("{}: got {}\nwithout collections: {}", describe(), o.text, base.text);
        if (o.allocations != base.allocations)
            fail("{}: {} allocations instead of {}", describe(), o.allocations, base.allocations);
    };
    const uint64_t n = base.allocations;
    R.states(n);
    check(gc::always, [] { return "collection before every allocation"; });
    for (uint64_t p = 2; p <= std::min(n, depth.periods); ++p)
        for (uint64_t ph = 0; ph < p; ++ph)
            check([&] { gc::every(p, ph); },
                [&] { return fmt::format("collection before every {}th allocation from {}", p, ph); });
    if (n <= depth.singles)
        for (uint64_t k = 0; k < n; ++k)
            check([&] { gc::at({k}); }, [&] { return fmt::format("collection before allocation {}", k); });
    if (n <= depth.pairs)
        for (uint64_t k = 0; k < n; ++k)
            for (uint64_t j = k + 1; j < n; ++j)
                check([&] { gc::at({k, j}); }, [&] { return fmt::format("collections before allocations {}, {}", k, j); });
    if (!fresh)
        check(gc::off, [] { return "no collections after all schedules"; });
}

std::string run_main(XVm& vm, int arg) {
    gc::suspend();
    H args(vm), n(vm);
    tiro_make_tuple(vm, 1, args, Err());
    tiro_make_integer(vm, arg, n, Err());
    tiro_tuple_set(vm, args, 0, n, Err());
    gc::resume();
    std::string r = vm.run("p", "main", args).str();
    if (!vm.run_error.ok())
        r += " " + vm.run_error.message + " " + vm.run_error.details;
    return r;
}

void explore_program(const std::string& decls, const std::string& body, const Depth& depth, bool load = false) {
    std::string src = "import std; import h; import g; import lib;\n" + decls + "\nexport func main(n) {\n" + body + "\n}\n";
    R.note(src);
    CompileResult c = compile(src, "p");
    MC_CHECK(c.error.ok() && c.module, "{}", c.describe());
    auto load_module = [&](XVm& vm) {
        ApiError e = vm.load(c.module);
        MC_CHECK(e.ok(), "does not load: {} {}", e.message, e.details);
    };
    if (load)
        explore([&](XVm& vm) { return load_module(vm), run_main(vm, 7); }, depth, true);
    else
        explore([&](XVm& vm) { return run_main(vm, 7); }, depth, false, load_module);
}

void programs() {
    const Depth normal = R.thorough ? Depth{2000, 150, 8} : Depth{250, 0, 3};
    const Depth thorough = R.thorough ? Depth{3000, 500, 16} : Depth{1000, 60, 4};
    for (auto& p : producers)
        for (auto& h : holders) {
            R.run(fmt::format("{} as {}", p.name, h.name), [&] {
                explore_program(replace(h.decls, "$P", p.expr), replace(h.body, "$P", p.expr), normal);
            });
            if (*h.decls)
                R.run(fmt::format("loading of {} as {}", p.name, h.name), [&] {
                    explore_program(replace(h.decls, "$P", p.expr), replace(h.body, "$P", p.expr), normal, true);
                });
        }
    for (size_t i = 0; i < allocating_ops.size(); ++i) {
        R.run(fmt::format("operation {}", allocating_ops[i]), [&] {
            explore_program("", fmt::format("return lib.R([{}]);", allocating_ops[i]), thorough);
        });
        for (size_t j = 0; j < allocating_ops.size(); ++j)
            R.run(fmt::format("operations {} , {}", allocating_ops[i], allocating_ops[j]), [&] {
                explore_program("", fmt::format("return lib.R([{}, {}]);", allocating_ops[i], allocating_ops[j]),
                    R.thorough ? Depth{1000, 0, 8} : Depth{0, 0, 3});
            });
    }
}


// ---------------------------------------------------------------------------------------------------------------
// Host interface: sequences of operations over three handles.

void host_sequences(const std::vector<int>& kinds, size_t len, bool all_targets) {
    static std::unique_ptr<XVm> vm;
    auto& ops = host_ops();
    struct Step {
        int op, dst, src;
    };
    std::vector<Step> steps;
    for (int k : kinds)
        for (int d = 0; d < (all_targets ? 3 : 2); ++d)
            for (int s = 0; s < (all_targets ? 3 : 2); ++s)
                steps.push_back({k, d, s});
    all_sequences(steps.size(), len, [&](const std::vector<int>& seq) {
        if (!R.claim())
            return;
        std::string key = "host";
        for (int i : seq)
            key += fmt::format(" {}({},{})", ops[steps[i].op].name, steps[i].dst, steps[i].src);
        R.exec(key, [&] {
            if (!vm)
                vm = machine_with_lib();
            auto scenario = [&](XVm& v) {
                std::vector<H> hs;
                gc::suspend();
                for (int i = 0; i < 3; ++i)
                    hs.emplace_back(v);
                tiro_make_string(v, S("zero"), hs[0], Err());
                tiro_make_tuple(v, 2, hs[1], Err());
                tiro_make_array(v, 1, hs[2], Err());
                tiro_array_push(v, hs[2], hs[0], Err());
                gc::resume();
                std::string r;
                for (int i : seq) {
                    auto& st = steps[i];
                    tiro_error_t e = nullptr;
                    ops[st.op].f(v, hs[st.dst], hs[st.src], hs[2], &e);
                    r += std::to_string(take_error(e).code);
                }
                gc::suspend();
                for (auto& h : hs)
                    r += " " + deep_dump(v, h);
                while (tiro_vm_has_ready(v))
                    tiro_vm_run_ready(v, Err());
                gc::resume();
                return r;
            };
            Observed base = observe(*vm, scenario, gc::off);
            R.outcome(base.text);
            R.states();
            auto check = [&](const std::function<void()>& schedule, const char* what, uint64_t k) {
                Observed o = observe(*vm, scenario, schedule);
                R.traces();
                if (o.text != base.text) {
                    vm.reset();
                    fail("{} {}: got {}\nwithout collections: {}", what, k, o.text, base.text);
                }
            };
            check(gc::always, "collection before every allocation", 0);
            if (len <= 2 || R.thorough)
                for (uint64_t k = 0; k < base.allocations; ++k)
                    check([&] { gc::at({k}); }, "collection before allocation", k);
        });
    });
}

void host() {
    std::vector<int> all, some;
    for (size_t i = 0; i < host_ops().size(); ++i) {
        all.push_back(int(i));
        std::string_view n = host_ops()[i].name;
        for (auto s : {"string", "tuple", "push", "tuple_get0", "success", "record", "record_set", "native", "function", "coroutine",
                 "start", "module"})
            if (n == s)
                some.push_back(int(i));
    }
    for (size_t n = 1; n <= 2; ++n)
        host_sequences(all, n, true);
    host_sequences(some, 3, false);
    if (R.thorough) {
        host_sequences(all, 3, false);
        host_sequences(some, 3, true);
    }
}

// ---------------------------------------------------------------------------------------------------------------
// Collections while the machine is created and modules are loaded.

void boot() {
    for (size_t page : {size_t(1) << 16, size_t(1) << 18, size_t(1) << 20, size_t(1) << 24}) {
        auto scenario = [&] {
            std::unique_ptr<XVm> vm;
            VmOptions o;
            o.page_size = page;
            vm = machine_with_lib(o);
            H args(*vm), n(*vm);
            tiro_make_tuple(*vm, 1, args, Err());
            tiro_make_integer(*vm, 3, n, Err());
            tiro_tuple_set(*vm, args, 0, n, Err());
            std::string r = vm->run("lib", "arr", args).str();
            r += vm->run("lib", "bigstr", args).value.substr(0, 100);
            r += vm->run("lib", "exc", args).str();
            return r;
        };
        static std::string base;
        static uint64_t n;
        if (base.empty()) {
            gc::Guard g;
            gc::off();
            base = scenario();
            n = gc::count();
        }
        auto check = [&](std::string key, const std::function<void()>& schedule) {
            R.run(key, [&] {
                gc::Guard g;
                schedule();
                std::string r = scenario();
                R.traces();
                R.transitions(n);
                MC_CHECK(r == base, "got {}\nwithout collections: {}", r, base);
            });
        };
        check(fmt::format("boot with pages of {}: collection before every allocation", page), gc::always);
        for (uint64_t k = 0; k < n && (page < (1 << 17) || R.thorough); ++k)
            check(fmt::format("boot with pages of {}: collection before allocation {}", page, k), [k] { gc::at({k}); });
    }
}

// ---------------------------------------------------------------------------------------------------------------
// Automatic collections: programs that allocate many times the collection threshold.

void automatic() {
    for (int page_log = 16; page_log <= 24; ++page_log)
        for (auto& p : producers) {
            R.run(fmt::format("automatic collections, page size 2^{}: {}", page_log, p.name), [&] {
                VmOptions o;
                o.page_size = size_t(1) << page_log;
                o.max_heap = size_t(1) << 30;
                auto vm = machine_with_lib(o);
                std::string src = "import std; import h; import g; import lib;\nexport func main(n) {\n"
                                  "const live = [$P, $P]; const old = [lib.R(live[0]), lib.R(live[1])]; lib.churn();"
                                  "for var i = 0; i < n; i += 1 { lib.churn(); live[1] = $P; const y = g.bytes(3000, 1); }"
                                  "return (old, lib.R(live[0]), lib.R(live[1]));\n}\n";
                src = replace(src, "$P", p.expr);
                vm->load_source(src, "p");
                auto run = [&](int n) {
                    H args(*vm), h(*vm);
                    tiro_make_tuple(*vm, 1, args, Err());
                    tiro_make_integer(*vm, n, h, Err());
                    tiro_tuple_set(*vm, args, 0, h, Err());
                    return vm->run("p", "main", args).str();
                };
                // n is visible in the values: compare with itself only
                const int n = std::string_view(p.name).substr(0, 5) == "large" || R.thorough ? 400 : 150;
                std::string expected;
                {
                    gc::Guard g;
                    gc::always();
                    VmOptions small;
                    auto other = machine_with_lib(small);
                    gc::suspend();
                    other->load_source(src, "p");
                    H args(*other), h(*other);
                    tiro_make_tuple(*other, 1, args, Err());
                    tiro_make_integer(*other, n, h, Err());
                    tiro_tuple_set(*other, args, 0, h, Err());
                    expected = other->run("p", "main", args).str();
                }
                std::string r = run(n);
                R.traces(2);
                MC_CHECK(r == expected, "got {}\nexpected {}", r, expected);
                for (int i = 0; i < (R.thorough ? 10 : 3); ++i) {
                    r = run(n);
                    MC_CHECK(r == expected, "run {}: got {}\nexpected {}", i, r, expected);
                }
            });
        }
}

} // namespace

void mc::enumerate() {
    programs();
    host();
    boot();
    automatic();
}
