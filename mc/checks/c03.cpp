// C03: allocation failures are reported and survivable.  Every allocation of every scenario is refused once (and with
// all that follow); the operation must report an allocation error and nothing else, everything that existed before must
// keep its value, and the same operation must succeed afterwards.  The same with refused system memory and with limits.
#include "common/gc.hpp"
#include "common/scenarios.hpp"
#include "common/sysmem.hpp"

namespace mc {
const char* const check_id = "C03";
}
using namespace mc;

namespace {

const char* const stable_source = R"(
import std; import g; import lib;
export func make(n) {
    const a = [];
    a.append(map{"k$n": "v$n", n + 0.5: [n, "x$n"]});
    a.append(lib.mp(n)); a.append(lib.st(n)); a.append(lib.arr(n)); a.append(lib.clo2(n)); a.append(lib.builder(n));
    a.append(lib.buf(n)); a.append(lib.exc(n)); a.append(lib.deep(n)); a.append(g.native(n)); a.append((p: "x$n", q: n + 0.25));
    a.append(g.tuple(2500, "e$n"));
    return a;
}
export func show(a) { return [lib.R(a), a.size(), a[10]]; }
)";

struct Machine {
    std::unique_ptr<XVm> vm;
    std::unique_ptr<H> stable;
    std::string stable_text;

    std::string call(std::string_view mod, std::string_view fn, tiro_handle_t arg) {
        H args(*vm);
        tiro_make_tuple(*vm, 1, args, Err());
        tiro_tuple_set(*vm, args, 0, arg, Err());
        std::string r = vm->run(mod, fn, args).str();
        MC_CHECK(vm->run_error.ok(), "{}.{}: {} {}", mod, fn, vm->run_error.message, vm->run_error.details);
        return r;
    }
    explicit Machine(const VmOptions& opts = {}) {
        static CompileResult r = compile(stable_source, "stable");
        MC_CHECK(r.error.ok() && r.module, "{}", r.describe());
        vm = machine_with_lib(opts);
        ApiError e = vm->load(r.module);
        MC_CHECK(e.ok(), "stable: {} {}", e.message, e.details);
        H f(*vm), args(*vm), n(*vm), coro(*vm), res(*vm);
        tiro_make_integer(*vm, 5, n, Err());
        tiro_make_tuple(*vm, 1, args, Err());
        tiro_tuple_set(*vm, args, 0, n, Err());
        vm->get_export("stable", "make", f);
        tiro_make_coroutine(*vm, f, args, coro, Err());
        tiro_coroutine_start(*vm, coro, Err());
        tiro_vm_run_ready(*vm, Err());
        tiro_coroutine_result(*vm, coro, res, Err());
        stable = std::make_unique<H>(*vm);
        tiro_result_value(*vm, res, *stable, Err());
        stable_text = call("stable", "show", *stable);
    }
    ~Machine() {
        stable.reset();
        vm.reset();
    }

    // After a failure: finish what is still pending, collect, compare.
    void recover() {
        XVm& v = *vm;
        gc::suspend();
        for (int i = 0; i < 100 && (tiro_vm_has_ready(v) || v.pending()); ++i) {
            if (tiro_vm_has_ready(v)) {
                tiro_error_t e = nullptr;
                tiro_vm_run_ready(v, &e);
                ApiError a = take_error(e);
                MC_CHECK(a.ok(), "the virtual machine does not continue: {} {}", a.message, a.details);
            } else {
                v.deliver();
            }
        }
        {
            gc::Guard g;
            gc::always();
            H f(v);
            tiro_make_float(v, 1.5, f, Err());
        }
        v.take_log();
        v.out.clear();
        v.native_errors.clear();
        std::string now = call("stable", "show", *stable);
        MC_CHECK(now == stable_text, "values changed: {}\nbefore {}", now, stable_text);
    }
};

std::unique_ptr<Machine> shared;
Machine& shared_machine() {
    if (!shared)
        shared = std::make_unique<Machine>();
    return *shared;
}

struct Observed {
    std::string text;
    uint64_t allocations;
};

Observed normal(XVm& vm, const std::function<std::string(XVm&)>& s) {
    gc::Guard guard;
    vm.native_errors.clear();
    gc::fail_at(0, 0);
    Observed o;
    o.text = s(vm);
    o.allocations = gc::count();
    gc::suspend();
    o.text += " log " + vm.take_log() + " out " + vm.out;
    vm.out.clear();
    for (auto& e : vm.native_errors)
        o.text += " native error " + e.message;
    return o;
}

// The failure must have been reported as such, to the host or to a native function first.
void check_reported(XVm& vm, const std::string& text) {
    if (!vm.native_errors.empty()) {
        auto& e = vm.native_errors[0];
        MC_CHECK(e.code == TIRO_ERROR_ALLOC, "a native function got {} {} {}", tiro_errc_name(e.code), e.message, e.details);
        R.outcome("native");
        if (!vm.run_error.ok())
            MC_CHECK(vm.run_error.code == TIRO_ERROR_ALLOC || vm.run_error.code == TIRO_ERROR_BAD_STATE, "reported as {} {} {}",
                tiro_errc_name(vm.run_error.code), vm.run_error.message, vm.run_error.details);
        return;
    }
    MC_CHECK(!vm.run_error.ok(), "not reported: {}", text);
    MC_CHECK(vm.run_error.code == TIRO_ERROR_ALLOC, "reported as {} {} {}", tiro_errc_name(vm.run_error.code), vm.run_error.message,
        vm.run_error.details);
    R.outcome("host");
}

struct Depth {
    uint64_t singles, rest; // scenarios with up to this number of allocations
    uint64_t step = 1;      // otherwise every step-th
};

void explore(Machine& m, const std::function<std::string(XVm&)>& s, const Depth& depth) {
    XVm& vm = *m.vm;
    normal(vm, s);
    const Observed base = normal(vm, s);
    const uint64_t n = base.allocations;
    R.states(n);
    auto check = [&](uint64_t k, uint64_t count, const char* what) {
        try {
            std::string text;
            {
                gc::Guard g;
                gc::fail_at(k, count);
                text = s(vm);
            }
            MC_CHECK(gc::failed(), "allocation not reached");
            check_reported(vm, text);
            m.recover();
            Observed again = normal(vm, s);
            R.traces();
            R.transitions(again.allocations);
            MC_CHECK(again.text == base.text, "then, without failures: {}\ninstead of {}", again.text, base.text);
        } catch (const Failure& f) {
            shared.reset();
            fail("{} {} of {}: {}", what, k, n, f.what);
        }
    };
    const uint64_t step = n <= depth.singles ? 1 : std::max<uint64_t>(1, n / depth.singles);
    for (uint64_t k = 0; k < n; k += step)
        check(k, 1, "failure of allocation");
    const uint64_t rstep = n <= depth.rest ? 1 : std::max<uint64_t>(1, n / std::max<uint64_t>(1, depth.rest));
    if (depth.rest)
        for (uint64_t k = 0; k < n; k += rstep)
            check(k, UINT64_MAX / 2, "failure of all allocations from");
}

void explore_program(const std::string& decls, const std::string& body, const Depth& depth) {
    std::string src = "import std; import h; import g; import lib;\n" + decls + "\nexport func main(n) {\n" + body + "\n}\n";
    R.note(src);
    // Module names are unique: the machine is shared
    static int counter;
    std::string name = fmt::format("p{}", counter++);
    CompileResult c = compile(src, name);
    MC_CHECK(c.error.ok() && c.module, "{}", c.describe());
    Machine& m = shared_machine();
    ApiError e = m.vm->load(c.module);
    MC_CHECK(e.ok(), "does not load: {} {}", e.message, e.details);
    explore(m, [&](XVm& vm) {
        std::unique_ptr<H> args;
        gc::suspend();
        args = std::make_unique<H>(vm);
        {
            H n(vm);
            tiro_make_tuple(vm, 1, *args, Err());
            tiro_make_integer(vm, 7, n, Err());
            tiro_tuple_set(vm, *args, 0, n, Err());
        }
        gc::resume();
        return vm.run(name, "main", *args).str();
    }, depth);
    if (counter % 64 == 0)
        shared.reset();
}

void programs() {
    const Depth depth = R.thorough ? Depth{1 << 20, 300} : Depth{16, 3};
    for (auto& p : producers)
        for (auto& h : holders)
            R.run(fmt::format("{} as {}", p.name, h.name), [&] {
                explore_program(replace(h.decls, "$P", p.expr), replace(h.body, "$P", p.expr), depth);
            });
    for (auto op : allocating_ops)
        R.run(fmt::format("operation {}", op), [&] {
            explore_program("", fmt::format("return lib.R([{}]);", op), Depth{1 << 20, 1 << 20});
        });
}


// ---------------------------------------------------------------------------------------------------------------
// Modification of containers: afterwards they are either modified or not.

struct ContainerOp {
    const char* name;
    const char* make; // c(n): a container with n elements
    const char* op;   // modification of c
    const char* show = "return lib.R(c);";
};
const std::vector<ContainerOp> container_ops = {
    {"map insert", "const c = map{}; for var i = 0; i < n; i += 1 { c[\"k$i\"] = i; } return c;", "c[\"new\"] = \"value\";"},
    {"map insert after removals", "const c = map{}; for var i = 0; i < n; i += 1 { c[\"k$i\"] = i; } for var i = 0; i < n; i += 3 { c.remove(\"k$i\"); } return c;",
        "c[\"new\"] = \"value\";"},
    {"map overwrite", "const c = map{}; for var i = 0; i < n; i += 1 { c[i] = i; } return c;", "c[0] = \"value\";"},
    {"set insert", "const c = set{}; for var i = 0; i < n; i += 1 { c.insert(\"k$i\"); } return c;", "c.insert(1.5);"},
    {"array append", "const c = []; for var i = 0; i < n; i += 1 { c.append(i); } return c;", "c.append(\"new\");"},
    {"array store", "const c = []; for var i = 0; i <= n; i += 1 { c.append(i); } return c;", "c[0] = \"new\";"},
    {"builder append", "const c = std.new_string_builder(); for var i = 0; i < n; i += 1 { c.append(\"x\"); } return c;", "c.append(\"some text\");",
        "return c.to_string();"},
    {"builder append number", "const c = std.new_string_builder(); for var i = 0; i < n; i += 1 { c.append(\"x\"); } return c;", "c.append(1234567);",
        "return c.to_string();"},
    {"builder append byte", "const c = std.new_string_builder(); for var i = 0; i < n; i += 1 { c.append(\"x\"); } return c;", "c.append_byte(65);",
        "return c.to_string();"},
    {"record store", "return (a: n, b: [n]);", "c.b = [\"x\"];"},
    {"captured variable", "var x = n; return (func() { return x; }, func() { x = [\"new\"]; });", "c[1]();", "return c[0]();"},
    {"remove", "const c = map{}; for var i = 0; i <= n; i += 1 { c[\"k$i\"] = i; } return c;", "c.remove(\"k0\");"},
    {"clear", "const c = map{}; for var i = 0; i < n; i += 1 { c[\"k$i\"] = i; } return c;", "c.clear();"},
    {"module variable", "v = n; return null;", "v = [\"x\", v == null];", "return lib.R(v);"},
};

void containers() {
    std::vector<int> sizes;
    for (int i = 0; i <= (R.thorough ? 200 : 26); ++i)
        sizes.push_back(i);
    for (int i : {47, 48, 49, 63, 64, 65, 95, 96, 97, 127, 128, 129, 191, 192, 193, 254, 255, 256, 257, 384, 385, 511, 512, 513, 767, 768, 769, 1023, 1024, 1025})
        if (i > sizes.back())
            sizes.push_back(i);
    if (R.thorough)
        for (int i : {49151, 49152, 49153, 98303, 98304, 98305})
            sizes.push_back(i);
    for (auto& c : container_ops)
        for (int n : sizes)
            R.run(fmt::format("container: {} of size {}", c.name, n), [&] {
                const std::string src = fmt::format(R"(import std; import g; import lib; var v = null;
export func make(n) {{ {} }}
export func op(c) {{ {} return null; }}
export func show(c) {{ {} }}
export func len(n) {{ return null; }}
)", c.make, c.op, c.show);
                R.note(src);
                static int counter;
                std::string name = fmt::format("c{}", counter++);
                CompileResult r = compile(src, name);
                MC_CHECK(r.error.ok() && r.module, "{}", r.describe());
                Machine& m = shared_machine();
                XVm& vm = *m.vm;
                try {
                    ApiError e = vm.load(r.module);
                    MC_CHECK(e.ok(), "does not load: {} {}", e.message, e.details);
                    H num(vm), cont(vm), args(vm);
                    tiro_make_integer(vm, n, num, Err());
                    auto make = [&] {
                        H f(vm), coro(vm), a(vm), res(vm);
                        vm.get_export(name, "make", f);
                        tiro_make_tuple(vm, 1, a, Err());
                        tiro_tuple_set(vm, a, 0, num, Err());
                        tiro_make_coroutine(vm, f, a, coro, Err());
                        tiro_coroutine_start(vm, coro, Err());
                        tiro_vm_run_ready(vm, Err());
                        tiro_coroutine_result(vm, coro, res, Err());
                        tiro_result_value(vm, res, cont, Err());
                    };
                    auto show = [&] { return m.call(name, "show", cont); };
                    auto op = [&] {
                        gc::suspend();
                        H a(vm);
                        tiro_make_tuple(vm, 1, a, Err());
                        tiro_tuple_set(vm, a, 0, cont, Err());
                        gc::resume();
                        vm.native_errors.clear();
                        return vm.run(name, "op", a).str();
                    };
                    make();
                    const std::string before = show();
                    uint64_t allocations;
                    {
                        gc::Guard g;
                        gc::fail_at(0, 0);
                        op(); // keys are interned now
                        make();
                        gc::fail_at(0, 0);
                        op();
                        allocations = gc::count();
                    }
                    const std::string after = show();
                    R.states(allocations);
                    for (uint64_t k = 0; k < allocations; ++k)
                        for (bool rest : {false, true}) {
                            if (rest && k + 1 == allocations)
                                continue;
                            make();
                            std::string text;
                            {
                                gc::Guard g;
                                gc::fail_at(k, rest ? UINT64_MAX / 2 : 1);
                                text = op();
                            }
                            MC_CHECK(gc::failed(), "allocation not reached");
                            check_reported(vm, text);
                            // twice: failures must not accumulate
                            std::string now = show();
                            MC_CHECK(now == before || now == after, "failure of allocation {} of {}: half updated: {}\nbefore {}\nafter {}", k,
                                allocations, now, before, after);
                            if (now == before) {
                                {
                                    gc::Guard g;
                                    gc::fail_at(k, rest ? UINT64_MAX / 2 : 1);
                                    op();
                                }
                                now = show();
                                MC_CHECK(now == before || now == after, "second failure of allocation {} of {}: half updated: {}\nbefore {}\nafter {}", k,
                                    allocations, now, before, after);
                            }
                            if (now == before) {
                                op();
                                MC_CHECK(vm.run_error.ok(), "does not succeed afterwards: {}", vm.run_error.message);
                                now = show();
                                MC_CHECK(now == after, "failure of allocation {} of {}, then success: {}\ninstead of {}", k, allocations, now, after);
                            }
                            R.traces();
                        }
                    m.recover();
                } catch (const Failure&) {
                    shared.reset();
                    throw;
                }
            });
}

// ---------------------------------------------------------------------------------------------------------------
// Host interface.

void host_calls() {
    // all operations with all argument handles in two situations
    auto& ops = host_ops();
    auto prepare = [](XVm& v, std::vector<H>& hs, int situation) {
        for (int i = 0; i < 3; ++i)
            hs.emplace_back(v);
        H t(v), k(v), n(v);
        switch (situation) {
        case 0:
            tiro_make_string(v, S("zero"), hs[0], Err());
            tiro_make_tuple(v, 2, hs[1], Err());
            tiro_make_array(v, 1, hs[2], Err());
            tiro_array_push(v, hs[2], hs[0], Err());
            break;
        case 1: // full array, record, function
            tiro_make_array(v, 0, hs[0], Err());
            tiro_make_float(v, 1.5, t, Err());
            for (int i = 0; i < 8; ++i)
                tiro_array_push(v, hs[0], t, Err());
            tiro_make_array(v, 0, k, Err());
            for (auto s : {"k1", "k2"}) {
                tiro_make_string(v, S(s), n, Err());
                tiro_array_push(v, k, n, Err());
            }
            tiro_make_record_schema(v, k, n, Err());
            tiro_make_record(v, n, hs[1], Err());
            v.get_export("lib", "churn", hs[2]);
            break;
        case 2: // result, coroutine, number
            tiro_make_float(v, 2.5, t, Err());
            tiro_make_success(v, t, hs[0], Err());
            v.get_export("lib", "churn", t);
            tiro_make_coroutine(v, t, nullptr, hs[1], Err());
            tiro_make_integer(v, INT64_MAX, hs[2], Err());
            break;
        }
    };
    for (size_t o = 0; o < ops.size(); ++o)
        for (int situation = 0; situation < 3; ++situation)
            for (int d = 0; d < 3; ++d)
                for (int s = 0; s < 3; ++s)
                    R.run(fmt::format("host call {}({},{}) in situation {}", ops[o].name, d, s, situation), [&] {
                        Machine& m = shared_machine();
                        XVm& v = *m.vm;
                        try {
                            auto dump_all = [&](std::vector<H>& hs) {
                                std::string r;
                                for (auto& h : hs)
                                    r += deep_dump(v, h) + "; ";
                                return r;
                            };
                            auto run = [&](std::vector<H>& hs) {
                                tiro_error_t e = nullptr;
                                ops[o].f(v, hs[d], hs[s], hs[2], &e);
                                return take_error(e);
                            };
                            ApiError expected;
                            std::string result;
                            uint64_t n = 0;
                            for (int i = 0; i < 2; ++i) {
                                std::vector<H> hs;
                                prepare(v, hs, situation);
                                gc::Guard g;
                                gc::fail_at(0, 0);
                                expected = run(hs);
                                n = gc::count();
                                gc::suspend();
                                result = dump_all(hs);
                                while (tiro_vm_has_ready(v))
                                    tiro_vm_run_ready(v, Err());
                            }
                            R.states(n);
                            for (uint64_t k = 0; k < n; ++k)
                                for (bool rest : {false, true}) {
                                    std::vector<H> hs;
                                    prepare(v, hs, situation);
                                    std::string before = dump_all(hs);
                                    ApiError a;
                                    {
                                        gc::Guard g;
                                        gc::fail_at(k, rest ? UINT64_MAX / 2 : 1);
                                        a = run(hs);
                                    }
                                    MC_CHECK(gc::failed(), "allocation {} of {} not reached", k, n);
                                    // calls that fail anyway may fail for either reason
                                    MC_CHECK(a.code == TIRO_ERROR_ALLOC || (a.code == expected.code && !expected.ok()),
                                        "failure of allocation {} of {}: {} {} {}", k, n, tiro_errc_name(a.code), a.message, a.details);
                                    std::string now = dump_all(hs);
                                    MC_CHECK(now == before || std::string_view(ops[o].name) == "run", "failure of allocation {} of {}: now {}\nbefore {}", k, n, now, before);
                                    a = run(hs);
                                    MC_CHECK(a.code == expected.code, "failure of allocation {} of {}, then {} {}", k, n, a.message, a.details);
                                    now = dump_all(hs);
                                    MC_CHECK(now == result, "failure of allocation {} of {}, then {}\ninstead of {}", k, n, now, result);
                                    R.traces();
                                    while (tiro_vm_has_ready(v))
                                        tiro_vm_run_ready(v, Err());
                                }
                            m.recover();
                        } catch (const Failure&) {
                            shared.reset();
                            throw;
                        }
                    });
}

// ---------------------------------------------------------------------------------------------------------------
// Creation of machines and loading of modules.

void loading() {
    static const char* const modules[][2] = {
        {"a", "import std; export const x = [1, \"x\", #sym, 1.5, 4611686018427387904]; export func f(n) { return (x, n, lib2(n)); } func lib2(n) = \"v$n\";"},
        {"b", "import std; import lib; export const m = lib.mp(1); const c = lib.clo2(3); export func f(n) { const q = (a: 1, b: c()()); return (lib.R(m), q.b, q); }"},
        {"c", "import a; import b; export const y = b.f(1); export func f(n) { return [a.f(n), y, b.f(2)]; }"},
        {"d", "import std; export const g1 = func() { return 5; }; const t = (1, 2.5); var w = map{1: \"x\"}; export func f(n) { w[n] = t; return (g1(), w, t)[0]; }"},
    };
    static std::vector<CompileResult> compiled;
    if (compiled.empty())
        for (auto& m : modules) {
            compiled.push_back(compile(m[1], m[0]));
            MC_CHECK(compiled.back().error.ok() && compiled.back().module, "{}", compiled.back().describe());
        }
    auto all = [&](XVm& vm, int first_failing, uint64_t k, uint64_t count, uint64_t* n) {
        std::string r;
        for (size_t i = 0; i < compiled.size(); ++i) {
            if (int(i) == first_failing) {
                ApiError e;
                {
                    gc::Guard g;
                    gc::fail_at(k, count);
                    e = vm.load(compiled[i].module);
                    if (n)
                        *n = gc::count();
                }
                if (count) {
                    MC_CHECK(gc::failed(), "allocation not reached");
                    MC_CHECK(e.code == TIRO_ERROR_ALLOC, "load reported {} {} {}", tiro_errc_name(e.code), e.message, e.details);
                    H x(vm);
                    e = vm.get_export(modules[i][0], "f", x);
                    MC_CHECK(e.code == TIRO_ERROR_MODULE_NOT_FOUND, "after a failed load: {} {}", tiro_errc_name(e.code), e.message);
                    e = vm.load(compiled[i].module);
                }
                MC_CHECK(e.ok(), "load of {}: {} {}", modules[i][0], e.message, e.details);
            } else {
                ApiError e = vm.load(compiled[i].module);
                MC_CHECK(e.ok(), "load of {}: {} {}", modules[i][0], e.message, e.details);
            }
        }
        for (auto& mod : modules) {
            H args(vm), num(vm);
            tiro_make_tuple(vm, 1, args, Err());
            tiro_make_integer(vm, 3, num, Err());
            tiro_tuple_set(vm, args, 0, num, Err());
            r += vm.run(mod[0], "f", args).str() + "; ";
        }
        return r;
    };
    for (size_t i = 0; i < compiled.size(); ++i) {
        uint64_t n = 0;
        std::string base;
        {
            Machine m;
            base = all(*m.vm, int(i), 0, 0, &n);
        }
        for (uint64_t k = 0; k < n; ++k)
            for (bool rest : {false, true})
                R.run(fmt::format("loading module {} with allocation {} failing{}", modules[i][0], k, rest ? " (and all later)" : ""), [&] {
                    Machine m;
                    std::string r = all(*m.vm, int(i), k, rest ? UINT64_MAX / 2 : 1, nullptr);
                    R.traces();
                    MC_CHECK(r == base, "got {}\nexpected {}", r, base);
                    m.recover();
                });
    }

    // creation
    auto create = [&](uint64_t k, uint64_t count, uint64_t* n, tiro_errc_t* code) {
        tiro_vm_settings_t st;
        tiro_vm_settings_init(&st);
        tiro_error_t e = nullptr;
        gc::Guard g;
        gc::fail_at(k, count);
        tiro_vm_t vm = tiro_vm_new(&st, &e);
        *code = take_error(e).code;
        if (vm) {
            tiro_vm_load_std(vm, &e);
            *code = take_error(e).code;
            if (*code != TIRO_OK) { // again
                gc::suspend();
                tiro_vm_load_std(vm, &e);
                ApiError a = take_error(e);
                MC_CHECK(a.ok(), "std does not load after a failure: {} {}", a.message, a.details);
                H h(vm);
                tiro_vm_get_export(vm, S("std"), S("print"), h, Err());
                gc::resume();
            }
            if (n)
                *n = gc::count();
            tiro_vm_free(vm);
        }
    };
    uint64_t n = 0;
    tiro_errc_t code;
    create(0, 0, &n, &code);
    for (uint64_t k = 0; k < n; ++k)
        for (bool rest : {false, true})
            R.run(fmt::format("creation with allocation {} failing{}", k, rest ? " (and all later)" : ""), [&] {
                size_t blocks = sysmem::block_count;
                int64_t news = sysmem::news;
                create(k, rest ? UINT64_MAX / 2 : 1, nullptr, &code);
                MC_CHECK(code == TIRO_ERROR_ALLOC, "reported {}", tiro_errc_name(code));
                MC_CHECK(sysmem::block_count == blocks, "{} blocks of memory lost", sysmem::block_count - blocks);
                MC_CHECK(sysmem::news == news, "{} objects lost", sysmem::news - news);
                R.traces();
            });
}

// ---------------------------------------------------------------------------------------------------------------
// Requests that cannot be satisfied.

void huge() {
    std::vector<uint64_t> sizes;
    for (int b = 24; b < 64; ++b)
        for (int64_t d : {-4096, -16, -1, 0, 1, 16, 4096})
            if (R.thorough || b % 2 == 0 || b >= 60)
                sizes.push_back((uint64_t(1) << b) + uint64_t(d));
    for (uint64_t d = 0; d < 80; d += R.thorough ? 1 : 3)
        sizes.push_back(UINT64_MAX - d);
    for (uint64_t d = 0; d < (R.thorough ? 40 : 13); ++d)
        for (uint64_t e : {8, 16})
            sizes.push_back(UINT64_MAX / e - d * (R.thorough ? 1 : 3));
    struct Call {
        const char* name;
        int element;
        std::function<void(XVm&, uint64_t, tiro_handle_t, tiro_error_t*)> f;
    };
    static const char text[] = "x";
    static const std::vector<Call> calls = {
        {"make_buffer", 1, [](XVm& v, uint64_t n, tiro_handle_t r, tiro_error_t* e) { tiro_make_buffer(v, n, r, e); }},
        {"make_tuple", 8, [](XVm& v, uint64_t n, tiro_handle_t r, tiro_error_t* e) { tiro_make_tuple(v, n, r, e); }},
        {"make_array", 8, [](XVm& v, uint64_t n, tiro_handle_t r, tiro_error_t* e) { tiro_make_array(v, n, r, e); }},
        {"make_native", 1, [](XVm& v, uint64_t n, tiro_handle_t r, tiro_error_t* e) {
             static const tiro_native_type_t t = [] {
                 tiro_native_type_t t{};
                 t.name = S("Huge");
                 t.alignment = 8;
                 return t;
             }();
             tiro_make_native(v, &t, n, r, e);
         }},
        {"new_buffer", 1, [](XVm& v, uint64_t n, tiro_handle_t r, tiro_error_t* e) {
             H args(v), num(v), f(v);
             tiro_make_tuple(v, 1, args, Err());
             tiro_make_integer(v, int64_t(n), num, Err());
             tiro_tuple_set(v, args, 0, num, Err());
             H coro(v), res(v);
             v.get_export("std", "new_buffer", f);
             tiro_make_coroutine(v, f, args, coro, Err());
             tiro_coroutine_start(v, coro, Err());
             tiro_vm_run_ready(v, e);
             if (!*e) {
                 tiro_coroutine_result(v, coro, res, Err());
                 if (tiro_result_is_success(v, res))
                     tiro_result_value(v, res, r, Err());
             }
         }},
    };
    (void) text;
    for (auto& c : calls)
        for (uint64_t limit : {uint64_t(64) << 20, UINT64_MAX})
            for (uint64_t n : sizes)
                R.run(fmt::format("{} of size {}, limit {}", c.name, n, limit), [&] {
                    VmOptions o;
                    o.max_heap = limit;
                    Machine m(o);
                    XVm& v = *m.vm;
                    H r(v);
                    tiro_make_string(v, S("unchanged"), r, Err());
                    for (int i = 0; i < 2; ++i) {
                        tiro_error_t e = nullptr;
                        uint64_t refused = sysmem::refused;
                        c.f(v, n, r, &e);
                        ApiError a = take_error(e);
                        const bool panicked = a.ok() && tiro_value_kind(v, r) == TIRO_KIND_STRING;
                        R.outcome(fmt::format("{} {} {}", a.code, panicked, sysmem::refused != refused));
                        // below the limit (or 1 GiB, where this check refuses requests to the system)
                        const uint64_t cap = std::min<uint64_t>(limit, sysmem::max_request);
                        if (n < cap / 8 && n * uint64_t(c.element) < cap - (cap >> 3)) {
                            MC_CHECK(a.ok() && !panicked, "satisfiable request failed: {} {}", a.message, a.details);
                            break;
                        }
                        if (n > cap || n * uint64_t(c.element) > cap) {
                            if (std::string_view(c.name) == "new_buffer" && int64_t(n) < 0)
                                MC_CHECK(panicked, "negative size: {} {}", a.message, a.details);
                            else
                                MC_CHECK(a.code == TIRO_ERROR_ALLOC, "reported as {} {} {}", tiro_errc_name(a.code), a.message, a.details);
                            MC_CHECK(V([&] { tiro_string_t s; tiro_string_value(v, r, &s, Err()); return s; }()) == "unchanged", "result handle changed");
                        }
                    }
                    R.traces();
                    m.recover();
                });
}

// Heap limits: the limit is never exceeded, and when garbage is dropped the machine works again.
void limits() {
    static const char* const src = R"(import std; import g; import lib;
var keep = [];
export func fill(n) { while (true) { keep.append($P); } }
export func drop(n) { keep = []; return null; }
export func main(n) { return lib.R($P); }
)";
    const size_t page = 1 << 16;
    std::vector<size_t> ls;
    for (size_t l = 1; l <= 15; l += R.thorough ? 1 : 5)
        for (size_t d : {size_t(0), page - 1})
            ls.push_back(l * page + d);
    if (R.thorough)
        ls.push_back(1 << 22);
    for (auto& p : producers)
        for (size_t limit : ls)
            R.run(fmt::format("limit of {} bytes: {}", limit, p.name), [&] {
                CompileResult c = compile(replace(src, "$P", p.expr), "p");
                MC_CHECK(c.error.ok() && c.module, "{}", c.describe());
                VmOptions o;
                o.page_size = page;
                const size_t start = sysmem::bytes;
                auto within = [&](const char* when) {
                    MC_CHECK(sysmem::peak - start <= limit, "{}: {} bytes", when, sysmem::peak - start);
                };
                sysmem::reset();
                tiro_vm_settings_t st;
                tiro_vm_settings_init(&st);
                st.page_size = page;
                st.max_heap_size = limit;
                tiro_error_t e = nullptr;
                tiro_vm_t probe = tiro_vm_new(&st, &e);
                ApiError a = take_error(e);
                if (probe)
                    tiro_vm_free(probe);
                else
                    MC_CHECK(a.code == TIRO_ERROR_ALLOC, "creation: {} {}", a.message, a.details);
                within("creation");
                if (!probe || limit < 3 * page)
                    return;
                o.max_heap = limit;
                auto vm = machine_with_lib(o);
                within("libraries");
                a = vm->load(c.module);
                if (!a.ok()) {
                    MC_CHECK(a.code == TIRO_ERROR_ALLOC, "load: {} {}", a.message, a.details);
                    return;
                }
                auto args_ptr = std::make_unique<H>(*vm);
                H& args = *args_ptr;
                {
                    H n(*vm);
                    tiro_make_tuple(*vm, 1, args, Err());
                    tiro_make_integer(*vm, 7, n, Err());
                    tiro_tuple_set(*vm, args, 0, n, Err());
                }
                auto ok_or_alloc = [&](const char* fn) {
                    vm->native_errors.clear();
                    std::string r = vm->run("p", fn, args).str();
                    within(fn);
                    if (!vm->run_error.ok()) {
                        MC_CHECK(vm->run_error.code == TIRO_ERROR_ALLOC, "{}: {} {}", fn, vm->run_error.message, vm->run_error.details);
                        return std::string();
                    }
                    if (!vm->native_errors.empty()) {
                        MC_CHECK(vm->native_errors[0].code == TIRO_ERROR_ALLOC, "{}: {}", fn, vm->native_errors[0].message);
                        return std::string();
                    }
                    return r;
                };
                const std::string base = ok_or_alloc("main");
                for (int round = 0; round < 4; ++round) {
                    ok_or_alloc("fill");
                    ok_or_alloc("main");
                    // room again
                    {
                        gc::Guard g;
                        gc::always();
                        vm->run("p", "drop", args);
                    }
                    MC_CHECK(vm->run_error.ok() || vm->run_error.code == TIRO_ERROR_ALLOC, "drop: {} {}", vm->run_error.message, vm->run_error.details);
                    if (vm->run_error.ok()) {
                        R.nontrivial();
                        std::string r = ok_or_alloc("main");
                        MC_CHECK(r == base || base.empty(), "round {}: got '{}'\ninstead of {}", round, r, base);
                    }
                }
                args_ptr.reset();
                vm.reset();
                MC_CHECK(sysmem::bytes == start, "{} bytes not returned", sysmem::bytes - start);
                R.traces();
            });
}

// The system refuses memory: page and large object requests.
void refusals() {
    static const char* const src = R"(import std; import g; import lib;
var keep = [];
export func main(n) { keep = []; for var i = 0; i < 60; i += 1 { keep.append($P); keep.append(g.bytes(20000, 1)); } const r = lib.R(keep[0]); return r; }
)";
    for (auto& p : producers) {
        auto run = [](XVm& vm) {
            H args(vm), n(vm);
            tiro_make_tuple(vm, 1, args, Err());
            tiro_make_integer(vm, 7, n, Err());
            tiro_tuple_set(vm, args, 0, n, Err());
            vm.native_errors.clear();
            return vm.run("p", "main", args).str();
        };
        CompileResult c = compile(replace(src, "$P", p.expr), "p");
        MC_CHECK(c.error.ok() && c.module, "{}", c.describe());
        VmOptions o;
        o.max_heap = 12 << 20;
        Machine base_machine(o);
        MC_CHECK(base_machine.vm->load(c.module).ok(), "load");
        sysmem::reset();
        std::string base = run(*base_machine.vm);
        const uint64_t n = sysmem::requests;
        for (uint64_t k = 0; k < n; k += R.thorough ? 1 : std::max<uint64_t>(1, n / 7))
            for (uint64_t count : {uint64_t(1), uint64_t(2), UINT64_MAX / 2})
                R.run(fmt::format("system refuses request {} ({}): {}", k, count > 2 ? "and all later" : count == 2 ? "and the next" : "only", p.name), [&] {
                    Machine m(o);
                    XVm& vm = *m.vm;
                    MC_CHECK(vm.load(c.module).ok(), "load");
                    for (int i = 0; i < (R.thorough ? 12 : 6); ++i) { // the limit must not shrink
                        sysmem::reset();
                        sysmem::refuse_first = i == 0 ? k : std::min<uint64_t>(k, 2 + i);
                        sysmem::refuse_count = count;
                        std::string text = run(vm);
                        if (sysmem::refused)
                            check_reported(vm, text);
                        R.transitions();
                    }
                    sysmem::reset();
                    std::string r = run(vm);
                    MC_CHECK(r == base, "got {} {}\ninstead of {}", r, vm.run_error.details, base);
                    m.recover();
                    R.traces();
                });
    }
    // large requests that the system refuses must not count towards the limit
    for (size_t size : {size_t(1) << 14, size_t(1) << 16, size_t(1) << 20, size_t(1) << 22})
        R.run(fmt::format("refused blocks of {} bytes do not count", size), [&] {
            VmOptions o;
            o.max_heap = 8 << 20;
            Machine m(o);
            XVm& vm = *m.vm;
            for (int i = 0; i < 1000; ++i) {
                H b(vm);
                sysmem::reset();
                sysmem::refuse_first = 0;
                sysmem::refuse_count = 1000;
                tiro_error_t e = nullptr;
                tiro_make_buffer(vm, size, b, &e);
                ApiError a = take_error(e);
                MC_CHECK(a.ok() || a.code == TIRO_ERROR_ALLOC, "{} {}", a.message, a.details);
                MC_CHECK(!a.ok() || !sysmem::refused || size <= 16384, "refused but successful");
            }
            sysmem::reset();
            H b(vm);
            tiro_error_t e = nullptr;
            tiro_make_buffer(vm, 5 << 20, b, &e);
            ApiError a = take_error(e);
            MC_CHECK(a.ok(), "no memory although most of the limit is free: {} {}", a.message, a.details);
            m.recover();
        });
}

} // namespace

void mc::enumerate() {
    programs();
    containers();
    host_calls();
    loading();
    huge();
    limits();
    refusals();
}
