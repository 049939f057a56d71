// C20: modules are initialized once, in dependency order, or not at all.
#include <algorithm>
#include <map>
#include <set>

#include "common/gc.hpp"
#include "common/host.hpp"

using namespace mc;

const char* const mc::check_id = "C20";

namespace {

// ---- The host module "k": records what initializers do and decides whether they fail ----

enum Kind { Fine, Fails, FailsOnce, Waits, Plain /* has no initializer */ };
const char* const kind_names[] = {"fine", "fails", "fails once", "waits", "plain"};

struct World {
    size_t n = 0;
    std::vector<std::vector<int>> imports;
    std::vector<Kind> kind;

    std::vector<bool> loaded, done, active;
    std::vector<int> attempts, count;
    std::vector<std::string> errors;
    std::set<int> allowed; // modules that may be initialized now
    std::vector<tiro_async_token_t> tokens;
    std::string nested; // module accessed by k.enter()
    std::vector<ApiError> nested_results;
    uint64_t events = 0;

    void bad(std::string s) {
        if (errors.size() < 5)
            errors.push_back(std::move(s));
    }
    void resize(size_t size) {
        n = size;
        imports.resize(n);
        kind.resize(n);
        loaded.assign(n, false);
        done = active = loaded;
        attempts.assign(n, 0);
        count.assign(n, 0);
    }

    void start(int i) {
        ++events;
        const auto s = size_t(i);
        if (!allowed.count(i))
            bad(fmt::format("the initializer of m{} was executed although nothing depends on it", i));
        if (done[s])
            bad(fmt::format("the initializer of m{} was executed again", i));
        if (active[s])
            bad(fmt::format("the initializer of m{} was executed while it is in progress", i));
        for (int j : imports[s])
            if (!ready(j))
                bad(fmt::format("m{} was initialized before m{}", i, j));
        active[s] = true;
        ++attempts[s];
        count[s] = 0;
    }
    void see(int i, int j, int64_t c) {
        ++events;
        if (!active[size_t(i)] && i != j) // launched coroutines may run later
            bad(fmt::format("m{} is not being initialized", i));
        if (c != (plain(j) ? j : ++count[size_t(j)]))
            bad(fmt::format("m{} sees another instance of m{} ({} calls, expected {})", i, j, c, count[size_t(j)]));
    }
    void end(int i) {
        ++events;
        if (!active[size_t(i)])
            bad(fmt::format("m{} is not being initialized", i));
        active[size_t(i)] = false;
        done[size_t(i)] = true;
    }
    bool plain(int i) const { return kind[size_t(i)] == Plain; }
    // Modules without an initializer are ready when their imports are.
    bool ready(int i, int depth = 0) const {
        if (!loaded[size_t(i)] || depth > int(n))
            return false;
        if (!plain(i))
            return done[size_t(i)];
        for (int j : imports[size_t(i)])
            if (!ready(j, depth + 1))
                return false;
        return true;
    }
    std::set<int> closure(int i) const {
        std::set<int> r;
        std::vector<int> todo = {i};
        while (!todo.empty()) {
            int x = todo.back();
            todo.pop_back();
            if (!r.insert(x).second || !loaded[size_t(x)])
                continue;
            for (int j : imports[size_t(x)])
                todo.push_back(j);
        }
        return r;
    }
    bool cyclic(int from) const {
        // some module reachable from `from` reaches itself
        for (int x : closure(from))
            if (loaded[size_t(x)])
                for (int j : imports[size_t(x)])
                    if (closure(j).count(x))
                        return true;
        return false;
    }
};
World* W = nullptr;

int64_t arg_int(tiro_vm_t vm, tiro_sync_frame_t frame, size_t i) {
    H a(vm);
    tiro_sync_frame_arg(frame, i, a, Err());
    return tiro_integer_value(vm, a);
}

void k_start(tiro_vm_t vm, tiro_sync_frame_t f) { W->start(int(arg_int(vm, f, 0))); }
void k_see(tiro_vm_t vm, tiro_sync_frame_t f) { W->see(int(arg_int(vm, f, 0)), int(arg_int(vm, f, 1)), arg_int(vm, f, 2)); }
void k_end(tiro_vm_t vm, tiro_sync_frame_t f) { W->end(int(arg_int(vm, f, 0))); }
void k_work(tiro_vm_t vm, tiro_async_frame_t f) {
    H a(vm);
    tiro_async_frame_arg(f, 0, a, Err());
    const auto i = size_t(tiro_integer_value(vm, a));
    if (W->kind[i] == Fails || (W->kind[i] == FailsOnce && W->attempts[i] == 1)) {
        W->active[i] = false;
        tiro_async_frame_panic_msg(f, S("initialization fails"), Err());
    } else if (W->kind[i] == Waits) {
        W->active[i] = false;
        W->tokens.push_back(tiro_async_frame_token(f, Err()));
        tiro_async_frame_yield(f, Err());
    }
}
void k_enter(tiro_vm_t vm, tiro_sync_frame_t) {
    H r(vm);
    tiro_error_t e = nullptr;
    tiro_vm_get_export(vm, S(W->nested), S("touch"), r, &e);
    W->nested_results.push_back(take_error(e));
    bool usable = true;
    if (W->nested != "unknown")
        for (int x : W->closure(W->nested[1] - '0'))
            usable &= W->done[size_t(x)];
    if (usable && W->nested != "unknown" && !W->nested_results.back().ok())
        W->bad("an initialized module was not usable");
}

void add_module(tiro_vm_t vm, const char* name, const std::vector<std::pair<const char*, tiro_sync_function_t>>& sync, const std::vector<std::pair<const char*, tiro_async_function_t>>& async, size_t argc = 1) {
    std::vector<H> fns;
    std::vector<tiro_module_member_t> members;
    for (auto& [n, f] : sync) {
        H s = make_str(vm, n);
        fns.emplace_back(vm);
        tiro_make_sync_function(vm, s, f, 0, nullptr, fns.back(), Err());
        members.push_back({S(n), fns.back()});
    }
    for (auto& [n, f] : async) {
        H s = make_str(vm, n);
        fns.emplace_back(vm);
        tiro_make_async_function(vm, s, f, argc, nullptr, fns.back(), Err());
        members.push_back({S(n), fns.back()});
    }
    H mod(vm);
    tiro_make_module(vm, S(name), members.data(), members.size(), mod, Err());
    tiro_vm_load_module(vm, mod, Err());
}

struct Env {
    Vm vm;
    World w;

    explicit Env(size_t n, bool std_lib = false)
        : vm([&] {
            VmOptions o;
            o.load_std = std_lib;
            o.host_module = false;
            return o;
        }()) {
        w.resize(n);
        W = &w;
        add_module(vm, "k", {{"start", k_start}, {"see", k_see}, {"end", k_end}, {"enter", k_enter}}, {{"work", k_work}});
    }
    ~Env() {
        for (auto t : w.tokens)
            tiro_async_token_free(t);
        W = nullptr;
    }
};

std::string module_source(int i, const std::vector<int>& imports, bool plain, std::string_view extra = "") {
    std::string s = "import k;\n";
    for (size_t x = 0; x < imports.size(); ++x) // every second one uses an alias
        s += fmt::format("import m{}{};\n", imports[x], x % 2 ? fmt::format(" as a{}", imports[x]) : "");
    auto name = [&](size_t x) { return fmt::format("{}{}", x % 2 ? "a" : "m", imports[x]); };
    if (!plain) {
        s += fmt::format("var count = 0;\nconst st = k.start({});\n", i);
        for (size_t x = 0; x < imports.size(); ++x)
            s += fmt::format("const s{} = k.see({}, {}, {}.touch());\n", x, i, imports[x], name(x));
        s += fmt::format("{}\nconst w = k.work({});\nconst en = k.end({});\n", extra, i, i);
        s += "export func touch() { count += 1; return count; }\n";
    } else {
        s += fmt::format("var count;\nexport func touch() {{ return {}; }}\n", i);
    }
    s += fmt::format("export func name() = \"m{}\";\nfunc hidden() = 1;\n", i);
    s += "export func touch_imports() {\n  const r = [];\n";
    for (size_t x = 0; x < imports.size(); ++x)
        s += fmt::format("  r.append({}.touch());\n", name(x));
    s += "  return r;\n}\n";
    return s;
}

tiro_module_t compiled(int i, const std::vector<int>& imports, bool plain) {
    static std::map<std::tuple<int, std::vector<int>, bool>, CompileResult> cache;
    auto key = std::make_tuple(i, imports, plain);
    auto it = cache.find(key);
    if (it == cache.end()) {
        std::string src = module_source(i, imports, plain);
        if (plain) // `var count;` would require an initializer
            src.erase(src.find("var count;\n"), 11);
        it = cache.emplace(key, compile(src, fmt::format("m{}", i))).first;
        if (!it->second.error.ok())
            fail("could not be compiled: {}\n{}", it->second.describe(), src);
    }
    return it->second.module;
}

void load(Env& env, int i) {
    auto& w = env.w;
    ApiError e = env.vm.load(compiled(i, w.imports[size_t(i)], w.plain(i)));
    MC_CHECK(e.code == (w.loaded[size_t(i)] ? TIRO_ERROR_MODULE_EXISTS : TIRO_OK), "loading m{}: {}", i, e.message);
    w.loaded[size_t(i)] = true;
}

void no_errors(World& w) {
    if (!w.errors.empty())
        fail("{}", fmt::join(w.errors, "; "));
}

// All modules that are initialized work and their instances are the only ones.
void use(Env& env, int i) {
    auto& w = env.w;
    const std::string name = fmt::format("m{}", i);
    Outcome o = env.vm.call(name, "touch");
    if (!w.plain(i))
        ++w.count[size_t(i)];
    MC_CHECK(o.ok && o.value == std::to_string(w.plain(i) ? i : w.count[size_t(i)]), "{}.touch() is {}", name, o.str());
    o = env.vm.call(name, "touch_imports");
    std::string want = "[";
    for (int j : w.imports[size_t(i)]) {
        if (!w.plain(j))
            ++w.count[size_t(j)];
        want += fmt::format("{}{}", want.size() > 1 ? "," : "", w.plain(j) ? j : w.count[size_t(j)]);
    }
    MC_CHECK(o.ok && o.value == want + "]", "{}.touch_imports() is {}, expected {}]", name, o.str(), want);
    o = env.vm.call(name, "name");
    MC_CHECK(o.ok && o.value == "\"" + name + "\"", "{}.name() is {}", name, o.str());
    H r(env.vm);
    MC_CHECK(env.vm.get_export(name, "hidden", r).code == TIRO_ERROR_EXPORT_NOT_FOUND, "hidden member found");
}

void access(Env& env, int i) {
    auto& w = env.w;
    R.transitions(1);
    const auto closure = w.closure(i);
    bool missing = false, failing = false;
    for (int x : closure) {
        if (!w.loaded[size_t(x)])
            missing = true;
        else if (w.kind[size_t(x)] == Fails || w.kind[size_t(x)] == Waits || (w.kind[size_t(x)] == FailsOnce && !w.done[size_t(x)]))
            failing = true;
    }
    const bool cyclic = w.cyclic(i);
    w.allowed = closure;
    auto before = w.attempts;
    H r(env.vm);
    ApiError e = env.vm.get_export(fmt::format("m{}", i), "touch", r);
    w.allowed.clear();
    no_errors(w);
    if (missing || cyclic) {
        MC_CHECK(!e.ok(), "m{} is usable although {}", i, missing ? "a module it depends on does not exist" : "its imports are cyclic");
        if (!cyclic && !failing)
            MC_CHECK(e.code == TIRO_ERROR_MODULE_NOT_FOUND, "m{}: error {} although a module is missing", i, int(e.code));
    } else if (failing) {
        // May be usable after an attempt to initialize the module once more.
        if (e.ok())
            for (int x : closure)
                MC_CHECK(w.ready(x), "m{} is usable although m{} is not initialized", i, x);
    } else {
        MC_CHECK(e.ok(), "m{}: {} {}", i, e.message, e.details);
        for (int x : closure)
            MC_CHECK(w.ready(x), "m{} is usable but m{} was not initialized", i, x);
    }
    for (size_t x = 0; x < w.n; ++x) {
        MC_CHECK(!w.active[x], "the initializer of m{} was not completed", x);
        MC_CHECK(w.attempts[x] <= before[x] + 1, "the initializer of m{} was executed more than once", x);
    }
    for (size_t x = 0; x < w.n; ++x)
        if (w.done[x])
            use(env, int(x));
    if (e.ok() && w.plain(i))
        use(env, i);
    no_errors(w);
}

std::vector<std::vector<int>> graph_of(uint32_t bits, int n, bool loops) {
    std::vector<std::vector<int>> r(static_cast<size_t>(n));
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            if (loops || i != j) {
                if (bits & 1)
                    r[size_t(i)].push_back(j);
                bits >>= 1;
            }
    return r;
}

std::string show(const World& w) {
    std::string s;
    for (size_t i = 0; i < w.n; ++i)
        s += fmt::format("{}m{}({}) imports [{}]", i ? ", " : "", i, kind_names[w.kind[i]], fmt::join(w.imports[i], " "));
    return s;
}

// Events: 0..n-1 load a module, n..2n-1 access it.
void history(const std::vector<std::vector<int>>& imports, const std::vector<Kind>& kinds, const std::vector<int>& events, bool all_loaded) {
    const size_t n = imports.size();
    Env env(n);
    env.w.imports = imports;
    env.w.kind = kinds;
    if (all_loaded)
        for (size_t i = 0; i < n; ++i)
            load(env, int(i));
    for (int e : events)
        if (size_t(e) < n)
            load(env, e);
        else
            access(env, e - int(n));
    R.states(events.size());
    R.evaluations(1);
    R.traces(1);
    if (env.w.events)
        R.nontrivial(1);
    R.outcome(fmt::format("{} {}", fmt::join(env.w.attempts, ","), fmt::join(env.w.count, ",")));
}

std::vector<std::vector<int>> event_lists(int n, int len) {
    std::vector<std::vector<int>> r;
    std::vector<int> cur;
    std::function<void(int, int)> rec = [&](int loads, int accesses) {
        if (!cur.empty() && cur.back() >= n)
            r.push_back(cur);
        if (int(cur.size()) == len)
            return;
        // Modules are loaded in order (the graphs are not reduced by symmetry).
        if (loads < n) {
            cur.push_back(loads);
            rec(loads + 1, accesses);
            cur.pop_back();
        }
        for (int i = 0; i < n; ++i) {
            if (loads == 0 && accesses > 0)
                continue;
            cur.push_back(n + i);
            rec(loads, accesses + 1);
            cur.pop_back();
        }
    };
    rec(0, 0);
    return r;
}

std::vector<std::vector<Kind>> kind_lists(int n, const std::vector<Kind>& kinds, int max_other) {
    std::vector<std::vector<Kind>> r;
    std::vector<Kind> cur;
    std::function<void(int)> rec = [&](int other) {
        if (int(cur.size()) == n) {
            r.push_back(cur);
            return;
        }
        for (Kind k : kinds)
            if (k == Fine || other < max_other) {
                cur.push_back(k);
                rec(other + (k != Fine));
                cur.pop_back();
            }
    };
    rec(0);
    return r;
}

void graphs(int n, bool loops, const std::vector<std::vector<Kind>>& kinds, const std::vector<std::vector<int>>& events, bool all_loaded, bool acyclic = false) {
    const int bits = loops ? n * n : n * (n - 1);
    for (uint32_t g = 0; g < (1u << bits); ++g) {
        auto imports = graph_of(g, n, loops);
        if (acyclic) {
            World w;
            w.resize(size_t(n));
            w.imports = imports;
            w.loaded.assign(size_t(n), true);
            bool cyclic = false;
            for (int i = 0; i < n; ++i)
                cyclic |= w.cyclic(i);
            if (cyclic)
                continue;
        }
        for (auto& k : kinds) {
            if (!R.claim())
                continue;
            World w;
            w.resize(size_t(n));
            w.imports = imports;
            w.kind = k;
            auto key = [&](size_t i) {
                std::string s = show(w) + ":" + (all_loaded ? " all loaded," : "");
                for (int x : events[i])
                    s += fmt::format(" {} m{}", x < n ? "load" : "access", x % n);
                return s;
            };
            R.exec_batch(events.size(), key, [&](size_t b, size_t e) {
                for (size_t i = b; i < e; ++i) {
                    R.sub(i);
                    try {
                        history(imports, k, events[i], all_loaded);
                    } catch (const Failure& f) {
                        R.sub_fail(i, f.what);
                    }
                }
            });
        }
    }
}

// ---- Modules accessed while others are initialized or while functions run ----

// r accesses the module x from its initializer or from a function.
void nested() {
    // imports of r, x and y, kind of x, what r does
    struct Setup {
        std::vector<std::vector<int>> imports;
        const char* text;
    };
    const std::vector<Setup> setups = {{{{}, {}, {}}, "unrelated"}, {{{1}, {}, {}}, "r imports x"}, {{{}, {0}, {}}, "x imports r"}, {{{2}, {2}, {}}, "both import y"}, {{{}, {2}, {}}, "x imports y"}, {{{2}, {}, {1}}, "r imports y imports x"}};
    for (auto& setup : setups)
        for (Kind kind : {Fine, Fails, FailsOnce, Plain})
            for (Kind ykind : {Fine, Fails, Plain})
                for (int target = 0; target < 4; ++target) // r itself, x, y, an unknown module
                    for (bool x_first : {false, true})
                        for (int from = 0; from < 3; ++from) { // initializer, function, function that suspends
                            if (!R.claim())
                                continue;
                            R.exec(fmt::format("{}, x {}, y {}: {} accesses {}{}", setup.text, kind_names[kind], kind_names[ykind], from ? "a function" : "an initializer", target == 3 ? "unknown" : target == 2 ? "y" : target ? "x" : "r", x_first ? " after x was used" : ""), [&] {
                                Env env(3, true);
                                World& w = env.w;
                                w.imports = setup.imports;
                                w.kind = {Fine, kind, ykind};
                                w.nested = target == 3 ? "unknown" : fmt::format("m{}", target);
                                const std::string src = module_source(0, w.imports[0], false, from == 0 ? "const nested = k.enter();" : "")
                                                        + (from ? "import std; export func go() { k.enter(); std.dispatch(); k.enter(); return \"done\"; }\n" : "");
                                env.vm.load_source(src, "m0");
                                w.loaded[0] = true;
                                load(env, 1);
                                load(env, 2);
                                if (x_first)
                                    access(env, 1);
                                const auto before = w.attempts;
                                w.allowed = {0, 1, 2};
                                H r(env.vm);
                                ApiError e = env.vm.get_export("m0", from ? "go" : "touch", r);
                                no_errors(w);
                                if (from && e.ok()) {
                                    Outcome o = env.vm.call("m0", "go");
                                    MC_CHECK(o.ok && o.value == "\"done\"", "calling the function: {}", o.str());
                                    MC_CHECK(w.nested_results.size() == 2, "{} accesses", w.nested_results.size());
                                }
                                for (auto& nested : w.nested_results)
                                    if (nested.ok()) {
                                        MC_CHECK(target < 3 && w.ready(target), "the module was usable before it was initialized");
                                        for (int x : w.closure(target))
                                            MC_CHECK(w.ready(x), "m{} was usable although m{} was not initialized", target, x);
                                    } else if (target == 3) {
                                        MC_CHECK(nested.code == TIRO_ERROR_MODULE_NOT_FOUND, "error {}", int(nested.code));
                                    }
                                // Whatever is left to run must not initialize modules.
                                tiro_vm_run_ready(env.vm, Err());
                                no_errors(w);
                                for (size_t x = 0; x < 3; ++x)
                                    MC_CHECK(w.attempts[x] <= before[x] + 2, "m{} was initialized {} times", x, w.attempts[x]);
                                w.active.assign(3, false);
                                for (int i : {2, 1, 0, 1, 2})
                                    access(env, i);
                                R.states(w.events);
                                R.traces(1);
                                R.evaluations(1);
                                R.nontrivial(1);
                                R.outcome(fmt::format("{} {}", fmt::join(w.attempts, ","), w.nested_results.empty() ? -1 : int(w.nested_results[0].code)));
                            });
                        }
}

// ---- Modules that wait, start coroutines or are loaded while coroutines are ready ----

void waiting() {
    // An initializer that suspends is refused; its continuation must not make the module usable.
    for (int importer = 0; importer < 2; ++importer)
        for (int deliver = 0; deliver < 3; ++deliver)
            for (int again = 0; again < 2; ++again) {
                if (!R.claim())
                    continue;
                R.exec(fmt::format("suspending initializer, {}, {}{}", importer ? "imported" : "accessed", deliver == 0 ? "never resumed" : deliver == 1 ? "resumed" : "resumed and executed", again ? ", again" : ""), [&] {
                    Env env(2);
                    World& w = env.w;
                    w.imports = {{}, {0}};
                    w.kind = {Waits, Fine};
                    load(env, 0);
                    load(env, 1);
                    for (int round = 0; round <= again; ++round) {
                        w.allowed = {0};
                        H r(env.vm);
                        ApiError e = env.vm.get_export(importer ? "m1" : "m0", "touch", r);
                        MC_CHECK(!e.ok(), "the module is usable although its initializer waits");
                        if (deliver && (deliver == 2 || round == again)) {
                            w.active[0] = true; // not expected to end
                            H v = make_int(env.vm, 1);
                            tiro_error_t err = nullptr;
                            tiro_async_token_return_value(w.tokens.back(), v, &err);
                            take_error(err);
                            if (deliver == 2)
                                tiro_vm_run_ready(env.vm, Err());
                            w.active[0] = false;
                            w.done[0] = false;
                        }
                        MC_CHECK(w.attempts[1] == 0, "the importing module was initialized");
                        no_errors(w);
                    }
                    R.states(w.events);
                    R.traces(1);
                    R.evaluations(1);
                    R.nontrivial(1);
                });
            }

    const char* const inits[] = {"const w0 = std.dispatch();", "const w0 = std.launch(func() { k.see(0, 0, touch()); });", "const w0 = std.launch(func() { std.dispatch(); k.see(0, 0, touch()); });",
        "const w0 = [std.launch(func() { k.see(0, 0, touch()); }), std.launch(func() { std.dispatch(); k.see(0, 0, touch()); }), std.dispatch()];",
        "const w0 = std.catch_panic(func() { std.dispatch(); assert(false); });", "const w0 = { defer k.see(0, 0, touch()); std.dispatch(); 3; };"};
    for (size_t init = 0; init < std::size(inits); ++init)
        for (int ready = 0; ready < 3; ++ready)
            for (int importer = 0; importer < 2; ++importer)
                for (Kind kind : {Fine, Fails, FailsOnce}) {
                    if (!R.claim())
                        continue;
                    R.exec(fmt::format("{} {} with {} ready coroutines, {}", inits[init], kind_names[kind], ready, importer ? "imported" : "accessed"), [&] {
                        Env env(2, true);
                        World& w = env.w;
                        w.imports = {{}, {0}};
                        w.kind = {kind, Fine};
                        std::string src = module_source(0, {}, false, inits[init]);
                        env.vm.load_source("import std;\n" + src, "m0");
                        w.loaded[0] = true;
                        load(env, 1);
                        env.vm.load_source("import std; var n = 0; export func f() { n += 1; std.dispatch(); n += 1; std.dispatch(); n += 1; return n; } export func get() = n;", "other");
                        H f(env.vm), coro(env.vm);
                        MC_CHECK(env.vm.get_export("other", "f", f).ok(), "no function");
                        std::vector<H> coros;
                        for (int i = 0; i < ready; ++i) {
                            coros.emplace_back(env.vm);
                            tiro_make_coroutine(env.vm, f, nullptr, coros.back(), Err());
                            tiro_coroutine_start(env.vm, coros.back(), Err());
                        }
                        for (int round = 0; round < 3; ++round) {
                            w.allowed = {0, 1};
                            H r(env.vm);
                            const int attempts = w.attempts[0];
                            ApiError e = env.vm.get_export(importer ? "m1" : "m0", "touch", r);
                            no_errors(w);
                            MC_CHECK(w.attempts[0] <= attempts + 1, "initialized twice");
                            if (kind == Fine || (kind == FailsOnce && w.done[0]))
                                MC_CHECK(e.ok() && w.done[0] && w.attempts[0] == (kind == Fine ? 1 : 2), "{} {}", e.message, e.details);
                            else
                                MC_CHECK(!e.ok() && !w.done[0], "usable although the initializer failed");
                            MC_CHECK(!importer || w.done[1] == w.done[0], "importing module");
                            w.active[0] = true; // launched coroutines may run later
                            tiro_vm_run_ready(env.vm, Err());
                            w.active[0] = false;
                            no_errors(w);
                        }
                        for (auto& c : coros)
                            MC_CHECK(tiro_coroutine_completed(env.vm, c), "a coroutine was not completed");
                        Outcome o = env.vm.call("other", "get");
                        MC_CHECK(o.value == std::to_string(3 * ready), "coroutines: {}", o.str());
                        R.states(w.events);
                        R.traces(1);
                        R.evaluations(1);
                        R.nontrivial(1);
                    });
                }
}

// ---- Exports: exactly the exported members, the same for everyone ----

void exports() {
    // name, declaration, value seen through get_export
    struct Decl {
        const char *text, *name, *value;
    };
    const std::vector<Decl> decls = {{"const c = 1;", "c", "1"}, {"const v = [c_];", "v", "[7]"}, {"func f() = \"f\";", "f", nullptr}, {"const (t0, t1) = (\"t0\", \"t1\");", "t0", "\"t0\""}, {"const d1 = dep;", "d1", nullptr}, {"const d2 = dep_;", "d2", nullptr},
        {"const w = 2, x = 3;", "w", "2"}, {"const c_ = 7;", "c_", "7"}};
    const std::vector<std::pair<const char*, const char*>> second = {{"t1", "\"t1\""}, {"x", "3"}};
    for (uint32_t mask = 0; mask < (1u << decls.size()); ++mask) {
        if (!R.claim())
            continue;
        R.exec(fmt::format("exports {:08b}", mask), [&] {
            VmOptions o;
            Vm vm(o);
            std::string src = "import std; import dep; import dep as dep_;\n";
            auto exported = [&](size_t i) { return (mask >> i & 1) != 0; };
            // c_ is used by v and must be declared first
            std::vector<size_t> order = {7, 0, 1, 2, 3, 4, 5, 6};
            for (size_t i : order)
                src += fmt::format("{}{}\n", exported(i) ? "export " : "", decls[i].text);
            src += "func use() = [c, v, f, t0, t1, d1, d2, w, x, c_];\nexport func all() = use();\nexport func change() { v.append(8); }\n";
            vm.load_source("export const id = #dep; export const mod = \"dep\"; const hidden = 1;", "dep");
            vm.load_source(src, "a");
            std::string user = "import std; import a; import a as other; import dep;\n"
                               "export func same() = a == other;\nexport func dep_same(x) = x == dep;\n";
            std::vector<std::string> names;
            for (auto& d : decls)
                names.push_back(d.name);
            for (auto& [n, v] : second)
                names.push_back(n);
            for (const char* n : {"use", "std", "all", "change", "t", "nothing", "id", "dep", "dep_"})
                names.push_back(n);
            for (auto& n : names)
                user += fmt::format("export func get_{}() = a.{};\nexport func opt_{}() = other?.{};\nexport func same_{}() = a.{} == other.{};\n", n, n, n, n, n, n, n);
            vm.load_source(user, "user");
            for (int round = 0; round < 2; ++round) {
                for (auto& n : names) {
                    std::string want; // empty: not exported
                    bool is_exported = false;
                    for (size_t i = 0; i < decls.size(); ++i)
                        if (n == decls[i].name && exported(i))
                            is_exported = true, want = decls[i].value ? decls[i].value : "";
                    if (n == "t1" && exported(3))
                        is_exported = true, want = "\"t1\"";
                    if (n == "x" && exported(6))
                        is_exported = true, want = "3";
                    if (n == "all" || n == "change")
                        is_exported = true;
                    if (round && n == "v")
                        want = want.empty() ? "" : "[7,8]";
                    H r(vm);
                    ApiError e = vm.get_export("a", n, r);
                    MC_CHECK(e.code == (is_exported ? TIRO_OK : TIRO_ERROR_EXPORT_NOT_FOUND), "get_export({}): {} {}", n, int(e.code), e.message);
                    if (!want.empty())
                        MC_CHECK(vm.dump(r) == want, "{} is {}, expected {}", n, vm.dump(r), want);
                    for (const char* how : {"get_", "opt_", "same_"}) {
                        Outcome out = vm.call("user", how + n);
                        MC_CHECK(out.ok == is_exported, "{}{}: {}", how, n, out.str());
                        if (is_exported && how[0] == 's')
                            MC_CHECK(out.value == "true", "{} differs between importers", n);
                        else if (!want.empty())
                            MC_CHECK(out.value == want, "{} is {} in another module, expected {}", n, out.str(), want);
                    }
                    if (is_exported && (n == "d1" || n == "d2")) {
                        H args(vm);
                        tiro_make_tuple(vm, 1, args, Err());
                        tiro_tuple_set(vm, args, 0, r, Err());
                        MC_CHECK(vm.call("user", "dep_same", args).value == "true", "another instance of the import");
                    }
                    R.transitions(4);
                }
                MC_CHECK(vm.call("user", "same").value == "true", "two instances of the module");
                MC_CHECK(vm.call("a", "change").ok, "change");
            }
            R.states(names.size());
            R.traces(1);
            R.evaluations(1);
            R.nontrivial(mask ? 1 : 0);
        });
    }
}

// ---- Many modules ----

void sizes() {
    std::vector<int> depths;
    for (int i = 1; i <= 40; ++i)
        depths.push_back(i);
    for (int i : {64, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 1500, 2000, 2040, 2046, 2047, 2048, 2049, 2050, 2100, 3000})
        depths.push_back(i);
    for (int n : depths)
        for (int shape = 0; shape < 5; ++shape) // chain, chain ending in a missing module, cycle, everything imported by one, ladder
            for (int first = 0; first < 3; ++first) {
                if (!R.claim())
                    continue;
                const char* const shapes[] = {"chain", "chain to a missing module", "cycle", "wide", "ladder"};
                const char* const orders[] = {"importing modules first", "imported modules first", "in the middle first"};
                R.exec(fmt::format("{} of {}, {}", shapes[shape], n, orders[first]), [&] {
                    const int total = shape == 4 ? 2 * n : n;
                    Env env(size_t(total) + 1);
                    World& w = env.w;
                    for (int i = 0; i < total; ++i) {
                        auto& im = w.imports[size_t(i)];
                        if (shape < 3) {
                            if (i + 1 < n || shape == 1)
                                im = {i + 1};
                            else if (shape == 2)
                                im = {0};
                        } else if (shape == 3) {
                            if (i == 0)
                                for (int j = 1; j < n; ++j)
                                    im.push_back(j);
                        } else if (i / 2 + 1 < n) {
                            im = {2 * (i / 2 + 1), 2 * (i / 2 + 1) + 1};
                        }
                    }
                    for (int i = 0; i < total; ++i) {
                        const auto c = compile(module_source(i, w.imports[size_t(i)], false), fmt::format("m{}", i));
                        MC_CHECK(c.error.ok(), "{}", c.describe());
                        MC_CHECK(env.vm.load(c.module).ok(), "could not be loaded");
                        w.loaded[size_t(i)] = true;
                    }
                    std::vector<int> order;
                    if (first == 0)
                        order = {0, total / 2, total - 1};
                    else if (first == 1)
                        order = {total - 1, total / 2, 0};
                    else
                        order = {total / 2, 0, total - 1, 0};
                    for (int i = 0; i < total; ++i)
                        w.allowed.insert(i);
                    const bool broken = shape == 1 || shape == 2;
                    for (int i : order) {
                        H r(env.vm);
                        ApiError e = env.vm.get_export(fmt::format("m{}", i), "touch", r);
                        no_errors(w);
                        int longest = shape == 3 ? 2 : (shape == 4 ? total / 2 - i / 2 : total - i);
                        if (broken) {
                            MC_CHECK(!e.ok(), "m{} is usable", i);
                            MC_CHECK(shape == 2 || longest > 1000 || e.code == TIRO_ERROR_MODULE_NOT_FOUND, "error {}", int(e.code));
                        } else {
                            // Chains of more than 1000 modules may be refused (consistently).
                            MC_CHECK(e.ok() || longest > 1000, "m{}: {} {}", i, e.message, e.details);
                            MC_CHECK(e.ok() == w.done[size_t(i)], "m{} is{} initialized", i, w.done[size_t(i)] ? "" : " not");
                            if (e.ok())
                                use(env, i);
                        }
                    }
                    for (int i = 0; i < total; ++i) {
                        MC_CHECK(w.attempts[size_t(i)] <= 1, "m{} was initialized {} times", i, w.attempts[size_t(i)]);
                        MC_CHECK(!broken || !w.attempts[size_t(i)], "m{} was initialized", i);
                    }
                    // Long chains can be initialized step by step.
                    if (!broken) {
                        for (int i = total - 1; i >= 0; --i) {
                            H r(env.vm);
                            ApiError e = env.vm.get_export(fmt::format("m{}", i), "touch", r);
                            MC_CHECK(e.ok(), "m{}: {} {}", i, e.message, e.details);
                            MC_CHECK(w.attempts[size_t(i)] == 1, "initialized {} times", w.attempts[size_t(i)]);
                        }
                        no_errors(w);
                    }
                    R.states(uint64_t(total));
                    R.transitions(order.size());
                    R.traces(1);
                    R.evaluations(1);
                    R.nontrivial(1);
                });
            }
}

// ---- Names, and modules of all origins that compete for them ----

void names() {
    const std::vector<std::string> list = {"a", "a.b", "a.b.c", "b", "b.a", "ab", "a.a", "a.a.a", "std", "std.a", "A", "_", "a1", "\xc3\xa4", "e\xcc\x81", "\xc3\xa9"};
    for (size_t i = 0; i < list.size(); ++i)
        for (size_t j = 0; j < list.size(); ++j) {
            if (i == j)
                continue;
            if (!R.claim())
                continue;
            R.exec(fmt::format("modules {} and {}", list[i], list[j]), [&] {
                VmOptions o;
                o.load_std = false;
                Vm vm(o);
                auto& a = list[i];
                auto& b = list[j];
                // only a exists: b must not be found
                vm.load_source(fmt::format("import {} as x; export func f() = x.value;", a), "uses_a");
                vm.load_source(fmt::format("import {} as x; export func f() = x.value;", b), "uses_b");
                vm.load_source(fmt::format("import {} as x; import {} as y; export func f() = (x.value, y.value);", a, b), "uses_both");
                vm.load_source("export const value = \"A\";", a);
                H r(vm);
                MC_CHECK(vm.get_export("uses_both", "f", r).code == TIRO_ERROR_MODULE_NOT_FOUND, "found {}", b);
                MC_CHECK(vm.get_export("uses_b", "f", r).code == TIRO_ERROR_MODULE_NOT_FOUND, "found {}", b);
                MC_CHECK(vm.get_export(b, "value", r).code == TIRO_ERROR_MODULE_NOT_FOUND, "found {}", b);
                MC_CHECK(vm.get_export(a, "value", r).ok() && vm.dump(r) == "\"A\"", "value of {}", a);
                MC_CHECK(vm.call("uses_a", "f").value == "\"A\"", "value of {}", a);
                vm.load_source("export const value = \"B\";", b);
                MC_CHECK(vm.call("uses_b", "f").value == "\"B\"", "value of {}", b);
                MC_CHECK(vm.call("uses_both", "f").value == "(\"A\",\"B\")", "values");
                MC_CHECK(vm.get_export(b, "value", r).ok() && vm.dump(r) == "\"B\"", "value of {}", b);
                R.states(4);
                R.transitions(8);
                R.traces(1);
                R.evaluations(1);
                R.nontrivial(1);
            });
        }

    enum Step { Compiled1, Compiled2, CompiledBad, Host1, Host2, HostOther, Std, Access, AccessUser, AccessStd, Steps };
    const char* const step_names[] = {"load program 1", "load program 2", "load failing program", "load host module 1", "load host module 2", "load a value that is no module", "load std", "access", "access importing module", "access std"};
    const size_t len = R.thorough ? 5 : 4;
    for (bool host_std : {false, true})
        for (size_t l = 1; l <= len; ++l)
            all_sequences(Steps, l, [&](const auto& seq) {
                if (!R.claim())
                    return;
                std::string key = host_std ? "module std:" : "module x:";
                for (auto s : seq)
                    key += fmt::format(" {},", step_names[s]);
                R.exec(key, [&] {
                    const std::string name = host_std ? "std" : "x";
                    static std::map<std::string, CompileResult> cache;
                    auto program = [&](const std::string& text, const std::string& module) {
                        auto it = cache.find(module + text);
                        if (it == cache.end())
                            it = cache.emplace(module + text, compile(text, module)).first;
                        return it->second.module;
                    };
                    auto p1 = program("export const value = \"program 1\";", name);
                    auto p2 = program("export const value = \"program 2\";", name);
                    auto bad = program("export const value = \"bad\"; const y = { assert(false); 1; };", name);
                    auto user = program(fmt::format("import {} as m; export func f() = m.value;", name), "user");
                    VmOptions o;
                    o.load_std = false;
                    Vm vm(o);
                    MC_CHECK(vm.load(user).ok(), "user");
                    std::string owner, std_owner;
                    auto& std_name = host_std ? owner : std_owner;
                    for (auto s : seq) {
                        R.transitions(1);
                        auto expect = [&](ApiError e, std::string& who, const char* value) {
                            MC_CHECK(e.code == (who.empty() ? TIRO_OK : TIRO_ERROR_MODULE_EXISTS), "{}: {} {}", step_names[s], int(e.code), e.message);
                            if (who.empty())
                                who = value;
                        };
                        auto host = [&](const char* value) {
                            H v = make_str(vm, value), mod(vm);
                            tiro_module_member_t m[1] = {{S("value"), v}};
                            tiro_make_module(vm, S(name), m, 1, mod, Err());
                            tiro_error_t e = nullptr;
                            tiro_vm_load_module(vm, mod, &e);
                            expect(take_error(e), owner, value);
                        };
                        auto check = [&](ApiError e, std::string dump) {
                            if (owner.empty())
                                MC_CHECK(e.code == TIRO_ERROR_MODULE_NOT_FOUND, "{}: {}", step_names[s], int(e.code));
                            else if (owner == "bad")
                                MC_CHECK(!e.ok(), "usable although its initializer failed");
                            else
                                MC_CHECK(e.ok() && dump == "\"" + owner + "\"", "{}: {} {}, expected {}", step_names[s], e.message, dump, owner);
                        };
                        H r(vm);
                        switch (s) {
                        case Compiled1: expect(vm.load(p1), owner, "program 1"); break;
                        case Compiled2: expect(vm.load(p2), owner, "program 2"); break;
                        case CompiledBad: expect(vm.load(bad), owner, "bad"); break;
                        case Host1: host("host 1"); break;
                        case Host2: host("host 2"); break;
                        case HostOther: {
                            H v = make_int(vm, 1);
                            tiro_error_t e = nullptr;
                            tiro_vm_load_module(vm, v, &e);
                            MC_CHECK(take_error(e).code == TIRO_ERROR_BAD_TYPE, "an integer was loaded");
                            break;
                        }
                        case Std: {
                            tiro_error_t e = nullptr;
                            tiro_vm_load_std(vm, &e);
                            expect(take_error(e), std_name, "std");
                            break;
                        }
                        case Access: {
                            if (owner == "std")
                                break;
                            ApiError e = vm.get_export(name, "value", r);
                            check(e, e.ok() ? vm.dump(r) : "");
                            break;
                        }
                        case AccessUser: {
                            if (owner == "std")
                                break;
                            ApiError e = vm.get_export("user", "f", r);
                            check(e, e.ok() ? vm.call("user", "f").value : "");
                            break;
                        }
                        case AccessStd: {
                            ApiError e = vm.get_export("std", "print", r);
                            if (std_name == "std")
                                MC_CHECK(e.ok() && tiro_value_kind(vm, r) == TIRO_KIND_FUNCTION, "std.print");
                            else
                                MC_CHECK(!e.ok(), "std.print exists");
                            break;
                        }
                        }
                    }
                    R.states(seq.size());
                    R.traces(1);
                    R.evaluations(1);
                    R.nontrivial(owner.empty() ? 0 : 1);
                    R.outcome(owner + std_owner);
                });
            });
}

} // namespace

void mc::enumerate() {
    const bool t = R.thorough;
    nested();
    waiting();
    exports();
    names();
    graphs(1, true, kind_lists(1, {Fine, Fails, FailsOnce, Waits, Plain}, 1), event_lists(1, 6), false);
    graphs(2, true, kind_lists(2, {Fine, Fails, FailsOnce, Waits, Plain}, 2), event_lists(2, t ? 7 : 5), false);
    graphs(3, false, kind_lists(3, {Fine, Fails, FailsOnce, Plain}, t ? 2 : 1), event_lists(3, 5), false);
    graphs(3, true, kind_lists(3, {Fine, Fails}, t ? 1 : 0), event_lists(3, 5), false);
    std::vector<std::vector<int>> pairs;
    for (int i = 4; i < 8; ++i)
        for (int j = 4; j < 8; ++j)
            pairs.push_back({i, j});
    graphs(4, false, kind_lists(4, {Fine, Fails, FailsOnce, Plain}, t ? 2 : 1), pairs, true, !t);
    graphs(4, false, kind_lists(4, {Fine}, 0), pairs, true);
    sizes();
}
