// C26: the stack trace of a panic names the functions that were active, and capturing traces changes nothing else.
#include <optional>

#include "common/gc.hpp"
#include "common/host.hpp"
#include "common/items.hpp"

using namespace mc;

const char* const mc::check_id = "C26";

namespace {

using Frames = std::vector<std::string>; // innermost first, "?" for functions without a name, "!" for catch_panic

// ---- How a function calls the next one ----

struct Level {
    const char* name;
    const char* decls; // `@` is the level, `NEXT` the function of the next level
    Frames frames;     // pushed (outermost first) before the next function is entered
    enum { Normal, Unwind, Launch } kind = Normal;
};

const std::vector<Level> levels = {
    {"plain", "func f@(k) { return NEXT(k); }", {"f@"}},
    {"operands", "func f@(k) { return 1 + [k, (k, NEXT(k))][1][1]; }", {"f@"}},
    {"member", "func f@(k) { const r = (other: NEXT); return r.other(k); }", {"f@"}},
    {"lambda", "func f@(k) { const l = func(x) { const y = k + x - x; return NEXT(y); }; return l(1); }", {"f@", "?"}},
    {"inner", "func f@(k) { var z = k; func inner@(x, y) { z = x; return NEXT(z); } return inner@(z, 2); }", {"f@", "inner@"}},
    {"exported value", "const v@ = func(k) = NEXT(k); func f@(k) = v@(k);", {"f@", "?"}},
    {"catch", "func f@(k) { const r = std.catch_panic(func() = NEXT(k)); std.panic(r.error()); }", {"f@", "!", "?"}},
    {"catch with arguments", "func f@(k) { const r = std.catch_panic(func() = NEXT(k), k, 2); std.panic(r.error()); }", {"f@", "!", "?"}},
    {"deferred", "func f@(k) { defer NEXT(k); return k; }", {"f@"}},
    {"unwinding", "func f@(k) { defer { NEXT(k); }; std.panic(\"first\"); }", {"f@"}, Level::Unwind},
    {"native", "func f@(k) { return g.call(func(x, y) = NEXT(x), k); }", {"f@", "call", "?"}},
    {"launched", "func f@(k) { std.launch(func(x) { const r = std.catch_panic(func() = NEXT(x)); if r.is_error() { saved.append(r.error()); } }, k); return k; }", {"?", "!", "?"}, Level::Launch},
    {"recursion", "func f@(k) = h@(k, 2); func h@(k, n) { if n == 0 { return NEXT(k); } const r = h@(k, n - 1); return r; }", {"f@", "h@", "h@", "h@"}},
    {"loop", "func f@(k) { var r = null; for i in [1, 2] { for var j = 0; j < 2; j += 1 { r = NEXT(k); } } return r; }", {"f@"}},
};

// ---- How the last function panics ----

struct Leaf {
    const char* code;
    Frames frames = {}; // in addition to the function itself, outermost first
};

const std::vector<Leaf> leaves = {
    {"std.panic(\"x\");"},
    {"std.panic(1);"},
    {"std.panic(k * 1.5);"},
    {"assert(k < 0, \"m $k\");"},
    {"return 1 / (k - k);"},
    {"return [1][5];"},
    {"const a = [1]; a[5] = 2;"},
    {"return null.foo;"},
    {"const r = (foo: 1); r.bar = 1;"},
    {"return k();"},
    {"return g0();"},
    {"return std.to_utf8(1);", {"to_utf8"}},
    {"return std.to_utf8();"},
    {"return \"abc\".slice(1, null);", {"slice"}},
    {"const f = \"abc\".slice; return f(1, null);", {"slice"}},
    {"return [1].foo(1);"},
    {"for x in 3 { }"},
    {"return std.panic();"},
    {"return g.call(g2, 2);", {"call", "g2"}},
    {"return g.call(g0, 2);", {"call"}},
    {"return g.call(std.panic, 2);", {"call"}},
    {"return p.sync(1);", {"sync"}},
    {"return p.now(1);", {"now"}},
    {"return p.later(1);", {"later"}},
    {"return p.resumable(1);", {"resumable"}},
    {"return std.INFINITY & 3;"},
    {"{ defer std.panic(\"y\"); std.panic(\"z\"); }"},
    {"defer std.panic(\"y\"); defer g2(1, 2); return [1][2];"},
    {"const f = func(x) = std.panic(x); return f(k);", {"?"}},
    {"const f = func(x) { const y = [k, x]; return y[x + 5]; }; return f(0);", {"?"}},
    {"g.later(1); std.panic(\"after waiting\");"},
    {"p.ok(1); std.catch_panic(func() = g2(1, 2)); g0(1); std.panic(\"after calls\");"},
    {"return std.catch_panic();"},
    {"const (a, b) = 3;"},
    {"return \"${ g2(1, 2) }\";", {"g2"}},
    {"return g3(k, g2(1, 2));", {"g2"}},
    {"return (k < 0 || g2(1, 2));", {"g2"}},
};

// ---- Native functions that panic ----

std::vector<std::pair<tiro_vm_t, tiro_async_token_t>> late;

H panic_module(tiro_vm_t vm) {
    H result(vm);
    std::vector<H> names, fns;
    std::vector<tiro_module_member_t> members;
    auto add = [&](const char* name, auto&& make) {
        H n = make_str(vm, name), f(vm);
        make(n, f);
        members.push_back({S(name), f});
        names.push_back(std::move(n));
        fns.push_back(std::move(f));
    };
    add("sync", [&](H& n, H& r) {
        tiro_make_sync_function(vm, n, [](tiro_vm_t, tiro_sync_frame_t f) { tiro_sync_frame_panic_msg(f, S("sync"), Err()); }, 1, nullptr, r, Err());
    });
    add("ok", [&](H& n, H& r) { tiro_make_sync_function(vm, n, [](tiro_vm_t, tiro_sync_frame_t) {}, 1, nullptr, r, Err()); });
    add("now", [&](H& n, H& r) {
        tiro_make_async_function(vm, n, [](tiro_vm_t, tiro_async_frame_t f) { tiro_async_frame_panic_msg(f, S("now"), Err()); }, 1, nullptr, r, Err());
    });
    add("later", [&](H& n, H& r) {
        tiro_make_async_function(
            vm, n,
            [](tiro_vm_t vm, tiro_async_frame_t f) {
                late.push_back({vm, tiro_async_frame_token(f, Err())});
                tiro_async_frame_yield(f, Err());
            },
            1, nullptr, r, Err());
    });
    add("resumable", [&](H& n, H& r) {
        tiro_resumable_frame_desc_t d{};
        d.name = n;
        d.arg_count = 1;
        d.local_count = 3;
        d.func = [](tiro_vm_t, tiro_resumable_frame_t f) {
            if (tiro_resumable_frame_state(f) == TIRO_RESUMABLE_STATE_START)
                tiro_resumable_frame_panic_msg(f, S("resumable"), Err());
        };
        tiro_make_resumable_function(vm, &d, r, Err());
    });
    tiro_make_module(vm, S("p"), members.data(), members.size(), result, Err());
    return result;
}

// ---- Model ----

struct Panic {
    Frames frames; // innermost first
    bool first = false; // the panic of an unwinding level
    bool maybe = false; // raised by the host while no coroutine was running: there may be no trace
};

std::string with_level(std::string s, size_t i) {
    for (size_t p; (p = s.find('@')) != s.npos;)
        s.replace(p, 1, std::to_string(i));
    return s;
}

struct Model {
    const std::vector<int>& chain;
    const Leaf& leaf;
    std::vector<Panic> saved; // by launched coroutines, in order

    Panic panic(Frames stack, bool first) { return {Frames(stack.rbegin(), stack.rend()), first, false}; }

    std::optional<Panic> run(size_t i, Frames stack) {
        if (i == chain.size()) {
            stack.push_back("leaf");
            for (auto& f : leaf.frames)
                stack.push_back(f);
            auto p = panic(stack, false);
            p.maybe = std::string_view(leaf.code) == "return p.later(1);";
            return p;
        }
        const Level& l = levels[size_t(chain[i])];
        Frames inner = l.kind == Level::Launch ? Frames() : stack;
        for (auto& f : l.frames)
            inner.push_back(with_level(f, i));
        if (l.kind == Level::Launch) {
            launched.push_back({i + 1, inner});
            return {};
        }
        auto r = run(i + 1, inner);
        if (l.kind == Level::Unwind)
            return panic(inner, true);
        if (!r && std::string_view(l.name).substr(0, 5) == "catch")
            return {}; // handled below: chains in which nothing is caught are skipped
        return r;
    }
    std::vector<std::pair<size_t, Frames>> launched;

    std::optional<Panic> all() {
        auto r = run(0, {"main"});
        for (size_t n = 0; n < launched.size(); ++n) {
            auto [i, stack] = launched[n];
            if (auto p = run(i, stack))
                saved.push_back(*p);
        }
        return r;
    }
};

std::string source(const std::vector<int>& chain) {
    std::string s = "import std; import h; import g; import p;\nconst saved = [];\n"
                    "func g0(a) { return a; }\nfunc g2(a, b) { const c = [a]; return c[b]; }\nfunc g3(a, b) = a;\n";
    for (size_t i = 0; i < chain.size(); ++i) {
        std::string l = with_level(levels[size_t(chain[i])].decls, i);
        std::string next = i + 1 < chain.size() ? fmt::format("f{}", i + 1) : "leaf";
        for (size_t p; (p = l.find("NEXT")) != l.npos;)
            l.replace(p, 4, next);
        s += l + "\n";
    }
    s += "func leaf(k) {\n";
    for (size_t k = 0; k < leaves.size(); ++k)
        s += fmt::format("    if k == {} {{ {} }}\n", k, leaves[k].code);
    s += "}\n";
    s += fmt::format("export func main(k) {{ {}(k); }}\n", chain.empty() ? "leaf" : "f0");
    s += "export func traces() { const r = saved; const t = []; for e in r { t.append(e.trace()); } return (r, t); }\n"
         "export func trace_of(e) = e.trace();\nexport func reset() { saved.clear(); }\n";
    return s;
}

// ---- Execution ----

class TVm : public XVm {
public:
    explicit TVm(bool traces)
        : XVm(options(traces)) {
        H m = panic_module(get());
        tiro_vm_load_module(get(), m, Err());
    }
    ~TVm() { late.clear(); }
    static VmOptions options(bool traces) {
        VmOptions o;
        o.stack_trace = traces;
        return o;
    }
};

std::string text(tiro_vm_t vm, tiro_handle_t h) {
    if (tiro_value_kind(vm, h) == TIRO_KIND_NULL)
        return "null";
    tiro_string_t s{};
    tiro_string_value(vm, h, &s, Err());
    return std::string(V(s));
}

struct Observed {
    std::string message, trace;
};

Observed observe(XVm& vm, tiro_handle_t ex) {
    tiro_vm_t v = vm.get();
    Observed o;
    MC_CHECK(tiro_value_kind(v, ex) == TIRO_KIND_EXCEPTION, "not an exception: {}", vm.dump(ex));
    H h(v);
    tiro_exception_message(v, ex, h, Err());
    o.message = text(v, h);
    tiro_exception_trace(v, ex, h, Err());
    o.trace = text(v, h);
    return o;
}

struct Run {
    std::optional<Observed> error; // of the coroutine
    std::vector<Observed> saved;
};

Run execute(TVm& vm, size_t k) {
    tiro_vm_t v = vm.get();
    Run r;
    H fn(v), coro(v), args(v), n = make_int(v, int64_t(k)), res(v), e(v);
    vm.call("m", "reset");
    auto err = vm.get_export("m", "main", fn);
    MC_CHECK(err.ok(), "main: {}", err.message);
    tiro_make_tuple(v, 1, args, Err());
    tiro_tuple_set(v, args, 0, n, Err());
    tiro_make_coroutine(v, fn, args, coro, Err());
    tiro_coroutine_start(v, coro, Err());
    while (true) {
        if (tiro_vm_has_ready(v)) {
            tiro_vm_run_ready(v, Err());
        } else if (!late.empty()) {
            auto token = late.front().second;
            late.erase(late.begin());
            tiro_async_token_panic_msg(token, S("later"), Err());
            tiro_async_token_free(token);
        } else if (vm.pending()) {
            MC_CHECK(vm.deliver().ok(), "result not delivered");
        } else {
            break;
        }
    }
    MC_CHECK(tiro_coroutine_completed(v, coro), "not completed");
    tiro_coroutine_result(v, coro, res, Err());
    if (tiro_result_is_error(v, res)) {
        tiro_result_error(v, res, e, Err());
        r.error = observe(vm, e);
        // The method of the exception shows the same
        H t(v);
        tiro_make_tuple(v, 1, t, Err());
        tiro_tuple_set(v, t, 0, e, Err());
        H expected(v);
        tiro_exception_trace(v, e, expected, Err());
        auto o = vm.call("m", "trace_of", t);
        MC_CHECK(o.ok && o.value == vm.dump(expected), "trace(): {}", o.str());
    }
    H get(v), coro2(v), saved(v), one(v);
    err = vm.get_export("m", "traces", get);
    tiro_make_coroutine(v, get, nullptr, coro2, Err());
    tiro_coroutine_start(v, coro2, Err());
    while (tiro_vm_has_ready(v))
        tiro_vm_run_ready(v, Err());
    tiro_coroutine_result(v, coro2, res, Err());
    tiro_result_value(v, res, res, Err());
    tiro_tuple_get(v, res, 0, saved, Err());
    H traces(v);
    tiro_tuple_get(v, res, 1, traces, Err());
    for (size_t i = 0; i < tiro_array_size(v, saved); ++i) {
        tiro_array_get(v, saved, i, one, Err());
        r.saved.push_back(observe(vm, one));
        tiro_array_get(v, traces, i, one, Err());
        MC_CHECK(text(v, one) == r.saved.back().trace, "trace(): {}", text(v, one));
    }
    return r;
}

void compare(const Panic& p, const Observed& o, bool traces, const char* what) {
    MC_CHECK((o.message == "first") == p.first, "{}: panic with message {}", what, quote(o.message));
    if (!traces) {
        MC_CHECK(o.trace == "null", "{}: trace captured although disabled: {}", what, quote(o.trace));
        return;
    }
    if (p.maybe && o.trace == "null")
        return;
    MC_CHECK(o.trace != "null", "{}: no trace", what);
    Frames actual;
    size_t at = o.trace.find('\n');
    while (at != std::string::npos) {
        size_t end = o.trace.find('\n', at + 1);
        std::string line = o.trace.substr(at + 1, end == std::string::npos ? end : end - at - 1);
        while (!line.empty() && (line[0] == ' ' || line[0] == '-'))
            line.erase(0, 1);
        actual.push_back(line);
        at = end;
    }
    bool same = actual.size() == p.frames.size();
    for (size_t i = 0; same && i < actual.size(); ++i) {
        const bool is_catch = actual[i].find("catch") != std::string::npos;
        if (p.frames[i] == "!")
            same = is_catch;
        else if (p.frames[i] == "?")
            same = !is_catch && !actual[i].empty() && !isalnum(static_cast<unsigned char>(actual[i][0]));
        else
            same = actual[i] == p.frames[i];
    }
    MC_CHECK(same, "{}: expected the frames {}, but the trace is\n{}", what, fmt::join(p.frames, " < "), o.trace);
}

void chains() {
    const size_t L = levels.size();
    auto one = [&](const std::vector<int>& chain) {
        if (!R.claim())
            return;
        std::string key = "calls:";
        for (int l : chain)
            key += fmt::format(" {}", levels[size_t(l)].name);
        R.exec(key, [&] {
            const std::string src = source(chain);
            if (R.replaying())
                R.note(src);
            TVm on(true), off(false);
            on.load_source(src, "m");
            off.load_source(src, "m");
            for (size_t k = 0; k < leaves.size(); ++k) {
                // catch followed by a launch: nothing to catch, r.error() panics; not modelled
                bool launched = false, skip = false;
                for (size_t i = chain.size(); i-- > 0;) {
                    launched |= levels[size_t(chain[i])].kind == Level::Launch;
                    skip |= launched && std::string_view(levels[size_t(chain[i])].name).substr(0, 5) == "catch";
                    skip |= launched && std::string_view(levels[size_t(chain[i])].name) == "operands";
                    skip |= launched && std::string_view(levels[size_t(chain[i])].name) == "loop";
                }
                if (skip)
                    continue;
                Model m{chain, leaves[k], {}, {}};
                auto expected = m.all();
                if (R.want_sample())
                    R.sample(fmt::format("{}, panic by {}: frames {}", key, leaves[k].code, expected ? fmt::format("{}", fmt::join(expected->frames, " < ")) : "of the launched coroutine"));
                std::string messages[2];
                auto check = [&](TVm& vm, bool traces) {
                    Run r = execute(vm, k);
                    R.transitions(1 + r.saved.size());
                    MC_CHECK(bool(r.error) == bool(expected), "{}: the coroutine {}", leaves[k].code, r.error ? "panicked" : "did not panic");
                    if (expected) {
                        compare(*expected, *r.error, traces, leaves[k].code);
                        messages[traces] += r.error->message;
                        R.outcome(r.error->trace);
                    }
                    MC_CHECK(r.saved.size() == m.saved.size(), "{}: {} panics in launched coroutines", leaves[k].code, r.saved.size());
                    for (size_t i = 0; i < r.saved.size(); ++i) {
                        compare(m.saved[i], r.saved[i], traces, leaves[k].code);
                        messages[traces] += "|" + r.saved[i].message;
                        R.outcome(r.saved[i].trace);
                    }
                };
                check(off, false);
                check(on, true);
                MC_CHECK(messages[0] == messages[1], "messages differ: {} {}", quote(messages[0]), quote(messages[1]));
                R.states(2);
                if (chain.size() < 2) {
                    gc::Guard guard;
                    gc::always();
                    check(on, true);
                }
            }
            R.traces();
        });
    };
    for (size_t len = 0; len <= (R.thorough ? 5u : 4u); ++len)
        all_sequences(L, len, one);
    // Long chains of one kind
    for (int a = 0; a < int(L); ++a)
        if (levels[size_t(a)].kind == Level::Normal && std::string_view(levels[size_t(a)].name) != "loop" && std::string_view(levels[size_t(a)].name) != "operands")
            one(std::vector<int>(R.thorough ? 300 : 60, a));
}

// ---- Everything else is unchanged ----

void unchanged() {
    auto both = [&](size_t a, size_t b) {
        if (!R.claim())
            return;
        R.exec(fmt::format("programs {} + {}", items[a].name, items[b].name), [&] {
            std::string src, seen[2];
            src = "import std;\nimport h;\n";
            auto add = [&](size_t i, const char* suffix) {
                for (std::string d : items[i].decls) {
                    for (size_t p; (p = d.find('@')) != d.npos;)
                        d.replace(p, 1, suffix);
                    src += d + "\n";
                }
            };
            add(a, "1");
            add(b, "2");
            for (int traces = 0; traces < 2; ++traces) {
                VmOptions o;
                o.stack_trace = traces;
                Vm vm(o);
                vm.load_source(src, "m");
                for (const char* f : {"main1", "main2", "main1"})
                    seen[traces] += fmt::format("{} [{}]\n", vm.call("m", f).str(), vm.take_log());
                seen[traces] += vm.out;
                R.transitions(3);
            }
            MC_CHECK(seen[0] == seen[1], "without traces: {}\nwith traces: {}\nof\n{}", seen[0], seen[1], src);
            R.states(2);
        });
    };
    for (size_t a = 0; a < items.size(); ++a)
        for (size_t b = 0; b < items.size(); ++b)
            both(a, b);
}

} // namespace

void mc::enumerate() {
    chains();
    unchanged();
}
