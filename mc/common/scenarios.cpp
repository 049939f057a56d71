#include "common/scenarios.hpp"

#include <cstring>

namespace mc {

const char* const lib_source = R"(
import std; import h; import g;

var sink = null;

// Allocates garbage of all sizes.
export func churn() {
    const a = [];
    for var i = 0; i < 5; i += 1 { a.append("c$i"); }
    const m = map{"x": a, "y": (1.5, a)};
    m["z"] = func() { return a; };
    sink = "s${a.size()}";
    const r = (p: m, q: g.bytes(40, 1));
    return "churned";
}

export func str(n) { return "s$n"; }
export func clo(n) { const s = "c$n"; const t = ["t$n"]; return func() { return (s, t[0]); }; }
export func clo2(n) { const s = "c$n"; return func() { const u = "u$s"; return func() { return (s, u); }; }; }
export func builder(n) { const b = std.new_string_builder(); b.append("b", n, "x"); return b; }
export func buf(n) { const b = std.new_buffer(5); b[0] = n; b[4] = 255; return b; }
export func exc(n) { return std.catch_panic(func() { std.panic("p$n"); }).error(); }
export func coro(n) { const s = "co$n"; return std.launch(func() { return [s]; }); }
export func token(n) { return std.coroutine_token(); }
export func mp(n) { const m = map{}; for var i = 0; i < 9; i += 1 { m["k$i"] = "v$n$i"; } m.remove("k3"); return m; }
export func st(n) { const s = set{}; for var i = 0; i < 9; i += 1 { s.insert("k$n$i"); } s.remove("k${n}3"); return s; }
export func arr(n) { const a = []; for var i = 0; i < 9; i += 1 { a.append("a$n$i"); } return a; }
export func bigarr(n) { const a = g.array(2500); a.append("a$n"); a.append(["b$n"]); return a; }
export func bound(n) { const a = ["bm$n"]; return a.size; }
export func bigstr(n) { const b = std.new_string_builder(); b.append("$n"); for var i = 0; i < 15; i += 1 { b.append(b.to_string()); } return b.to_string(); }
export func deep(n) { var r = "d$n"; for var i = 0; i < 4; i += 1 { r = [(r, map{i: r})]; } return r; }

func seq(v) { const r = []; for x in v { r.append(R(x)); } return r; }

// What can be observed of a value.
export func R(v) {
    const t = std.type_of(v);
    if (t == std.Map) {
        const r = ["map", v.size()];
        for (k, x) in v { r.append((R(k), R(x))); }
        for (k, x) in v { if (!v.contains(k)) { r.append("lost"); } }
        return r;
    }
    if (t == std.Set) {
        const r = ["set", v.size()];
        for x in v { r.append(R(x)); if (!v.contains(x)) { r.append("lost"); } }
        return r;
    }
    if (t == std.MapKeyView || t == std.MapValueView) { return ["view", seq(v)]; }
    if (t == std.Array || t == std.Tuple) {
        if (v.size() > 1000) { return (v.size(), R(v[0]), R(v[v.size() - 1])); }
        return seq(v);
    }
    if (t == std.Function) { return ["function", R(v())]; }
    if (t == std.StringSlice) { return ["slice", v.to_string()]; }
    if (t == std.StringBuilder) { return ["builder", v.to_string()]; }
    if (t == std.String) { if (v.size() > 1000) { return (v.size(), v.slice_last(5).to_string()); } return v; }
    if (t == std.Buffer) { if (v.size() > 1000) { return (v.size(), v[0], v[v.size() - 1]); } return v; }
    if (t == std.Exception) { return ["exception", v.message(), v.trace()]; }
    if (t == std.Coroutine) { return ["coroutine", v.name()]; }
    if (t == std.CoroutineToken) { return ["token", v.valid(), R(v.coroutine())]; }
    if (t == std.Result) { return if (v.is_success()) { ["success", R(v.value())]; } else { ["error", R(v.error())]; }; }
    if (t == std.NativeObject) { return ["native", g.nval(v)]; }
    if (t == std.Type) { return ["type", v.name()]; }
    if (t == std.Record) { return ["record", v]; }
    return v;
}
export func log(v) { h.t(R(v)); return null; }
export func id(x) { churn(); return x; }
export func three(a, b, c) { return [a, b, c]; }
export func rec(k, x) {
    if (k == 0) { churn(); return [x]; }
    const y = [x, "r$k"];
    const r = rec(k - 1, x);
    if (y[0] != x) { r.append("lost"); }
    if (y[1] != "r$k") { r.append("lost"); }
    return r;
}
)";

const std::vector<Producer> producers = {
    {"string", "\"s$n\""},
    {"float", "(n + 0.25)"},
    {"integer", "(n + 4611686018427387900)"},
    {"tuple", "(\"a$n\", n + 0.25)"},
    {"record", "(a: \"a$n\", b: n + 0.25)"},
    {"array", "[\"a$n\", [\"b$n\"]]"},
    {"grown array", "lib.arr(n)"},
    {"large array", "lib.bigarr(n)"},
    {"map", "map{\"k$n\": \"v$n\", n + 0.5: [n]}"},
    {"grown map", "lib.mp(n)"},
    {"set", "set{\"k$n\", n + 0.5}"},
    {"grown set", "lib.st(n)"},
    {"closure", "lib.clo(n)"},
    {"closure of closure", "lib.clo2(n)"},
    {"bound method", "lib.bound(n)"},
    {"slice", "\"slice$n\".slice(2, 4)"},
    {"slice of slice", "\"slice$n\".slice_last(4).slice_first(3)"},
    {"builder", "lib.builder(n)"},
    {"buffer", "lib.buf(n)"},
    {"large buffer", "g.bytes(40000, n)"},
    {"large tuple", "g.tuple(2500, \"e$n\")"},
    {"large string", "lib.bigstr(n)"},
    {"success", "std.success(\"s$n\")"},
    {"error", "std.error([\"e$n\"])"},
    {"exception", "lib.exc(n)"},
    {"coroutine", "lib.coro(n)"},
    {"token", "lib.token(n)"},
    {"key view", "map{\"k$n\": \"v$n\"}.keys()"},
    {"value view", "map{\"k$n\": \"v$n\"}.values()"},
    {"native object", "g.native(n)"},
    {"type", "std.type_of(map{})"},
    {"symbol", "#sym"},
    {"bytes", "std.to_utf8(\"u$n\")"},
    {"schema", "std.schema_of((a: \"x$n\"))"},
    {"deep", "lib.deep(n)"},
};

const std::vector<Holder> holders = {
    {"local", "const x = $P; lib.churn(); return lib.R(x);"},
    {"argument", "return lib.R(lib.id($P));"},
    {"pending arguments", "return lib.R(lib.three($P, lib.churn(), $P));"},
    {"pending tuple", "const t = ($P, lib.churn(), $P); lib.churn(); return lib.R(t);"},
    {"pending array", "const t = [$P, lib.churn(), $P]; lib.churn(); return lib.R(t);"},
    {"pending map", "const t = map{1: $P, lib.churn(): $P}; lib.churn(); return lib.R(t);"},
    {"pending set", "const t = set{$P, lib.churn(), $P}; lib.churn(); return lib.R(t);"},
    {"pending record", "const t = (a: $P, b: lib.churn(), c: $P); lib.churn(); return (lib.R(t.a), t.b, lib.R(t.c));"},
    {"pending interpolation", "const x = [$P]; const s = \"a${lib.str(n)}b${lib.churn()}${lib.str(n)}\"; return (lib.R(x), s);"},
    {"map key", "const m = map{}; m[$P] = \"v$n\"; lib.churn(); return lib.R(m);"},
    {"map value", "const m = map{}; m[\"k$n\"] = $P; lib.churn(); m[\"l$n\"] = m[\"k$n\"]; lib.churn(); return lib.R(m);"},
    {"set member", "const m = set{}; m.insert($P); lib.churn(); return lib.R(m);"},
    {"appended", "const a = []; for var i = 0; i < 10; i += 1 { a.append($P); } lib.churn(); return lib.R(a);"},
    {"array store", "const a = [1, 2]; a[1] = $P; lib.churn(); a[0] = a[1]; a[1] = lib.churn(); return lib.R(a);"},
    {"tuple store", "const a = (1, 2); a[1] = $P; lib.churn(); a[0] = a[1]; a[1] = lib.churn(); return lib.R(a);"},
    {"record store", "const r = (a: null, b: 1); r.a = $P; lib.churn(); r.b = lib.churn(); return (lib.R(r.a), r.b);"},
    {"element of temporary", "return lib.R([[$P], lib.churn()][0][0]);"},
    {"receiver", "return lib.R(map{1: $P, 2: lib.churn()}.values());"},
    {"pending append", "const a = []; a.append([$P, lib.churn()]); const ap = a.append; lib.churn(); ap($P); return lib.R(a);"},
    {"captured", "const x = $P; const f = func() { return x; }; lib.churn(); return lib.R(f());"},
    {"only captured", "const mk = func() { const x = $P; return func() { return lib.R(x); }; }; const f = mk(); lib.churn(); return f();"},
    {"assigned in closure", "var x = null; const f = func() { x = $P; }; f(); lib.churn(); return lib.R(x);"},
    {"nested environments", "const f = func() { const x = $P; return func() { const y = $P; return func() { return (lib.R(x), lib.R(y)); }; }; };"
                            " const a = f(); lib.churn(); const b = a(); lib.churn(); return b();"},
    {"loop environments", "const fs = []; for var i = 0; i < 3; i += 1 { const x = $P; fs.append(func() { return lib.R(x); }); }"
                          " lib.churn(); return [fs[0](), fs[1](), fs[2]()];"},
    {"iterated array", "const r = []; for x in [$P, $P, $P] { lib.churn(); r.append(lib.R(x)); } return r;"},
    {"iterated tuple", "const r = []; for x in ($P, $P, $P) { lib.churn(); r.append(lib.R(x)); } return r;"},
    {"iterated map", "const r = []; for (k, v) in (map{1: $P, \"b$n\": $P}) { lib.churn(); r.append((k, lib.R(v))); } return r;"},
    {"iterated set", "const r = []; for x in (set{$P, \"b$n\", \"c$n\"}) { lib.churn(); r.append(lib.R(x)); } return r;"},
    {"iterated values", "const r = []; for x in (map{1: $P, \"b$n\": $P}.values()) { lib.churn(); r.append(lib.R(x)); } return r;"},
    {"iterated keys", "const r = []; for x in (map{$P: 1, \"b$n\": 2}.keys()) { lib.churn(); r.append(lib.R(x)); } return r;"},
    {"iterated text", "const x = $P; const r = []; for c in \"x$n\" { lib.churn(); r.append(c); } for c in \"yz$n\".slice(0, 2) { lib.churn(); r.append(c); } return (lib.R(x), r);"},
    {"deferred", "const x = $P; defer lib.log(x); lib.churn(); return null;"},
    {"returned", "const f = func() { defer lib.churn(); return $P; }; return lib.R(f());"},
    {"unwound", "const f = func() { const x = $P; defer lib.log(x); defer lib.churn(); std.panic(\"p${lib.churn()}\"); };"
                " const r = std.catch_panic(f); lib.churn(); return lib.R(r);"},
    {"carried by panic", "const f = func() { defer lib.churn(); std.panic(lib.exc(n)); }; const x = [$P]; const r = std.catch_panic(f); lib.churn(); return (lib.R(x), lib.R(r));"},
    {"secondary panics", "const f = func() { defer std.panic(\"q$n\"); defer lib.churn(); std.panic(\"p$n\"); }; const x = $P; const r = std.catch_panic(f); lib.churn(); return (lib.R(x), lib.R(r));"},
    {"caught value", "return lib.R(std.catch_panic(func() { lib.churn(); return $P; }));"},
    {"other coroutine", "const x = $P; std.launch(func() { lib.churn(); std.dispatch(); lib.churn(); lib.log(x); }); lib.churn(); std.dispatch(); return lib.churn();"},
    {"waiting coroutine", "const x = [$P]; std.dispatch(); lib.churn(); std.dispatch(); return lib.R(x);"},
    {"yielded coroutine", "const x = [$P]; const t = std.coroutine_token(); std.launch(func() { lib.churn(); t.resume(); lib.churn(); }); std.yield_coroutine(); return lib.R(x);"},
    {"coroutine arguments", "std.launch(func(a, b) { lib.churn(); lib.log(a); lib.log(b); }, $P, lib.churn()); lib.churn(); return null;"},
    {"module variable", "mv = $P; mw[0] = []; lib.churn(); mw[0].append(mv); mv = lib.churn(); return lib.R(mw);", "var mv = null; const mw = [1];"},
    {"module initializer", "lib.churn(); return lib.R(mc);", "func mk(n) { return $P; } const mc = (mk(1), lib.churn(), mk(2));"},
    {"host handle", "g.keep($P); lib.churn(); return lib.R(g.kept());"},
    {"asynchronous", "return lib.R(lib.three($P, g.later($P), lib.churn()));"},
    {"asynchronous result", "return lib.R(lib.three($P, g.later_new($P), lib.churn()));"},
    {"asynchronous in coroutines", "const go = func() { lib.log(g.later($P)); }; std.launch(go); std.launch(go); lib.churn(); return lib.R(g.later($P));"},
    {"native closure", "const f = g.mkfn($P); lib.churn(); return lib.R(f(lib.churn()));"},
    {"resumable locals", "return lib.R(g.call(func(a, b) { lib.churn(); return lib.three(a, lib.churn(), $P); }, $P));"},
    {"resumable waiting", "return lib.R(g.call(func(a, b) { return g.later(a); }, $P));"},
    {"native arguments", "return lib.R(g.both($P, $P));"},
    {"assigned parameter", "n = [n, $P]; lib.churn(); n[0] = n[1]; return lib.R(n[0]);"},
    {"assigned inner parameter", "const f = func(a, b) { a = $P; lib.churn(); b = $P; lib.churn(); return (lib.R(a), lib.R(b)); }; return f(null, 1);"},
    {"token of the running coroutine", "const x = $P; std.coroutine_token(); lib.churn(); const t = std.coroutine_token(); lib.churn(); return (t.valid(), lib.R(t.coroutine()), lib.R(x));"},
    {"recursion", "return lib.R(lib.rec(50, $P));"},
    {"conditional", "const x = if (lib.churn() != null) { $P; } else { null; }; lib.churn(); return lib.R(x);"},
    {"coalesced", "const x = null ?? $P; lib.churn(); return lib.R(x ?? lib.churn());"},
    {"exchanged", "var (a, b) = ($P, lib.churn()); lib.churn(); (a, b) = (b, a); lib.churn(); return (lib.R(a), lib.R(b));"},
    {"cyclic", "const a = [$P]; a.append((a, a)); const c = [a[1]]; lib.churn(); return lib.R(c[0][0][1][1][0]);"},
    {"results", "const r = std.success(std.error($P)); lib.churn(); return lib.R(r);"},
};

// Expressions that allocate in the virtual machine's own functions.
const std::vector<const char*> allocating_ops = {
    "\"ab$n\".slice(1, 2).to_string()", "\"abc$n\".slice_first(2).slice_last(1)", "\"abc$n\".contains(\"c$n\")",
    "\"abc$n\".slice(0, 3).contains(\"bc$n\".slice(0, 2))", "\"a${n}b${n + 0.5}c${\"x$n\"}${[1].size()}\"",
    "std.to_utf8(\"x$n\")", "std.debug_repr([\"a$n\", map{\"k$n\": (1, n + 0.5)}, set{n}, (a: \"x$n\")])",
    "std.debug_repr(\"quoted \\\" $n\")", "std.debug_repr(lib.exc(n))", "std.debug_repr(std.success(\"s$n\"))",
    "std.success(\"s$n\").value()", "std.error(\"s$n\").error()", "std.success(\"s$n\").type()",
    "std.catch_panic(func() { std.panic(\"p$n\"); })", "std.catch_panic(func() { std.panic([n, \"p$n\"].size()); })",
    "std.catch_panic(func() { [\"x$n\"][5]; })", "std.catch_panic(func() { \"x$n\" + 1; })",
    "std.catch_panic(func() { null.foo; })", "std.catch_panic(func() { (a: \"x$n\").b; })",
    "std.catch_panic(func() { \"x$n\"(); })", "std.catch_panic(func() { return \"v$n\"; })",
    "std.catch_panic(func() { for x in n { } })", "std.catch_panic(func(a) { return a; })",
    "std.catch_panic(func() { std.new_buffer(-1); })", "std.catch_panic(func() { 1 / (n - n); })",
    "std.new_string_builder().append(\"a$n\", n + 0.5)", "lib.builder(n).to_string()", "lib.builder(n).size()",
    "std.new_buffer(n + 3)", "std.type_of(\"x$n\").name()", "std.type_of([n])", "std.schema_of((a: \"x$n\"))",
    "map{\"k$n\": n}.keys()", "map{\"k$n\": \"v$n\"}.values()", "map{\"k$n\": n}.contains(\"k$n\")",
    "map{\"k$n\": \"v$n\"}[\"k$n\"]", "map{\"k$n\": \"v$n\"}.remove(\"k$n\")", "map{\"k$n\": \"v$n\"}.size",
    "set{\"k$n\"}.insert(\"l$n\")", "set{\"k$n\"}.contains(\"k$n\")", "lib.mp(n)", "lib.st(n)", "lib.arr(n)",
    "[\"x$n\"].append(\"y$n\")", "[\"a$n\"].size()", "[\"a$n\"].clear()", "(\"a$n\", \"b$n\")[1]", "(a: \"a$n\").a",
    "(a: \"a$n\", b: [n])", "(\"a$n\" == \"a$n\")", "(\"a$n\" == \"a$n\".slice(0, 9))", "(4611686018427387904 + n)",
    "(4611686018427387904 + n == 4611686018427387904 + n)", "(n + 0.5 < n + 0.75)", "(n + 0.5) ** 2", "-(n + 0.5)",
    "(n + 4611686018427387904) * 1", "(n + 0.5) * 3 + (n + 0.25)", "std.abs(n - 9.5)", "std.round(n + 0.3)",
    "std.launch(func() { lib.log(\"l$n\"); })", "std.current_coroutine()", "std.coroutine_token()",
    "std.coroutine_token().coroutine().name()", "std.dispatch()", "std.PI", "lib.clo(n)()", "lib.clo2(n)()()", "lib.bound(n)()",
    "lib.exc(n).message()", "lib.coro(n)", "g.later(\"x$n\")", "g.later_new(\"x$n\")", "g.both(\"x$n\", \"y$n\")",
    "g.call(func(a, b) { return [a, b]; }, \"x$n\")", "g.mkfn(\"x$n\")(\"y$n\")", "g.native(n)", "g.nval(g.native(n))",
    "g.tuple(3, \"x$n\")", "g.bytes(9000, 3)", "std.print(\"p$n\", n + 0.5)", "#x", "(\"a$n\" ?? 1)",
    "null?.foo", "[\"q$n\"]?.size()", "[\"q$n\"]?[0]", "if (n > 0) { \"y$n\"; } else { \"z$n\"; }",
    "lib.rec(25, \"x$n\")", "lib.three(\"a$n\", [\"b$n\"], (\"c$n\", 1.5))", "lib.deep(n)",
};

std::string replace(std::string_view text, std::string_view what, std::string_view with) {
    std::string r;
    for (size_t p = 0;;) {
        size_t q = text.find(what, p);
        if (q == text.npos)
            return r + std::string(text.substr(p));
        r += std::string(text.substr(p, q - p)) + std::string(with);
        p = q + what.size();
    }
}

const CompileResult& compiled_lib() {
    static CompileResult r = compile(lib_source, "lib");
    MC_CHECK(r.error.ok() && r.module, "{}", r.describe());
    return r;
}

std::unique_ptr<XVm> machine_with_lib(const VmOptions& opts) {
    auto vm = std::make_unique<XVm>(opts);
    ApiError e = vm->load(compiled_lib().module);
    MC_CHECK(e.ok(), "lib: {} {}", e.message, e.details);
    return vm;
}


static void host_sync(tiro_vm_t vm, tiro_sync_frame_t f) {
    H c(vm), r(vm);
    tiro_sync_frame_closure(f, c, Err());
    tiro_make_tuple(vm, 1, r, Err());
    tiro_tuple_set(vm, r, 0, c, Err());
    tiro_sync_frame_return_value(f, r, Err());
}

const std::vector<HostOp>& host_ops() {
    using T = tiro_handle_t;
    using E = tiro_error_t*;
    static const std::vector<HostOp> ops = {
        {"integer", [](XVm& v, T d, T, T, E e) { tiro_make_integer(v, int64_t(1) << 62, d, e); }},
        {"float", [](XVm& v, T d, T, T, E e) { tiro_make_float(v, 1.25, d, e); }},
        {"string", [](XVm& v, T d, T, T, E e) { tiro_make_string(v, S("text"), d, e); }},
        {"tuple", [](XVm& v, T d, T s, T o, E e) {
             H t(v);
             tiro_make_tuple(v, 2, t, e);
             if (!*e) {
                 tiro_tuple_set(v, t, 0, s, e);
                 tiro_tuple_set(v, t, 1, o, e);
                 tiro_value_copy(v, t, d, e);
             }
         }},
        {"array", [](XVm& v, T d, T s, T o, E e) {
             H t(v);
             tiro_make_array(v, 0, t, e);
             if (!*e) {
                 tiro_array_push(v, t, s, e);
                 if (!*e) tiro_array_push(v, t, o, e);
                 if (!*e) tiro_value_copy(v, t, d, e);
             }
         }},
        {"push", [](XVm& v, T d, T s, T, E e) { tiro_array_push(v, d, s, e); }},
        {"set0", [](XVm& v, T d, T s, T, E e) { tiro_array_set(v, d, 0, s, e); }},
        {"pop", [](XVm& v, T d, T, T, E e) { tiro_array_pop(v, d, e); }},
        {"tuple_set1", [](XVm& v, T d, T s, T, E e) { tiro_tuple_set(v, d, 1, s, e); }},
        {"tuple_get0", [](XVm& v, T d, T s, T, E e) { tiro_tuple_get(v, s, 0, d, e); }},
        {"array_get0", [](XVm& v, T d, T s, T, E e) { tiro_array_get(v, s, 0, d, e); }},
        {"copy", [](XVm& v, T d, T s, T, E e) { tiro_value_copy(v, s, d, e); }},
        {"to_string", [](XVm& v, T d, T s, T, E e) {
             auto k = tiro_value_kind(v, s); // others print addresses
             if (k <= TIRO_KIND_STRING || k == TIRO_KIND_EXCEPTION)
                 tiro_value_to_string(v, s, d, e);
         }},
        {"type", [](XVm& v, T d, T s, T, E e) { tiro_value_type(v, s, d, e); }},
        {"type_name", [](XVm& v, T d, T s, T, E e) { tiro_type_name(v, s, d, e); }},
        {"success", [](XVm& v, T d, T s, T, E e) { tiro_make_success(v, s, d, e); }},
        {"error", [](XVm& v, T d, T s, T, E e) { tiro_make_error(v, s, d, e); }},
        {"value", [](XVm& v, T d, T s, T, E e) { tiro_result_value(v, s, d, e); }},
        {"record", [](XVm& v, T d, T s, T o, E e) {
             H keys(v), k1(v), k2(v), sch(v), r(v);
             tiro_make_array(v, 0, keys, e);
             if (!*e) tiro_make_string(v, S("k1"), k1, e);
             if (!*e) tiro_array_push(v, keys, k1, e);
             if (!*e) tiro_make_string(v, S("k2"), k2, e);
             if (!*e) tiro_array_push(v, keys, k2, e);
             if (!*e) tiro_make_record_schema(v, keys, sch, e);
             if (!*e) tiro_make_record(v, sch, r, e);
             if (!*e) tiro_record_set(v, r, k2, s, e);
             if (!*e) tiro_record_set(v, r, k1, o, e);
             if (!*e) tiro_value_copy(v, r, d, e);
         }},
        {"record_get", [](XVm& v, T d, T s, T, E e) {
             H k(v);
             tiro_make_string(v, S("k1"), k, e);
             if (!*e) tiro_record_get(v, s, k, d, e);
         }},
        {"record_set", [](XVm& v, T d, T s, T, E e) {
             H k(v);
             tiro_make_string(v, S("k2"), k, e);
             if (!*e) tiro_record_set(v, d, k, s, e);
         }},
        {"record_keys", [](XVm& v, T d, T s, T, E e) {
             H k(v); // the order of keys is not specified
             tiro_record_keys(v, s, k, e);
             if (!*e) tiro_make_integer(v, int64_t(tiro_array_size(v, k)), d, e);
         }},
        {"buffer", [](XVm& v, T d, T, T, E e) {
             tiro_make_buffer(v, 9, d, e);
             if (!*e) memcpy(tiro_buffer_data(v, d), "bufferrrr", 9);
         }},
        {"large_buffer", [](XVm& v, T d, T, T, E e) {
             tiro_make_buffer(v, 20000, d, e);
             if (!*e) memset(tiro_buffer_data(v, d), 'b', 20000);
         }},
        {"native", [](XVm& v, T d, T, T, E e) {
             H n = make_native(v, 42, e);
             if (!*e) tiro_value_copy(v, n, d, e);
         }},
        {"function", [](XVm& v, T d, T s, T, E e) {
             H n(v);
             tiro_make_string(v, S("fn"), n, e);
             if (!*e) tiro_make_sync_function(v, n, host_sync, 0, s, d, e);
         }},
        {"coroutine", [](XVm& v, T d, T s, T, E e) { tiro_make_coroutine(v, s, nullptr, d, e); }},
        {"start", [](XVm& v, T, T s, T, E e) { tiro_coroutine_start(v, s, e); }},
        {"run", [](XVm& v, T, T, T, E e) { tiro_vm_run_ready(v, e); }},
        {"result", [](XVm& v, T d, T s, T, E e) { tiro_coroutine_result(v, s, d, e); }},
        {"module", [](XVm& v, T d, T s, T o, E e) {
             tiro_module_member_t m[2] = {{S("m1"), s}, {S("m2"), o}};
             tiro_make_module(v, S("mod"), m, 2, d, e);
         }},
        {"export", [](XVm& v, T d, T s, T, E e) { tiro_module_get_export(v, s, S("m1"), d, e); }},
        {"std", [](XVm& v, T d, T, T, E e) { tiro_vm_get_export(v, S("lib"), S("clo"), d, e); }},
        {"resumable", [](XVm& v, T d, T s, T, E e) {
             H n(v);
             tiro_make_string(v, S("fn"), n, e);
             if (*e) return;
             tiro_resumable_frame_desc_t r{};
             r.name = n;
             r.closure = s;
             r.local_count = 3;
             r.func = [](tiro_vm_t vm, tiro_resumable_frame_t f) {
                 H c(vm);
                 tiro_resumable_frame_closure(f, c, Err());
                 tiro_resumable_frame_return_value(f, c, Err());
             };
             tiro_make_resumable_function(v, &r, d, e);
         }},
    };
    return ops;
}

std::string deep_dump(XVm& vm, tiro_handle_t h) {
    switch (tiro_value_kind(vm, h)) {
    case TIRO_KIND_NATIVE: {
        auto* d = static_cast<NativeData*>(tiro_native_data(vm, h));
        return fmt::format("native {} {} {}", tiro_native_size(vm, h), d ? d->id : -1, d ? d->check : 0);
    }
    case TIRO_KIND_BUFFER: {
        std::string_view b((const char*) tiro_buffer_data(vm, h), tiro_buffer_size(vm, h));
        return fmt::format("buffer {} {}", b.size(), std::hash<std::string_view>()(b));
    }
    case TIRO_KIND_COROUTINE:
        return fmt::format("coroutine {} {}", tiro_coroutine_started(vm, h), tiro_coroutine_completed(vm, h));
    default:
        return vm.dump(h);
    }
}


} // namespace mc
