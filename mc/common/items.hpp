// Groups of top level declarations that cover all constructs of the language.
#pragma once
#include <string>
#include <vector>

#include "common/lang.hpp"

namespace mc {

// ---- Items: independent groups of top level declarations; `@` is replaced by a unique suffix ----
// Every item exports a function f@ without parameters. Items deliberately use the same names for locals, the same
// strings, symbols, record keys and constants.

struct Item {
    const char* name;
    std::vector<const char*> decls;
    bool reorder = false; // the declarations do not depend on each other's order
};

// clang-format off
inline const std::vector<Item> items = {
    {"arithmetic", {"export func main@() { var x = 1; var y = 2; const z = x * 10 + y; x += z; return (x, y, z, 12345678901 * 3, 7 / 2, 7 % 2, 2 ** 10); }"}, true},
    {"floats", {"export func main@() { var x = -0.0; const y = 0.0; return (x, y, 1.5 + 2, 0.1 + 0.2, 1 / 4.0, 1.0 / x); }"}, true},
    {"strings", {"export func main@() { var x = 1; const y = \"a\"; return \"$x $y ${x + 1} foo a b\"; }"}, true},
    {"record ab", {"export func main@() { const r = (a: 1, b: \"foo\"); return (r.a, r.b, r); }"}, true},
    {"record ba", {"export func main@() { const r = (b: 1, a: \"foo\"); r.a = r.b; return (r.a, r.b, r); }"}, true},
    {"record abc", {"export func main@() { const r = (foo: (a: 1, b: (c: 3, a: 2, b: 1)), a: null, b: 2); return (r.foo.b.c, r.foo.b.a, r.foo.a, r.a, r.b, (foo: 1).foo); }"}, true},
    {"record none", {"export func main@() { const x = (:); const y = (a: 1); const z = (a: 2, b: 1); return (y.a, z.a, z.b, y, z); }"}, true},
    {"closures", {"export func main@() { var x = 1; const g = func(y) { x += y; return func(z) { x += z; return (x, y, z); }; }; const a = g(2); a(3); return (a(4), g(1)(1), x); }"}, true},
    {"closures in loops", {"export func main@() { const r = []; for var i = 0; i < 3; i += 1 { const x = i; var y = 0; r.append(func() { y += 1; return (x, y); }); } return (r[0](), r[0](), r[1](), r[2]()); }"}, true},
    {"defer", {"export func main@() { const x = []; const g = func() { defer x.append(1); for var i = 0; i < 2; i += 1 { defer x.append(i); if i == 1 { return \"foo\"; } } return null; }; return (g(), x); }"}, true},
    {"catch", {"import std as s@;", "export func main@() { var x = 1; const r = s@.catch_panic(func() { x = 2; s@.panic(\"foo\"); x = 3; }); return (x, r.error().message()); }"}},
    {"unwinding", {"export func g@(y) { var x = 1; var z = 2; defer h.t((x, z)); if y { x = 5; h.t(x); z = x; } else { z = 7; h.t(1 / y); x = z; } for var i = 0; i < 2; i += 1 { x = x + i; h.t(x); } return (x, z); }",
        "export func main@() { return (g@(true), std.catch_panic(func() = g@(0)).is_error(), std.catch_panic(func() = g@(false)).is_error()); }"}, true},
    {"unwinding two", {"export func main@() { var a = 0; var b = 0; var c = 0; const r = []; const g = func(n) { var x = 0; var y = 0; var z = 0; defer { r.append((x, y, z)); }; x = 1; if n == 1 { std.panic(n); } y = x + 1; if n == 2 { std.panic(n); } z = y + 1; x = z; if n == 3 { std.panic(n); } y = 9; return y; }; return (g(0), std.catch_panic(func() = g(1)).is_error(), std.catch_panic(func() = g(2)).is_error(), std.catch_panic(func() = g(3)).is_error(), r); }"}, true},
    {"recursion", {"export func main@() { return g@(10); }", "func g@(n) { if n <= 1 { return 1; } return n * g@(n - 1); }"}, true},
    {"mutual recursion", {"func even@(n) = if n == 0 { true; } else { odd@(n - 1); };", "export func main@() = (even@(10), odd@(10), even@(7));", "func odd@(n) = if n == 0 { false; } else { even@(n - 1); };"}, true},
    {"global counter", {"var x@ = 0;", "export func main@() { x@ += 1; const g = func() { x@ *= 10; return x@; }; return (x@, g()); }"}},
    {"global tuple", {"var (x@, y@) = (1, \"foo\");", "export func main@() { (x@, y@) = (y@, x@); return (x@, y@); }"}},
    {"global initializers", {"const a@ = [1, 2];", "const b@ = func() { a@.append(3); return a@.size(); }();", "var c@ = (a: a@, b: b@);", "export func main@() { c@.a.append(c@.b); return c@.a; }"}},
    {"exported constants", {"export const a@ = \"foo\";", "export const b@ = (a@, 1, #foo);", "export const main@ = func() { return (a@, b@, #foo, \"foo\"); };"}},
    {"symbols", {"export func main@() { const r = (foo: #foo); return (#a, #foo, r.foo == #foo, #a == #b, \"foo\", std.type_of(#main@)); }"}, true},
    {"loops", {"export func main@() { var x = 0; const y = []; while true { x += 1; if x == 3 { continue; } if x > 6 { break; } y.append(x); } for z in y { if z == 4 { continue; } x += z; } return (x, y); }"}, true},
    {"nested loops", {"export func main@() { const y = []; for var i = 0; i < 4; i += 1 { var x = i; for j in [1, 2, 3] { if j > i { break; } x += j; } y.append(x); } return y; }"}, true},
    {"block values", {"export func main@() { const x = { var y = 1; y += 1; y; }; const z = if x == 2 { const y = \"foo\"; y; } else { \"a\"; }; return (x, z, if false { 1; } else { {2;} + {3;}; }); }"}, true},
    {"logic", {"export func main@() { var x = null; var y = false; const z = (x ?? 1, y || \"a\", y && h.t(1), !x, x?.foo, x?[1], x?(2)); return z; }"}, true},
    {"swaps", {"export func main@() { var a = 1; var b = 2; var c = 3; for var i = 0; i < 4; i += 1 { (a, b, c) = (b, c, a); if i == 2 { (a, b) = (b, a); } } return (a, b, c); }"}, true},
    {"containers", {"export func main@() { const m = map{\"a\": 1, \"foo\": 2, 3: map{}}; const s = set{1, \"a\", 1}; m[\"a\"] += 10; m[s] = [1, 2]; return (m[\"a\"], m[\"foo\"], m[s][1], s.size(), m.size(), s.contains(\"a\")); }"}, true},
    {"builder", {"export func main@() { const b = std.new_string_builder(); b.append(\"foo\"); b.append(1, \"a\"); const x = b.append; x(2); return (b.to_string(), b.byte_size()); }"}, true},
    {"many locals", {"export func main@() { const a = h.t(1); const b = h.t(2); const c = h.t(3); const d = h.t(4); const e = h.t(5); const f = h.t(6); var x = a + b; var y = c + d; var z = e + f; h.t((x, y, z)); return (a, b, c, d, e, f, x - y, y * z, (a + (b + (c + (d + (e + f)))))); }"}, true},
    {"methods", {"export func main@() { const r = (a: func(x) = x + 1, b: [1, 2, 3]); const g = r.b.append; g(4); return (r.a(1), r.b.size(), r.b[3], \"foo\".size(), \"foo\".slice_first(1).to_string()); }"}, true},
    {"assertion", {"export func main@() { const x = 1; assert(x == 1, \"a\"); assert(x == 2, \"foo $x\"); return x; }"}, true},
    {"constant panic", {"export func main@() { h.t(\"a\"); return 1 / 0; }"}, true},
    {"panic", {"export func main@() { const r = [1]; return r[1]; }"}, true},
    {"launch", {"export func main@() { const x = []; const c = std.launch(func(y) { x.append(y); return \"foo\"; }, 3); std.dispatch(); const t = std.coroutine_token(); return (x, c.completed(), t.valid()); }"}, true},
    {"parameters", {"func g@(a, b, c, d, e, f) = [f, e, d, c, b, a];", "export func main@() { var a = 1; return g@(a, a + 1, g@(1, 2, 3, 4, 5, 6), \"a\", #a, null); }"}, true},
    {"shadowing", {"func x@(x) { const y = x; { const x = 2; const y = x + 1; h.t((x, y)); } return func(y) { const x = y; return (x, y); }; }", "export func main@() = x@(1)(2);"}, true},
    {"unreachable", {"func unused@() { return unused@(1, 2, 3).a[1] + \"foo\"; }", "export func main@() { var x = 1; if x == 2 { return 1 / 0; } while false { x = null.foo; } return x; h.t(2); return \"a\"; }"}, true},
    {"imports", {"import h as i@;", "import std as j@;", "export func main@() { const x = i@; return (x.t(1), j@.type_of(x.t) == std.Function, j@.type_of(i@)); }"}},
    {"types", {"export func main@() { const t = std.type_of; return (t(1), t(#a), t(\"a\"), t([]), t(main@), t(1) == std.Integer); }"}, true},
    {"names", {"func main@a() = \"a\";", "func main@_() = 1;", "func foo@() = #foo;", "export func main@() = (main@a(), main@_(), foo@());"}, true},
    {"anonymous", {"const a@ = func() = 1;", "const b@ = func() = func() = 2;", "var c@ = null;", "func d@() { c@ = func(x) { c@ = null; return x; }; }", "export func main@() { return (a@(), b@()(), { d@(); c@(3); }, c@); }"}},
    {"reassigned", {"var y@ = 1;", "var x@ = func() = y@;", "export func main@() { const old = y@; y@ = x@; x@ = func() = old; return (old == 1, x@() == old); }"}},
    {"interpolation", {"export func main@() { const x = \"a\"; return \"${\"${x}foo\"}${[1, (2, #a)][1][1]} a\"; }"}, true},
    {"numbers", {"export func main@() { return [0, 1, -1, 127, 128, 255, 256, 32767, 32768, 65536, 2147483648, 4294967296, 9223372036854775807, 0x10, 0b101, 0o17, 1.5, 0x1.8]; }"}, true},
    {"compound", {"export func main@() { const r = (a: [1, 2]); var x = 3; r.a[0] += x; r.a[1] **= x; x -= r.a[0]; r.a = (r.a[0], r.a[1], x); return r.a; }"}, true},
    {"fallthrough values", {"export func main@() { const g = func(x) { if x > 0 { return; } const y = if x < 0 { return \"a\"; } else { 5; }; y; }; return (g(1), g(-1), g(0)); }"}, true},
};
// clang-format on

inline std::string subst(std::string_view text, const std::string& suffix) {
    std::string out;
    for (char c : text)
        if (c == '@')
            out += suffix;
        else
            out += c;
    return out;
}

inline const std::string prelude = "import std; import h;\n";

inline std::string source(const std::vector<std::string>& decls) {
    std::string s = prelude;
    for (auto& d : decls)
        s += d + "\n";
    return s;
}

inline std::vector<std::string> decls_of(size_t item, const std::string& suffix) {
    std::vector<std::string> r;
    for (auto d : items[item].decls)
        r.push_back(subst(d, suffix));
    return r;
}

// Programs with many things of the same kind.
inline std::string wide(size_t n, int kind) {
    std::string r = prelude, f, g;
    auto list = [&](const char* each, const char* sep) {
        std::string s;
        for (size_t i = 0; i < n; ++i)
            s += (i ? sep : "") + subst(each, fmt::format("{}", i * 7919 % 1009));
        return s;
    };
    switch (kind) {
    case 0: return r + "export func main1() { return (" + list("k@: @", ", ") + "); }";
    case 1: return r + "export func main1() { " + list("var v@ = @; defer h.t(v@); v@ = h.t(v@);", " ") + " return 1 / 0; }";
    case 2: return r + "export func main1() { " + list("var v@ = @;", " ") + " const f = func() { return [" + list("v@", ", ") + "]; }; " + list("v@ += 1;", " ") + " return f(); }";
    case 3: return r + list("const c@ = func() = \"s@\"; func d@() = c@();", "\n") + "\nexport func main1() { return [" + list("d@()", ", ") + "]; }";
    case 4: return r + "export func main1() { " + list("var v@ = h.t(@);", " ") + " while v0 < " + std::to_string(n) + " { " + list("v@ += v0 + 1;", " ") + " } return [" + list("v@", ", ") + "]; }";
    case 5: return r + "export func main1() { const x = h.t(1); const r = []; " + list("if x == @ { r.append(#y@); r.append((k@: \"z@\", a: @).k@); }", " ") + " return r; }";
    case 6: return r + list("import h as i@;", " ") + " export func main1() { return [" + list("i@.t(@)", ", ") + "]; }";
    case 7: return r + list("export var e@ = 1;", " ") + " export func main1() { return unknown; }";
    case 8: return r + "export func main1() { " + list("var v@ = x@; v@ = w@;", " ") + " }";
    default: return r + "export func main1() { const x = h.t(2); return [" + list("func() { return func(a@) { return (a@, x, x * x, (k@: x)); }; }", ", ") + "].size(); }";
    }
}

} // namespace mc
