// C14: operators bind by the documented precedence and associativity.
#include <algorithm>
#include <cstring>

#include "common/lang.hpp"

using namespace mc;

const char* const mc::check_id = "C14";

namespace {

struct Op {
    const char* text;
    int level;
    bool right;
};
// The documented operator table, loosest first.
const std::vector<Op> ops = {
    {"=", 0, true}, {"+=", 0, true}, {"-=", 0, true}, {"*=", 0, true}, {"**=", 0, true}, {"/=", 0, true}, {"%=", 0, true},
    {"||", 1, false}, {"&&", 2, false}, {"??", 3, false}, {"|", 4, false}, {"^", 5, false}, {"&", 6, false}, {"==", 7, false}, {"!=", 7, false},
    {"<", 8, false}, {"<=", 8, false}, {">", 8, false}, {">=", 8, false}, {"<<", 9, false}, {">>", 9, false},
    {"+", 10, false}, {"-", 10, false}, {"*", 11, false}, {"/", 11, false}, {"%", 11, false}, {"**", 12, true},
};
const std::vector<int> per_level = {0, 7, 8, 9, 10, 11, 12, 13, 15, 19, 22, 24, 26};
const std::vector<int> per_level_two = {0, 1, 7, 8, 9, 10, 11, 12, 13, 14, 15, 18, 19, 20, 21, 22, 23, 24, 26};

// An operand: prefix operators, a primary and accesses.
struct Unit {
    std::vector<std::string> prefix;
    std::string primary;
    std::vector<std::string> postfix;
    bool greedy = false; // `return` and `func () =`: the rest of the expression belongs to it
    bool nonname = false; // the primary cannot be assigned to
};

struct Expr {
    std::vector<Unit> units;
    std::vector<int> op; // between units
};

struct Grouped {
    std::string text;
    bool target = false; // may stand to the left of an assignment
};

std::string flat(const Expr& e, bool spaces) {
    std::string out;
    auto add = [&](const std::string& s) {
        if (!out.empty()) {
            bool words = (isalnum((unsigned char) out.back()) || out.back() == '_') && isalpha((unsigned char) s[0]);
            bool merge = ispunct((unsigned char) out.back()) && strchr("+-*/%&|<>=!?^~", out.back()) && strchr("+-*/%&|<>=!?^~", s[0])
                         && (out.back() == s[0] || s[0] == '=');
            if (words || merge || (spaces && out.back() != ' '))
                out += " ";
        }
        out += s;
    };
    for (size_t i = 0; i < e.units.size(); ++i) {
        if (i)
            add(ops[size_t(e.op[i - 1])].text);
        for (auto& p : e.units[i].prefix)
            add(p);
        add(e.units[i].primary);
        for (auto& p : e.units[i].postfix)
            out += p;
    }
    return out;
}

// The grouping defined by the table, fully parenthesized.
Grouped group(const Expr& e, size_t b, size_t end) {
    // an operand that takes everything to its right is the last operand
    for (size_t i = b; i + 1 < end; ++i)
        if (e.units[i].greedy) {
            Expr shorter;
            shorter.units.assign(e.units.begin() + b, e.units.begin() + i + 1);
            shorter.op.assign(e.op.begin() + b, e.op.begin() + i);
            Expr inner;
            inner.units.assign(e.units.begin() + i, e.units.begin() + end);
            inner.op.assign(e.op.begin() + i, e.op.begin() + end - 1);
            // the first operand of the inner expression follows the keyword
            Unit& first = inner.units[0];
            std::string word = first.primary;
            size_t sep = word.rfind(' ');
            first.greedy = false;
            first.primary = word.substr(sep + 1);
            first.prefix.clear();
            Unit& last = shorter.units.back();
            last.primary = word.substr(0, sep) + " (" + group(inner, 0, inner.units.size()).text + ")";
            last.primary = "(" + last.primary + ")";
            last.postfix.clear();
            last.greedy = false;
            last.nonname = true;
            return group(shorter, 0, shorter.units.size());
        }
    if (end - b == 1) {
        const Unit& u = e.units[b];
        Grouped g;
        g.text = u.primary;
        g.target = !u.nonname && !u.greedy;
        bool optional = false;
        for (size_t i = 0; i < u.postfix.size(); ++i) {
            g.text = "(" + g.text + u.postfix[i] + ")";
            optional |= u.postfix[i][0] == '?';
            g.target = !optional && u.postfix[i].back() != ')';
        }
        for (size_t i = u.prefix.size(); i-- > 0;) {
            g.text = "(" + u.prefix[i] + g.text + ")";
            g.target = false;
        }
        return g;
    }
    int level = 100;
    for (size_t i = b; i + 1 < end; ++i)
        level = std::min(level, ops[size_t(e.op[i])].level);
    size_t at = end;
    for (size_t i = b; i + 1 < end; ++i)
        if (ops[size_t(e.op[i])].level == level) {
            at = i;
            if (ops[size_t(e.op[i])].right)
                break;
        }
    Grouped l = group(e, b, at + 1), r = group(e, at + 1, end);
    if (level == 0 && !l.target)
        throw 0; // nothing to the left may be assigned to
    return {"(" + l.text + " " + ops[size_t(e.op[at])].text + " " + r.text + ")", false};
}

// The contexts an expression can be used in; %s is the expression.
const std::vector<const char*> contexts = {"return %s;", "var z = %s;", "%s;", "g(%s, %s);", "[%s, %s];", "(%s, %s);", "(k: %s);", "map{%s: %s};", "set{%s};", "\"${%s}\";", "while %s { a; }", "if %s { a; }",
    "for x in %s { a; }", "for ; %s; %s { a; }", "assert(%s, \"${%s}\");", "defer %s;", "const w = func() = %s;", "g[%s];", "(%s).k;", "var (y, z) = %s;", "(a, b) = %s;", "g = %s;", "return return %s;", "const y = %s, z = %s;"};

std::string in_context(const char* ctx, const std::string& e) {
    std::string out = ctx;
    for (size_t p = 0; (p = out.find("%s", p)) != out.npos; p += e.size())
        out.replace(p, 2, e);
    return out;
}

std::string attach(std::string_view src, ApiError& error) {
    auto r = compile(src, "m", TIRO_ATTACHMENT_BYTECODE);
    error = r.error;
    return r.attachment;
}

// Outcomes of a function for different arguments; decides whether a difference in the code is one in meaning.
std::string meaning(const std::string& function) {
    std::string src = "import std;\nimport h;\n" + function + R"(
func obj(n) = (m: n, f: func(x) = h.t(x), g: func() = h.t(n));
func arg(k, n) {
    if k == 0 { return null; }
    if k == 1 { return true; }
    if k == 2 { return n + 2; }
    if k == 3 { return 1.5 * (n + 1); }
    if k == 4 { return obj(n); }
    if k == 5 { return (n, n + 1, n + 2); }
    if k == 6 { return [n + 1, n + 2, n + 3]; }
    return func(x) = h.t(n);
}
export func run(k0, k1, k2, k3, k4) {
    const args = [k0, k1, k2, k3, k4];
    const r = std.catch_panic(func() = f(arg(k0, 0), arg(k1, 1), arg(k2, 2), arg(k3, 3), arg(k4, 4)));
    if r.is_error() { return "panic"; }
    return r.value();
}
)";
    std::string out;
    Vm vm;
    vm.load_source(src, "m");
    for (int mode = 0; mode < 400; ++mode) {
        int k = mode;
        H args(vm);
        tiro_make_tuple(vm, 5, args, Err());
        for (size_t i = 0; i < 5; ++i) {
            // a few uniform vectors and a systematic variation
            int kind = mode < 8 ? mode : (k * int(i + 1) + int(i) + k / 8) % 8;
            H v = make_int(vm, kind);
            tiro_tuple_set(vm, args, i, v, Err());
        }
        auto o = vm.call("m", "run", args);
        out += o.str() + vm.take_log() + "\n";
    }
    return out;
}

struct Case {
    std::string flat, grouped; // statements
    bool valid;
};

struct Checker {
    std::string what;
    std::vector<Case> items;
    size_t count = 0;
    bool mine = false;

    explicit Checker(std::string w)
        : what(std::move(w)) {}
    ~Checker() noexcept(false) {
        if (!std::uncaught_exceptions())
            flush();
    }
    static std::string wrap(const std::string& stmt, size_t n) {
        return fmt::format("export func f{}(a, b, c, d, e) {{ {} return a; }}\n", n, stmt);
    }
    void add(const Expr& e, const char* ctx = contexts[0], bool spaces = true) {
        if (count == 0)
            mine = R.claim();
        if (mine) {
            Case c;
            c.flat = in_context(ctx, flat(e, spaces));
            try {
                c.grouped = in_context(ctx, group(e, 0, e.units.size()).text);
                c.valid = true;
            } catch (int) {
                c.valid = false;
            }
            items.push_back(c);
        }
        if (++count == 96)
            flush();
    }
    void single(const Case& c) {
        std::string names = "";
        ApiError e1, e2;
        std::string head = "func g(x) = x;\n";
        auto src = [&](const std::string& s) { return head + wrap(s, 0); };
        if (c.flat.find("g") != c.flat.npos)
            head = "var g = null;\n";
        auto f = attach(src(c.flat), e1);
        if (!c.valid) {
            MC_CHECK(!e1.ok(), "accepted although the left side of an assignment is an operator expression\n{}", c.flat);
            MC_CHECK(e1.code == TIRO_ERROR_BAD_SOURCE, "{} for\n{}", e1.details, c.flat);
            R.outcome("rejected");
            return;
        }
        auto g = attach(src(c.grouped), e2);
        MC_CHECK(e1.ok() == e2.ok(), "{}\nis {}, but\n{}\nis {}", c.flat, e1.ok() ? "accepted" : "rejected", c.grouped, e2.ok() ? "accepted" : "rejected");
        MC_CHECK(e1.ok(), "{}\nis rejected: {}", c.flat, e1.details);
        if (f == g) {
            R.outcome(f);
            return;
        }
        R.cov("different_code");
        std::string gdecl = "var g = null;\n";
        auto fn = [&](const std::string& s) { return gdecl + "export func f(a, b, c, d, e) { " + s + " return a; }\n"; };
        std::string m1 = meaning(fn(c.flat)), m2 = meaning(fn(c.grouped));
        MC_CHECK(m1 == m2, "{}\ndiffers from\n{}", c.flat, c.grouped);
    }
    void flush() {
        count = 0;
        if (items.empty())
            return;
        auto work = std::move(items);
        items.clear();
        R.exec_batch(
            work.size(), [&](size_t i) { return what + ": " + work[i].flat; },
            [&](size_t b, size_t e) {
                std::string f = "var g = null;\n", g = f;
                size_t n = 0;
                for (size_t i = b; i < e; ++i)
                    if (work[i].valid) {
                        f += wrap(work[i].flat, n);
                        g += wrap(work[i].grouped, n);
                        ++n;
                    }
                ApiError e1, e2;
                std::string cf = attach(f, e1), cg = attach(g, e2);
                bool all = e1.ok() && e2.ok() && cf == cg;
                if (all)
                    R.outcome(cf);
                for (size_t i = b; i < e; ++i) {
                    R.sub(i);
                    if (R.want_sample())
                        R.sample(work[i].flat + "   is   " + (work[i].valid ? work[i].grouped : "rejected"));
                    R.states(1);
                    R.transitions(1);
                    R.evaluations(2);
                    R.traces(1);
                    if (work[i].valid && work[i].flat != work[i].grouped)
                        R.nontrivial();
                    if (all && work[i].valid)
                        continue;
                    try {
                        single(work[i]);
                    } catch (Failure& x) {
                        R.sub_fail(i, x.what);
                    }
                }
            });
    }
};

const char* const names[] = {"a", "b", "c", "d", "e", "a", "b", "c"};
Unit unit(size_t i) {
    Unit u;
    u.primary = names[i];
    return u;
}
Expr sequence(const std::vector<int>& op) {
    Expr e;
    e.op = op;
    for (size_t i = 0; i <= op.size(); ++i)
        e.units.push_back(unit(i));
    return e;
}

const std::vector<std::string> prefixes = {"+", "-", "~", "!"};
const std::vector<std::string> postfixes = {".m", "[b]", "(c)", "?.m", "?[b]", "?(c)", ".0", "?.0", ".m(b, c)", "[a + b]", "(-a || b)"};

void units() {
    Checker c("unit");
    const size_t np = R.thorough ? 3 : 2;
    for (size_t p = 0; p <= 3; ++p)
        all_sequences(prefixes.size(), p, [&](const std::vector<int>& pre) {
            for (size_t q = 0; q <= np; ++q)
                all_sequences(postfixes.size(), q, [&](const std::vector<int>& post) {
                    for (std::string primary : {"a", "7", "(a)", "[a]", "\"s\"", "func() { return a; }", "{ a; }", "if a { b; } else { c; }", "map{a: b}", "(a, b)"}) {
                        if (q + p > 3 && primary != "a")
                            continue;
                        if (primary == "7" && !post.empty() && postfixes[size_t(post[0])][0] == '.')
                            continue; // part of the number
                        Expr e;
                        Unit u;
                        for (int i : pre)
                            u.prefix.push_back(prefixes[size_t(i)]);
                        u.primary = primary;
                        for (int i : post)
                            u.postfix.push_back(postfixes[size_t(i)]);
                        e.units = {u};
                        c.add(e);
                    }
                });
        });
}

void binary() {
    {
        Checker c("operators");
        for (size_t n = 1; n <= (R.thorough ? 4u : 3u); ++n)
            all_sequences(ops.size(), n, [&](const std::vector<int>& s) {
                c.add(sequence(s));
                if (n < 4)
                    c.add(sequence(s), contexts[0], false);
            });
    }
    Checker c("levels");
    for (size_t n = 4; n <= (R.thorough ? 5u : 4u); ++n)
        all_sequences(per_level.size(), n, [&](const std::vector<int>& s) {
            std::vector<int> o;
            for (int i : s)
                o.push_back(per_level[size_t(i)]);
            if (std::count(o.begin(), o.end(), 0) > 0 && o[0] != 0)
                return; // an assignment to an operator expression is covered by shorter sequences
            c.add(sequence(o));
        });
}

void mixed() {
    Checker c("mixed");
    // prefix operators and accesses at every operand
    const std::vector<std::string> pre = {"", "-", "!"}, post = {"", ".m", "(c)", "?.m"};
    all_sequences(pre.size() * post.size(), 3, [&](const std::vector<int>& s) {
        for (int o1 : per_level_two)
            for (int o2 : R.thorough ? per_level_two : per_level) {
                if (!R.thorough && (o1 + 2 * o2 + s[0] + s[1] + s[2]) % 3)
                    continue; // a third of the combinations
                Expr e = sequence({o1, o2});
                for (size_t i = 0; i < 3; ++i) {
                    auto& p = pre[size_t(s[i]) % pre.size()];
                    auto& q = post[size_t(s[i]) / pre.size()];
                    if (!p.empty())
                        e.units[i].prefix.push_back(p);
                    if (!q.empty())
                        e.units[i].postfix.push_back(q);
                }
                c.add(e);
            }
    });
    // one operand with a prefix operator, every pair of operators
    for (size_t at = 0; at < 3; ++at)
        for (auto& p : prefixes)
            all_sequences(ops.size(), 2, [&](const std::vector<int>& s) {
                Expr e = sequence(s);
                e.units[at].prefix.push_back(p);
                c.add(e);
                c.add(e, contexts[0], false);
                if (at == 2) {
                    e.units[1].prefix = {p};
                    c.add(e);
                }
            });
    // primaries other than names
    for (std::string primary : {"7", "1.5", "null", "#s", "\"t\"", "[b]", "(b, c)", "(k: b)", "map{b: c}", "set{b}", "func(x) { return b; }", "{ b; }", "if b { c; } else { d; }", "(b + c)", "(b = c)", "\"$b\""})
        for (size_t at = 0; at < 3; ++at)
            all_sequences(per_level_two.size(), 2, [&](const std::vector<int>& s) {
                Expr e = sequence({per_level_two[size_t(s[0])], per_level_two[size_t(s[1])]});
                e.units[at].primary = primary;
                e.units[at].nonname = true;
                if (primary == "(b, c)" && at < 2)
                    return; // tuples are assignment targets
                c.add(e);
            });
}

// `return` and function bodies extend as far to the right as possible.
void greedy() {
    Checker c("greedy");
    for (std::string word : {"return", "func() =", "func(x) ="})
        for (size_t n = 1; n <= (R.thorough ? 3u : 2u); ++n)
            all_sequences(R.thorough && n < 3 ? ops.size() : per_level_two.size(), n, [&](const std::vector<int>& s) {
                std::vector<int> o;
                for (int i : s)
                    o.push_back(R.thorough && n < 3 ? i : per_level_two[size_t(i)]);
                for (size_t at = 0; at <= n; ++at)
                    for (int p = 0; p < 3; ++p) {
                        Expr e = sequence(o);
                        e.units[at].primary = word + " " + e.units[at].primary;
                        e.units[at].greedy = true;
                        if (p == 1)
                            e.units[at].prefix = {"!"};
                        if (p == 2)
                            e.units[at].postfix = {".m"};
                        c.add(e);
                    }
            });
}

void in_contexts() {
    Checker c("context");
    for (auto* ctx : contexts)
        for (size_t n = 1; n <= 2; ++n)
            all_sequences(n == 1 || R.thorough ? ops.size() : per_level_two.size(), n, [&](const std::vector<int>& s) {
                std::vector<int> o;
                for (int i : s)
                    o.push_back(n == 1 || R.thorough ? i : per_level_two[size_t(i)]);
                c.add(sequence(o), ctx);
                Expr e = sequence(o);
                e.units[0].prefix = {"-"};
                e.units[n].postfix = {".m"};
                c.add(e, ctx);
            });
}

} // namespace

void mc::enumerate() {
    units();
    in_contexts();
    greedy();
    binary();
    mixed();
}
