// C05: equality, hashing and ordering are coherent.
#include "common/numbers.hpp"

using namespace mc;
using namespace mc::num;

const char* const mc::check_id = "C05";

namespace {

struct Val {
    std::string expr; // evaluated in the module
    std::string cls;  // equal values have equal classes
    bool literal = false;
    std::optional<Num> num;
    bool nan() const { return num && num->is_float && std::isnan(num->f); }
};

std::string number_class(const Num& n) {
    // integral floats in the range of integers are equal to that integer
    if (n.is_float && n.f == std::trunc(n.f) && n.f >= -9223372036854775808.0 && n.f < 9223372036854775808.0)
        return "n" + std::to_string(int64_t(n.f));
    if (!n.is_float)
        return "n" + std::to_string(n.i);
    return "f" + fmt_float(n.f);
}

const char* prelude = R"(
import std;
import h;
func run(f) {
    const r = std.catch_panic(f);
    if (r.is_success()) { return r.value(); }
    return "panic";
}
func id(x) = x;
func some_function() = 1;
func other_function() = 1;
func build(parts) {
    const b = std.new_string_builder();
    for p in parts { b.append(p); }
    return b.to_string();
}
const shared_array = [1];
const shared_tuple = (1, 2);
const shared_record = (a: 1);
const shared_map = map{};
const shared_exception = std.catch_panic(func() = std.panic("x")).error();
)";

std::vector<Val> values(bool thorough) {
    std::vector<Val> r;
    int unique = 0;
    auto add = [&](std::string e, std::string c, bool lit = false) { r.push_back({e, c, lit, {}}); };
    auto fresh = [&](std::string e) { add(e, "u" + std::to_string(unique++)); };
    add("null", "null", true);
    add("true", "true", true);
    add("false", "false", true);
    for (auto& n : numbers(thorough ? 1 : 0))
        r.push_back({literal(n), number_class(n), true, n});
    // strings: equal by content, however they were produced
    std::string long_text(70, 'x');
    for (std::string text : {std::string(), std::string("a"), std::string("ab"), std::string("ba"), std::string("\xc3\xa4"), std::string("1"), std::string("true"), long_text, long_text + "y"}) {
        std::string q = "\"" + text + "\"", c = "s" + text;
        add(q, c, true);
        size_t mid = text.size() == 2 && uint8_t(text[0]) > 127 ? 2 : text.size() / 2;
        std::string a = text.substr(0, mid), b = text.substr(mid);
        add(fmt::format("id(\"${{id(\"{}\")}}${{id(\"{}\")}}\")", a, b), c);
        add(fmt::format("\"+{}+\".slice(1, {})", text, text.size()), c);
        add(fmt::format("\"{}-\".slice_first({})", text, text.size()), c);
        add(fmt::format("build([\"{}\", \"{}\"])", a, b), c);
        add(fmt::format("\"+{}+\".slice(1, {}).to_string()", text, text.size()), c);
    }
    add("#a", "sym a", true);
    add("#b", "sym b", true);
    add("id(#a)", "sym a");
    // everything else is equal to itself only
    add("shared_array", "shared_array");
    add("id(shared_array)", "shared_array");
    add("shared_tuple", "shared_tuple");
    add("shared_record", "shared_record");
    add("shared_map", "shared_map");
    add("shared_exception", "shared_exception");
    fresh("[1]");
    fresh("[]");
    fresh("(1, 2)");
    fresh("()");
    fresh("(a: 1)");
    fresh("(:)");
    fresh("map{}");
    fresh("set{}");
    fresh("set{1}");
    add("some_function", "some_function");
    add("some_function", "some_function");
    add("other_function", "other_function");
    fresh("(func() = 1)");
    fresh("(func(x) = func() = x)(1)");
    fresh("(func(x) = func() = x)(1)");
    add("std.print", "std.print");
    add("std.print", "std.print");
    add("h.t", "h.t");
    add("std", "std");
    add("h", "h");
    add("std.type_of(1)", "type int");
    add("std.type_of(2)", "type int");
    add("std.type_of(\"\")", "type string");
    fresh("std.success(1)");
    fresh("std.error(1)");
    fresh("std.catch_panic(func() = std.panic(\"x\")).error()");
    fresh("std.new_buffer(3)");
    fresh("std.new_string_builder()");
    fresh("std.launch(some_function)");
    return r;
}

struct Expect {
    std::string eq, ne, rel; // rel: < <= > >=
    bool keys = true;        // compare the map results
};

std::string b2s(bool b) { return b ? "true" : "false"; }

// The four ordering operators.
std::string relations(const Val& a, const Val& b) {
    auto four = [](bool l, bool le, bool g, bool ge) { return fmt::format("{},{},{},{}", l, le, g, ge); };
    if (a.expr == "null" || b.expr == "null") {
        int c = a.expr == b.expr ? 0 : a.expr == "null" ? -1 : 1;
        return four(c < 0, c <= 0, c > 0, c >= 0);
    }
    if (a.num && b.num) {
        auto c = num::compare(*a.num, *b.num);
        if (!c)
            return four(false, false, false, false);
        return four(*c < 0, *c <= 0, *c > 0, *c >= 0);
    }
    return "\"panic\",\"panic\",\"panic\",\"panic\"";
}

std::string ops(const std::string& a, const std::string& b) {
    std::string r;
    for (const char* op : {"==", "!=", "<", "<=", ">", ">="})
        r += fmt::format("{}run(func() = {} {} {})", r.empty() ? "" : ", ", a, op, b);
    return r;
}

void row(const std::vector<Val>& vs, size_t ai) {
    R.exec("row " + vs[ai].expr.substr(0, 60), [&] {
        const Val& a = vs[ai];
        std::string src = prelude, list;
        for (auto& v : vs)
            list += (list.empty() ? "" : ",\n    ") + v.expr;
        src += "const list = [" + list + "];\n";
        src += fmt::format("const row = list[{}];\n", ai);
        src += "export func rt(o) {{ const b = list[o[0]]; const a = row; \n"
               "  const m = map{a: 1}; const c = m.contains(b); const g = m[b]; m[b] = 2; const n = m.size(); m.remove(b);\n"
               "  const s = set{a}; const sc = s.contains(b); const si = s.insert(b); const sn = s.size();\n"
               "  const before = a == b; const l = map{a: 1, b: 2}; const ls = set{b, a};\n"
               "  return [" + ops("a", "b") + ", c, g, n, m.size(), sc, si, sn, l.size(), ls.size(), l[a], l[b], before == (a == b)]; }}\n";
        src.erase(src.find("{{"), 1);
        src.erase(src.find("}}\n", src.find("export func rt")), 1);
        for (size_t i = 0; i < vs.size(); ++i) {
            if (!vs[i].literal)
                continue;
            src += fmt::format("export func mix{}() {{ const a = row; return [{}, {}]; }}\n", i, ops("a", vs[i].expr), ops(vs[i].expr, "a"));
            if (a.literal)
                src += fmt::format("export func lit{}() = [{}];\n", i, ops(a.expr, vs[i].expr));
        }
        Vm vm;
        vm.load_source(src, "m");
        for (size_t i = 0; i < vs.size(); ++i) {
            const Val& b = vs[i];
            bool nan = a.nan() || b.nan();
            bool eq = !nan && a.cls == b.cls;
            auto base = [&](const Val& x, const Val& y) { return fmt::format("{},{},{}", eq, !eq, relations(x, y)); };
            auto expect = [&](const std::string& fn, const std::vector<int64_t>& args, const std::string& expected) {
                H arr(vm), t(vm), v(vm);
                tiro_make_array(vm, args.size(), arr, Err());
                for (int64_t x : args) {
                    tiro_make_integer(vm, x, v, Err());
                    tiro_array_push(vm, arr, v, Err());
                }
                tiro_make_tuple(vm, args.empty() ? 0 : 1, t, Err());
                if (!args.empty())
                    tiro_tuple_set(vm, t, 0, arr, Err());
                Outcome got = vm.call("m", fn, t);
                R.evaluations(6);
                R.transitions(6);
                R.traces();
                R.outcome(expected);
                if (!got.ok || got.value != expected)
                    fail("{}: {} and {}\nexpected {}\nobserved {}", fn, a.expr, b.expr, expected, got.str());
                if (R.want_sample())
                    R.sample(fmt::format("{} {} {} => {}", fn, a.expr, b.expr, expected).substr(0, 300));
            };
            R.states();
            if (eq || relations(a, b)[0] == 't')
                R.nontrivial();
            if (nan && ai == i) {
                // the map behaviour of nan is not specified; only the operators count
            }
            if (nan) {
                std::string e = fmt::format("[{}]", base(a, b));
                if (b.literal)
                    expect(fmt::format("mix{}", i), {}, fmt::format("[{},{}]", base(a, b), base(b, a)));
                if (a.literal && b.literal)
                    expect(fmt::format("lit{}", i), {}, e);
                continue;
            }
            expect("rt", {int64_t(i)},
                fmt::format("[{0},{1},{2},{3},{4},{1},{5},{3},{3},{3},{6},{7},true]", base(a, b), eq, eq ? "1" : "null", eq ? 1 : 2, eq ? 0 : 1, !eq, eq ? 2 : 1, 2));
            if (b.literal)
                expect(fmt::format("mix{}", i), {}, fmt::format("[{},{}]", base(a, b), base(b, a)));
            if (a.literal && b.literal)
                expect(fmt::format("lit{}", i), {}, fmt::format("[{}]", base(a, b)));
        }
    });
}

} // namespace

void mc::enumerate() {
    auto vs = values(R.thorough);
    for (size_t i = 0; i < vs.size(); ++i)
        if (R.claim())
            row(vs, i);
}
