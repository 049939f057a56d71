// C06: arithmetic is exact or panics, folded or not.
#include "common/numbers.hpp"

using namespace mc;
using namespace mc::num;

const char* const mc::check_id = "C06";

namespace {

const char* prelude = R"(
import std;
func run(f) {
    const r = std.catch_panic(f);
    if (r.is_success()) { return r.value(); }
    return "panic";
}
)";

std::string show(const Value& v) { return v ? dump(*v) : "\"panic\""; }

void call_and_compare(Vm& vm, const std::string& fn, const std::string& what, const std::vector<Num>& operands, const std::string& expected,
    size_t modes, const std::string& source_of_fn) {
    H args(vm);
    tiro_make_tuple(vm, operands.size(), args, Err());
    for (size_t i = 0; i < operands.size(); ++i)
        tiro_tuple_set(vm, args, i, make(vm, operands[i]), Err());
    Outcome got = vm.call("m", fn, args);
    R.states();
    R.traces();
    R.evaluations(modes);
    R.transitions(modes);
    R.outcome(expected);
    if (!got.ok || got.value != expected)
        fail("{}\n{}\nexpected {}\nobserved {}", what, source_of_fn, expected, got.str());
    R.nontrivial();
    if (R.want_sample())
        R.sample(what + " => " + expected);
}

std::string repeat(const std::string& s, size_t n) {
    std::string r = "[";
    for (size_t i = 0; i < n; ++i)
        r += (i ? "," : "") + s;
    return r + "]";
}

struct Fn {
    std::string name, source, what;
    std::vector<Num> operands;
    std::string expected;
    size_t modes;
};

void run_module(const std::string& key, const std::vector<Fn>& fns) {
    R.exec(key, [&] {
        std::string src = prelude;
        for (auto& f : fns)
            src += f.source;
        Vm vm;
        vm.load_source(src, "m");
        for (auto& f : fns)
            call_and_compare(vm, f.name, f.what, f.operands, f.expected, f.modes, f.source);
    });
}

void binary_ops(const std::vector<Num>& values) {
    for (std::string op : {"+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^"}) {
        bool assign = op == "+" || op == "-" || op == "*" || op == "/" || op == "%" || op == "**";
        for (auto& a : values) {
            if (!R.claim())
                continue;
            std::vector<Fn> fns;
            for (size_t i = 0; i < values.size(); ++i) {
                auto& b = values[i];
                std::string la = literal(a), lb = literal(b);
                Fn f;
                f.name = fmt::format("f{}", i);
                f.what = fmt::format("{} {} {}", dump(a), op, dump(b));
                f.operands = {a, b};
                f.modes = assign ? 8 : 6;
                f.expected = repeat(show(binary(op, a, b)), f.modes);
                f.source = fmt::format(
                    "export func {0}(a, b) {{\n return [run(func() = {1} {2} {3}), run(func() = a {2} b), run(func() = {1} {2} b), run(func() = a {2} {3}),\n"
                    "  run(func() {{ const x = {1}; const y = {3}; return x {2} y; }}), run(func() {{ var x = b; x = a {2} x; return x; }})",
                    f.name, la, op, lb);
                if (assign)
                    f.source += fmt::format(
                        ",\n  run(func() {{ var x = {0}; x {1}= {2}; return x; }}), run(func() {{ var x = a; return x {1}= b; }})", la, op, lb);
                f.source += "];\n}\n";
                fns.push_back(f);
            }
            run_module(fmt::format("{} {}", dump(a), op), fns);
        }
    }
}

void unary_ops(const std::vector<Num>& values) {
    for (std::string op : {"+", "-", "~"}) {
        R.run("unary " + op, [&] {
            std::string src = prelude;
            std::vector<std::string> sources;
            for (size_t i = 0; i < values.size(); ++i) {
                sources.push_back(fmt::format("export func f{}(a) = [run(func() = {}{}), run(func() = {}a), run(func() {{ var x = a; x = {}x; return x; }})];\n", i, op,
                    literal(values[i]), op, op));
                src += sources.back();
            }
            Vm vm;
            vm.load_source(src, "m");
            for (size_t i = 0; i < values.size(); ++i)
                call_and_compare(vm, fmt::format("f{}", i), op + " " + dump(values[i]), {values[i]}, repeat(show(unary(op, values[i])), 3), 3, sources[i]);
        });
    }
}

// Operands of other kinds: every operator panics.
void other_kinds(const std::vector<Num>& all) {
    std::vector<Num> values = {all[0], I(2), F(1.5)};
    std::vector<std::string> others = {"null", "true", "false", "\"1\"", "#a", "()", "(1,)", "[]", "[1]", "map{}", "set{}", "(:)", "std.pow", "\"1$x\"", "\"123\".slice_first(2)",
        "std.new_buffer(1)", "std.success(1)"};
    for (std::string op : {"+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^", "u+", "u-", "u~"}) {
        if (!R.claim())
            continue;
        std::vector<Fn> fns;
        for (auto& o : others) {
            Fn f;
            f.name = fmt::format("f{}", fns.size());
            f.what = op + " " + o;
            f.operands = {I(1), F(2)};
            if (op[0] == 'u') {
                f.modes = 2;
                f.source = fmt::format("export func {}(x, y) {{ const o = {}; return [run(func() = {}o), run(func() = {}({}))]; }}\n", f.name, o, op[1], op[1], o);
            } else {
                f.modes = 8 + 3 * values.size() * 2;
                f.source = fmt::format("export func {0}(x, y) {{ const o = {1}; return [run(func() = o {2} x), run(func() = x {2} o), run(func() = o {2} y), run(func() = y {2} o), "
                                       "run(func() = o {2} o), run(func() = ({1}) {2} ({1})), run(func() = null {2} o), run(func() = o {2} null)",
                    f.name, o, op);
                for (auto& v : values)
                    f.source += fmt::format(", run(func() = ({1}) {2} {0}), run(func() = {0} {2} ({1})), run(func() = o {2} {0}), run(func() = {0} {2} o), "
                                            "run(func() {{ const p = {1}; return p {2} {0}; }}), run(func() {{ const p = {1}; return {0} {2} p; }})",
                        literal(v), o, op);
                f.source += "]; }\n";
            }
            f.expected = repeat("\"panic\"", f.modes);
            fns.push_back(f);
        }
        run_module("other kinds " + op, fns);
    }
}

struct MathFn {
    const char* name;
    double (*fn)(double);
};

void math_functions(const std::vector<Num>& values) {
    static const MathFn fns[] = {{"abs", [](double x) { return std::fabs(x); }}, {"log", [](double x) { return std::log(x); }}, {"sqrt", [](double x) { return std::sqrt(x); }},
        {"round", [](double x) { return std::round(x); }}, {"ceil", [](double x) { return std::ceil(x); }}, {"floor", [](double x) { return std::floor(x); }},
        {"sin", [](double x) { return std::sin(x); }}, {"cos", [](double x) { return std::cos(x); }}, {"tan", [](double x) { return std::tan(x); }},
        {"asin", [](double x) { return std::asin(x); }}, {"acos", [](double x) { return std::acos(x); }}, {"atan", [](double x) { return std::atan(x); }}};
    for (auto& m : fns) {
        if (!R.claim())
            continue;
        std::vector<Fn> list;
        for (auto& v : values) {
            Fn f;
            f.name = fmt::format("f{}", list.size());
            f.what = fmt::format("{}({})", m.name, dump(v));
            f.operands = {v};
            f.modes = 2;
            f.source = fmt::format("export func {}(a) = [std.{}(a), std.{}({})];\n", f.name, m.name, m.name, literal(v));
            f.expected = repeat(dump(F(m.fn(v.as_float()))), 2);
            list.push_back(f);
        }
        run_module(fmt::format("std.{}", m.name), list);
    }
    for (auto& a : values) {
        if (!R.claim())
            continue;
        std::vector<Fn> list;
        for (auto& b : values) {
            Fn f;
            f.name = fmt::format("f{}", list.size());
            f.what = fmt::format("pow({}, {})", dump(a), dump(b));
            f.operands = {a, b};
            f.modes = 1;
            f.source = fmt::format("export func {}(a, b) = [std.pow(a, b)];\n", f.name);
            f.expected = repeat(dump(F(std::pow(a.as_float(), b.as_float()))), 1);
            list.push_back(f);
        }
        run_module(fmt::format("std.pow {}", dump(a)), list);
    }
    R.run("std.PI", [&] {
        Vm vm;
        vm.load_source("import std; export func f() = [std.PI, std.E, std.TAU, std.INFINITY];", "m");
        Outcome o = vm.call("m", "f");
        MC_CHECK(o.ok && o.value == fmt::format("[f{},f{},f{},f{}]", fmt_float(M_PI), fmt_float(M_E), fmt_float(2 * M_PI), fmt_float(INFINITY)), "constants {}", o.str());
        R.evaluations();
    });
}

// The host's view of numbers.
void conversions(const std::vector<Num>& values) {
    R.run("conversions", [&] {
        Vm vm;
        for (auto& v : values) {
            H h = make(vm, v);
            MC_CHECK(tiro_value_kind(vm, h) == (v.is_float ? TIRO_KIND_FLOAT : TIRO_KIND_INTEGER), "kind of {}", dump(v));
            double f = tiro_float_value(vm, h);
            MC_CHECK(dump(F(f)) == dump(F(v.as_float())), "float value of {} is {}", dump(v), dump(F(f)));
            R.evaluations();
            if (!v.is_float || (v.f > -9223372036854775808.0 && v.f < 9223372036854775808.0)) {
                int64_t expected = v.is_float ? int64_t(std::trunc(v.f)) : v.i;
                int64_t i = tiro_integer_value(vm, h);
                MC_CHECK(i == expected, "integer value of {} is {}", dump(v), i);
                R.evaluations();
            }
            R.nontrivial();
        }
    });
}

// Chains of two operators: intermediate results are folded too.
void chains(const std::vector<Num>& values) {
    static const std::vector<std::string> ops = {"+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^"};
    for (auto& o1 : ops) {
        for (auto& o2 : ops) {
            for (auto& a : values) {
                if (!R.claim())
                    continue;
                std::vector<Fn> fns;
                for (auto& b : values) {
                    for (auto& c : values) {
                        auto ab = binary(o1, a, b);
                        Value left = ab ? binary(o2, *ab, c) : Value();
                        auto bc = binary(o2, b, c);
                        Value right = bc ? binary(o1, a, *bc) : Value();
                        Fn f;
                        f.name = fmt::format("f{}", fns.size());
                        f.what = fmt::format("{} {} {} {} {}", dump(a), o1, dump(b), o2, dump(c));
                        f.operands = {a, b, c};
                        f.modes = 8;
                        std::string l = show(left), r = show(right);
                        f.expected = fmt::format("[{0},{0},{0},{0},{1},{1},{1},{1}]", l, r);
                        std::string la = literal(a), lb = literal(b), lc = literal(c);
                        f.source = fmt::format("export func {0}(a, b, c) = [run(func() = ({1} {4} {2}) {5} {3}), run(func() = (a {4} b) {5} c), run(func() = ({1} {4} {2}) {5} c), run(func() = (a {4} {2}) {5} {3}),"
                                               "run(func() = {1} {4} ({2} {5} {3})), run(func() = a {4} (b {5} c)), run(func() = a {4} ({2} {5} {3})), run(func() = {1} {4} (b {5} {3}))];\n",
                            f.name, la, lb, lc, o1, o2);
                        fns.push_back(f);
                    }
                }
                run_module(fmt::format("{} {} {}", dump(a), o1, o2), fns);
            }
        }
    }
}

} // namespace

void mc::enumerate() {
    auto values = numbers(R.thorough ? 2 : 1);
    unary_ops(numbers(2));
    conversions(numbers(2));
    math_functions(numbers(R.thorough ? 1 : 0));
    other_kinds(values);
    binary_ops(values);
    constexpr int64_t min = std::numeric_limits<int64_t>::min(), max = std::numeric_limits<int64_t>::max();
    std::vector<Num> small = {I(0), I(1), I(-1), I(2), I(63), I(max), I(min), F(0.5), F(-0.0)};
    if (R.thorough)
        for (auto n : {I(3), I(-2), I(64), I(int64_t(1) << 53), F(0.0), F(9007199254740992.0)})
            small.push_back(n);
    chains(small);
}
