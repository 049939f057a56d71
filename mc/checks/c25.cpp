// C25: every operation on operands of every kind yields a value or a panic that can be caught.
#include <algorithm>
#include <functional>
#include <set>

#include "common/host.hpp"

using namespace mc;

const char* const mc::check_id = "C25";

namespace {

// ---- Operands ----

enum Cat { Null, Bool, Int, Float, Str, Slice, Sym, Arr, Tup, Rec, Schema, Map, Set, Buf, Builder, Func, Mod, Coro, Token, Exc, ResOk, ResErr, Type, Keys, Values, Native };

struct Kind {
    const char* expr;
    Cat cat;
    int params = -1; // of functions
    bool falsy = false;
};

const std::vector<Kind> kinds = {
    {"null", Null, -1, true},
    {"true", Bool},
    {"false", Bool, -1, true},
    {"0", Int},
    {"1", Int},
    {"-1", Int},
    {"9223372036854775807", Int},
    {"1.5", Float},
    {"-0.0", Float},
    {"(std.INFINITY - std.INFINITY)", Float},
    {"\"\"", Str},
    {"\"ab\"", Str},
    {"\"xaby\".slice(1, 2)", Slice},
    {"\"\\u{e9}\".slice(1, 1)", Slice}, // not valid utf8
    {"#sym", Sym},
    {"[]", Arr},
    {"[1, \"ab\"]", Arr},
    {"cyclic()", Arr},
    {"deep()", Arr},
    {"()", Tup},
    {"(1, [2])", Tup},
    {"(:)", Rec},
    {"(a: 1, size: 2)", Rec},
    {"std.schema_of((a: 1))", Schema},
    {"map{}", Map},
    {"map{1: 2, \"ab\": [3]}", Map},
    {"set{}", Set},
    {"set{1, \"ab\"}", Set},
    {"std.new_buffer(0)", Buf},
    {"std.new_buffer(3)", Buf},
    {"builder()", Builder},
    {"func() { return 1; }", Func, 0},
    {"func(a) { return a; }", Func, 1},
    {"closure()", Func, 2},
    {"std.sqrt", Func, -2}, // native with one parameter
    {"[1].append", Func, -3}, // bound method
    {"std.catch_panic", Func, -4},
    {"std.Tuple.size", Func, -5}, // unbound method
    {"g.mkfn(1)", Func, 1},
    {"std", Mod},
    {"g", Mod},
    {"std.current_coroutine()", Coro},
    {"std.coroutine_token()", Token},
    {"std.catch_panic(func() { std.panic(\"msg\"); }).error()", Exc},
    {"std.success(1)", ResOk},
    {"std.error(#e)", ResErr},
    {"std.Array", Type},
    {"map{1: 2}.keys()", Keys},
    {"map{1: 2}.values()", Values},
    {"g.native(7)", Native},
};

const char* const head = R"(
import std; import g; import h;
func cyclic() { const a = [1]; a.append(a); return a; }
func deep() { var a = []; for var i = 0; i < 600; i += 1 { a = [a]; } return a; }
func builder() { const b = std.new_string_builder(); b.append("ab"); return b; }
func closure() { var n = 0; return func(a, b) { n += 1; return (a, b, n); }; }
)";

std::string snap_source() {
    return R"(
func deep_size(a) { var n = 0; var b = a; while (std.type_of(b) == std.Array && b.size() == 1) { b = b[0]; n += 1; } return n; }
export func snap(x) {
    const t = std.type_of(x);
    if (t == std.Map) { const r = []; for (k, v) in x { r.append(k); r.append(v); } return (#map, r); }
    if (t == std.Set) { const r = []; for k in x { r.append(k); } return (#set, r); }
    if (t == std.MapKeyView || t == std.MapValueView) { const r = []; for k in x { r.append(k); } return (#view, r); }
    if (t == std.StringBuilder) { return (#builder, x.to_string()); }
    if (t == std.StringSlice) { return (#slice, x.to_string()); }
    if (t == std.CoroutineToken) { return (#token, x.valid()); }
    if (t == std.NativeObject) { return (#native, g.nval(x)); }
    if (t == std.Array) { return (#array, deep_size(x), x); }
    return x;
}
)";
}

enum Expect { Ok, Panics, Any };

// One operation. $A, $B, $C are the operands.
struct Case {
    std::string body; // statements; the last one is `return ...;`
    std::vector<int> operands;
    Expect expect;
    std::string value; // dump of the result, unless empty
    bool may_modify = false;
};

bool num(const Kind& k) {
    return k.cat == Int || k.cat == Float;
}
bool str(const Kind& k) {
    return k.cat == Str || k.cat == Slice;
}

struct Feeder {
    std::string what;
    size_t limit;
    std::vector<Case> items;
    size_t count = 0;
    bool mine = false;

    explicit Feeder(std::string w, size_t l = 50)
        : what(std::move(w))
        , limit(l) {}
    ~Feeder() noexcept(false) {
        if (!std::uncaught_exceptions())
            flush();
    }
    template<typename F>
    void add(F&& make) {
        if (count == 0)
            mine = R.claim();
        ++count;
        if (mine)
            items.push_back(make());
        if (count == limit)
            flush();
    }
    static std::string text(const Case& c) {
        std::string s = c.body;
        for (size_t i = 0; i < c.operands.size(); ++i) {
            const std::string var = std::string("$") + char('A' + i);
            for (size_t p; (p = s.find(var)) != s.npos;)
                s.replace(p, 2, std::string(1, char('a' + i)));
        }
        return s;
    }
    static std::string describe(const Case& c) {
        std::string s;
        for (size_t i = 0; i < c.operands.size(); ++i)
            s += fmt::format("{} = {}; ", char('a' + i), kinds[size_t(c.operands[i])].expr);
        return s + text(c);
    }
    void flush() {
        count = 0;
        if (items.empty())
            return;
        auto work = std::move(items);
        items.clear();
        R.exec_batch(
            work.size(), [&](size_t i) { return what + " " + describe(work[i]); },
            [&](size_t begin, size_t end) {
                // Twice: operands from opaque function calls, and visible to the optimizer
                std::string src = std::string(head) + snap_source();
                std::set<int> used;
                for (size_t i = begin; i < end; ++i)
                    for (int o : work[i].operands)
                        used.insert(o);
                for (int o : used)
                    src += fmt::format("func mk{}() {{ return {}; }}\n", o, kinds[size_t(o)].expr);
                for (size_t i = begin; i < end; ++i)
                    for (int form = 0; form < 2; ++form) {
                        auto& c = work[i];
                        src += fmt::format("export func f{}_{}() {{\n", i, form);
                        std::string snaps;
                        for (size_t k = 0; k < c.operands.size(); ++k) {
                            src += form ? fmt::format("  const {} = {};\n", char('a' + k), kinds[size_t(c.operands[k])].expr) : fmt::format("  const {} = mk{}();\n", char('a' + k), c.operands[k]);
                            snaps += fmt::format("  h.t(snap({}));\n", char('a' + k));
                        }
                        src += snaps + "  h.t(#op);\n  const r = std.catch_panic(func() { " + text(c) + " });\n  h.t(#done);\n" + snaps;
                        src += "  return if (r.is_success()) { (true, r.value()); } else { (false, r.error()); };\n}\n";
                    }
                XVm vm;
                vm.load_source(src, "m");
                for (size_t i = begin; i < end; ++i) {
                    R.sub(i);
                    auto& c = work[i];
                    for (int form = 0; form < 2; ++form) {
                        vm.log.clear();
                        Outcome got = vm.run("m", fmt::format("f{}_{}", i, form));
                        R.states(1);
                        R.traces(1);
                        R.transitions(1);
                        R.evaluations(1);
                        auto fail = [&](const std::string& d) { R.sub_fail(i, describe(c) + (form ? " (visible operands)" : "") + "\n" + d); };
                        if (!vm.run_error.ok()) {
                            fail("the virtual machine reported " + vm.run_error.message + " " + vm.run_error.details);
                            break;
                        }
                        if (!got.ok) {
                            fail("the panic was not caught: " + got.str());
                            break;
                        }
                        const bool ok = got.value.rfind("(true,", 0) == 0;
                        R.outcome(what + got.value.substr(0, 60));
                        R.nontrivial(ok ? 1 : 0);
                        if (R.want_sample())
                            R.sample(describe(c) + " => " + got.value.substr(0, 200));
                        if (!ok && got.value.rfind("(false,exception(", 0) != 0)
                            fail("caught " + got.value.substr(0, 300) + ", which is not an exception");
                        if ((c.expect == Ok && !ok) || (c.expect == Panics && ok))
                            fail((ok ? "expected a panic, observed " : "expected a value, observed ") + got.value.substr(0, 300));
                        else if (ok && !c.value.empty() && got.value != "(true," + c.value + ")")
                            fail("expected " + c.value + ", observed " + got.value.substr(0, 300));
                        if (!ok || !c.may_modify) {
                            auto mid = std::find(vm.log.begin(), vm.log.end(), "<#op>"), done = std::find(vm.log.begin(), vm.log.end(), "<#done>");
                            if (mid == vm.log.end() || done == vm.log.end() || !std::equal(vm.log.begin(), mid, done + 1, vm.log.end())) {
                                std::string l;
                                for (auto& e : vm.log)
                                    l += e.substr(0, 100) + " ";
                                fail("an operand was modified: " + l);
                            }
                        }
                    }
                }
                // still usable
                vm.load_source("export func f() = 40 + 2;", "after");
                MC_CHECK(vm.run("after", "f").value == "42", "the machine does not work any more");
            });
    }
};

const int N = int(kinds.size());

void operators() {
    Feeder f("operator", 60);
    for (std::string op : {"+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^", "<", "<=", ">", ">=", "==", "!=", "&&", "||", "??"})
        for (int a = 0; a < N; ++a)
            for (int b = 0; b < N; ++b)
                f.add([&] {
                    auto &x = kinds[size_t(a)], &y = kinds[size_t(b)];
                    Case c{"return $A " + op + " $B;", {a, b}, Any, ""};
                    const bool bits = op == "<<" || op == ">>" || op == "&" || op == "|" || op == "^";
                    if (op == "==" || op == "!=" || op == "&&" || op == "||" || op == "??") {
                        c.expect = Ok;
                    } else if (bits) {
                        if (x.cat != Int || y.cat != Int)
                            c.expect = Panics;
                    } else if ((op[0] == '<' || op[0] == '>') && !bits && (x.cat == Null || y.cat == Null)) {
                        c.expect = Ok; // null is ordered before everything else
                        c.value = ((op == "<") ? x.cat == Null && y.cat != Null
                                   : op == "<=" ? x.cat == Null
                                   : op == ">"  ? x.cat != Null
                                                : y.cat == Null)
                                      ? "true"
                                      : "false";
                    } else if (!num(x) || !num(y)) {
                        c.expect = Panics;
                    } else if (x.cat == Float || y.cat == Float || op[0] == '<' || op[0] == '>') {
                        c.expect = Ok;
                    }
                    return c;
                });
    for (std::string op : {"-", "+", "~", "!"})
        for (int a = 0; a < N; ++a)
            f.add([&] {
                auto& x = kinds[size_t(a)];
                Case c{"return " + op + "$A;", {a}, Any, ""};
                if (op == "!") {
                    c.expect = Ok;
                    c.value = x.falsy ? "true" : "false";
                } else {
                    c.expect = op == "~" ? (x.cat == Int ? Ok : Panics) : (num(x) ? Ok : Panics);
                }
                return c;
            });
    // equality is identity or content, and never panics; every value but NaN equals itself
    for (int a = 0; a < N; ++a) {
        f.add([&] { return Case{"return [$A == $A, $A != $A];", {a}, Ok, std::string(kinds[size_t(a)].expr).find("INF") != std::string::npos ? "[false,true]" : "[true,false]"}; });
        f.add([&] { return Case{"return if ($A) { 1; } else { 2; };", {a}, Ok, kinds[size_t(a)].falsy ? "2" : "1"}; });
        f.add([&] { return Case{"while (!!$A) { return 1; } return 2;", {a}, Ok, kinds[size_t(a)].falsy ? "2" : "1"}; });
        f.add([&] { return Case{"assert($A); return 1;", {a}, kinds[size_t(a)].falsy ? Panics : Ok, "1"}; });
        f.add([&] { return Case{"assert($A, \"m\"); return 1;", {a}, kinds[size_t(a)].falsy ? Panics : Ok, "1"}; });
        f.add([&] { return Case{"assert(false, $A); return 1;", {a}, Panics, ""}; });
        f.add([&] { return Case{"var x = $A; x += 1; return 1;", {a}, num(kinds[size_t(a)]) ? (std::string(kinds[size_t(a)].expr).size() > 10 ? Any : Ok) : Panics, "1"}; });
        f.add([&] { return Case{"var x = 1; x -= $A; return 1;", {a}, num(kinds[size_t(a)]) ? Any : Panics, "1"}; });
        f.add([&] { return Case{"return \"<$A>${$A}\".size() > 1;", {a}, Ok, "true"}; });
        f.add([&] { return Case{"return \"<${$A}>\" == \"<${$A}>\";", {a}, Ok, "true"}; });
    }
}

void members() {
    Feeder f("member", 60);
    struct M {
        const char* name;
        std::vector<Cat> cats;
        int args; // additional arguments
        const char* good;
        bool modifies;
    };
    const std::vector<M> methods = {
        {"size", {Str, Slice, Arr, Tup, Map, Set, Buf, Builder}, 0, "", false},
        {"append", {Arr, Builder}, 1, "1", true},
        {"clear", {Arr, Map, Set, Builder}, 0, "", true},
        {"contains", {Str, Slice, Map, Set, Builder}, 1, "\"a\"", false},
        {"keys", {Map}, 0, "", false},
        {"values", {Map}, 0, "", false},
        {"remove", {Map, Set}, 1, "1", true},
        {"insert", {Set}, 1, "5", true},
        {"name", {Coro, Type}, 0, "", false},
        {"coroutine", {Token}, 0, "", false},
        {"valid", {Token}, 0, "", false},
        {"message", {Exc}, 0, "", false},
        {"trace", {Exc}, 0, "", false},
        {"type", {ResOk, ResErr}, 0, "", false},
        {"is_success", {ResOk, ResErr}, 0, "", false},
        {"is_error", {ResOk, ResErr}, 0, "", false},
        {"value", {ResOk}, 0, "", false},
        {"error", {ResErr}, 0, "", false},
        {"slice_first", {Str, Slice}, 1, "1", false},
        {"slice_last", {Str, Slice}, 1, "1", false},
        {"slice", {Str, Slice}, 2, "0, 1", false},
        {"to_string", {Slice, Builder}, 0, "", false},
        {"append_byte", {Builder}, 1, "65", true},
        {"missing", {}, 0, "", false},
        {"a", {}, 0, "", false},
    };
    const char* types[] = {"Array", "Boolean", "Buffer", "Coroutine", "CoroutineToken", "Exception", "Float", "Function", "Map", "MapKeyView", "MapValueView", "Integer", "Module", "NativeObject", "Null", "Record",
        "RecordSchema", "Result", "Set", "String", "StringBuilder", "StringSlice", "Symbol", "Tuple", "Type"};
    auto has = [](const M& m, Cat c) { return std::find(m.cats.begin(), m.cats.end(), c) != m.cats.end(); };
    for (auto& m : methods) {
        const std::string name = m.name;
        const bool result_member = name == "value" || name == "error";
        for (int a = 0; a < N; ++a) {
            auto& x = kinds[size_t(a)];
            const bool rec_field = x.cat == Rec && std::string(x.expr).find(name + ":") != std::string::npos;
            const bool res = x.cat == ResOk || x.cat == ResErr;
            const bool known = has(m, x.cat) || (result_member && res);
            // access
            f.add([&] {
                return Case{"$A." + name + "; return 1;", {a}, x.cat == Mod || x.cat == Type ? Any : known || rec_field ? Ok : Panics, "1"};
            });
            f.add([&] { return Case{"return $A?." + name + ";", {a}, x.cat == Null ? Ok : x.cat == Mod || x.cat == Type ? Any : known || rec_field ? Ok : Panics, x.cat == Null ? "null" : ""}; });
            // assignment
            f.add([&] { return Case{"return $A." + name + " = 5;", {a}, rec_field ? Ok : Panics, rec_field ? "5" : "", rec_field}; });
            f.add([&] { return Case{"return $A." + name + " += 5;", {a}, rec_field ? Ok : Panics, "", rec_field}; });
            // calls
            f.add([&] {
                Case c{std::string("return $A.") + name + "(" + m.good + ");", {a}, x.cat == Type ? Any : has(m, x.cat) ? Ok : Panics, "", m.modifies};
                return c;
            });
            f.add([&] { return Case{std::string("return $A?.") + name + "(" + m.good + ");", {a}, x.cat == Null ? Ok : x.cat == Type ? Any : has(m, x.cat) ? Ok : Panics, "", m.modifies}; });
            // too few arguments
            if (m.args && !(name == "append" && x.cat == Builder))
                f.add([&] { return Case{"return $A." + name + "();", {a}, Panics, ""}; });
            // as a bound function
            f.add([&] {
                return Case{std::string("const f = $A.") + name + "; return f(" + m.good + ");", {a}, x.cat == Mod || x.cat == Type ? Any : has(m, x.cat) ? Ok : Panics, "", m.modifies};
            });
            // arguments of all kinds
            if (m.args == 1 && known)
                for (int b = 0; b < N; ++b)
                    f.add([&] {
                        auto& y = kinds[size_t(b)];
                        Case c{"return $A." + name + "($B);", {a, b}, Any, "", m.modifies};
                        if (name == "append" || ((name == "contains" || name == "remove" || name == "insert") && (x.cat == Map || x.cat == Set)))
                            c.expect = std::string(y.expr).find("INF") != std::string::npos ? Any : Ok;
                        else if (name == "contains")
                            c.expect = str(y) ? Ok : Panics;
                        else if (name == "append_byte")
                            c.expect = y.cat == Int && (std::string(y.expr) == "0" || std::string(y.expr) == "1") ? Ok : Panics;
                        else if (y.cat != Int)
                            c.expect = Panics;
                        return c;
                    });
            if (m.args == 2 && known)
                for (int b = 0; b < N; ++b)
                    for (int k = 0; k < N; ++k)
                        if (b == 4 || k == 4 || b == k)
                            f.add([&] { return Case{"return $A." + name + "($B, $C);", {a, b, k}, kinds[size_t(b)].cat != Int || kinds[size_t(k)].cat != Int ? Panics : Any, ""}; });
        }
        // methods of types as functions, with every kind of instance
        for (auto t : types)
            for (int a = 0; a < N; ++a)
                f.add([&] {
                    auto& x = kinds[size_t(a)];
                    const std::string T = t;
                    auto cat_of = [&](Cat c) {
                        switch (c) {
                        case Str: return "String";
                        case Slice: return "StringSlice";
                        case Arr: return "Array";
                        case Tup: return "Tuple";
                        case Map: return "Map";
                        case Set: return "Set";
                        case Buf: return "Buffer";
                        case Builder: return "StringBuilder";
                        case Coro: return "Coroutine";
                        case Token: return "CoroutineToken";
                        case Exc: return "Exception";
                        case ResOk:
                        case ResErr: return "Result";
                        case Type: return "Type";
                        default: return "";
                        }
                    };
                    const bool fits = has(m, x.cat) && cat_of(x.cat) == T;
                    return Case{fmt::format("return std.{}.{}($A{}{});", T, name, *m.good ? ", " : "", m.good), {a}, fits ? Ok : T == "Type" ? Any : Panics, "", m.modifies};
                });
    }
}

void accesses() {
    Feeder f("access", 60);
    for (int a = 0; a < N; ++a) {
        auto& x = kinds[size_t(a)];
        const bool indexable = x.cat == Arr || x.cat == Tup || x.cat == Buf || x.cat == Map;
        for (int b = 0; b < N; ++b) {
            auto& y = kinds[size_t(b)];
            const bool nan = std::string(y.expr).find("INF") != std::string::npos;
            auto expect = [&, a, b](bool write) {
                if (!indexable)
                    return Panics;
                if (x.cat == Map)
                    return write && nan ? Any : Ok;
                if (y.cat != Int)
                    return Panics;
                return Any;
            };
            f.add([&] { return Case{"return $A[$B];", {a, b}, expect(false), ""}; });
            f.add([&] { return Case{"return $A?[$B];", {a, b}, x.cat == Null ? Ok : expect(false), ""}; });
            f.add([&] { return Case{"return $A[$B] = 7;", {a, b}, expect(true), "", indexable}; });
            f.add([&] { return Case{"return $A[$B] += 7;", {a, b}, x.cat == Map ? Any : expect(true), "", indexable}; });
            // stored values of all kinds
            f.add([&] {
                const bool bytes = x.cat == Buf;
                return Case{"return $A[1] = $B;", {a, b}, !indexable ? Panics : bytes && y.cat != Int ? Panics : Any, "", indexable};
            });
            // as keys
            f.add([&] { return Case{"const m = map{ $A: $B }; return m.size();", {a, b}, Ok, "1"}; });
            f.add([&] { return Case{"const m = set{ $A, $B }; return m.size() > 0;", {a, b}, Ok, "true"}; });
        }
        // tuple fields and destructuring
        const int tuple = x.cat == Tup ? (std::string(x.expr) == "()" ? 0 : 2) : -1;
        for (int n : {0, 1, 2, 5}) {
            f.add([&] { return Case{fmt::format("return $A.{};", n), {a}, tuple > n ? Ok : Panics, ""}; });
            f.add([&] { return Case{fmt::format("return $A?.{};", n), {a}, x.cat == Null || tuple > n ? Ok : Panics, ""}; });
            f.add([&] { return Case{fmt::format("return $A.{} = 1;", n), {a}, tuple > n ? Ok : Panics, "", tuple > n}; });
            f.add([&] { return Case{fmt::format("return $A.{} += 1;", n), {a}, tuple > n && n == 0 ? Ok : Panics, "", tuple > n && n == 0}; });
        }
        for (int n = 1; n <= 3; ++n)
            for (int form = 0; form < 3; ++form)
                f.add([&] {
                    std::string vars = n == 1 ? "p," : n == 2 ? "p, q" : "p, q, s";
                    std::string body = form == 0 ? "const (" + vars + ") = $A; return 1;" : form == 1 ? "var p = 0; var q = 0; var s = 0; (" + vars + ") = $A; return 1;" : "for (" + vars + ") in [$A] { return 1; } return 0;";
                    return Case{body, {a}, tuple >= n ? Ok : tuple < 0 ? Panics : Any, tuple >= n ? "1" : ""};
                });
        // iteration
        const bool iterable = x.cat == Str || x.cat == Slice || x.cat == Arr || x.cat == Tup || x.cat == Map || x.cat == Set || x.cat == Keys || x.cat == Values;
        f.add([&] { return Case{"var n = 0; for x in $A { n += 1; } return n;", {a}, iterable ? Ok : Panics, ""}; });
        f.add([&] { return Case{"var n = 0; for (k, v) in $A { n += 1; } return n;", {a}, x.cat == Map ? Ok : iterable ? Any : Panics, ""}; });
        f.add([&] { return Case{"for x in $A { return 1; } return 0;", {a}, iterable ? Ok : Panics, ""}; });
    }
}

void calls() {
    Feeder f("call", 60);
    for (int a = 0; a < N; ++a) {
        auto& x = kinds[size_t(a)];
        const char* args[] = {"", "1", "1, 2", "1, 2, 3"};
        for (int n = 0; n < 4; ++n) {
            auto expect = [&] {
                if (x.cat != Func)
                    return Panics;
                switch (x.params) {
                case -2: // native
                case -3:
                    return n < 1 ? Panics : n == 1 ? Ok : Any;
                case -4: // catch_panic
                    return n < 1 ? Panics : n == 1 ? Ok : Any;
                case -5:
                    return Panics; // 1 is not a tuple
                default:
                    return n == x.params ? Ok : n < x.params ? Panics : std::string(x.expr)[0] == 'g' ? Any : Panics;
                }
            };
            f.add([&] { return Case{std::string("return $A(") + args[n] + ");", {a}, expect(), "", true}; });
            f.add([&] { return Case{std::string("return $A?(") + args[n] + ");", {a}, x.cat == Null ? Ok : expect(), "", true}; });
            f.add([&] { return Case{std::string("const c = std.launch($A") + (n ? ", " : "") + args[n] + "); return std.type_of(c) == std.Coroutine;", {a}, Ok, "true", true}; });
            f.add([&] { return Case{std::string("const t = std.catch_panic($A); return t.is_success() || t.is_error();"), {a}, Ok, "true", true}; });
            f.add([&] { return Case{std::string("const r = [$A]; return r[0](") + args[n] + ");", {a}, expect(), "", true}; });
            f.add([&] { return Case{std::string("const r = (f: $A); return r.f(") + args[n] + ");", {a}, expect(), "", true}; });
        }
    }
    // every kind as argument of every function
    struct F {
        const char* name;
        int params;
        std::function<Expect(const Kind&)> expect;
    };
    auto numeric = [](const Kind& k) { return num(k) ? Ok : Panics; };
    auto always = [](const Kind&) { return Ok; };
    std::vector<F> functions = {
        {"std.print", 0, always},
        {"std.debug_repr", 1, always},
        {"std.loop_timestamp", 0, always},
        {"std.to_utf8", 1, [](const Kind& k) { return k.cat == Str ? Ok : k.cat == Slice ? Any : Panics; }},
        {"std.type_of", 1, always},
        {"std.schema_of", 1, [](const Kind& k) { return k.cat == Rec ? Ok : Panics; }},
        {"std.success", 1, always},
        {"std.error", 1, always},
        {"std.panic", 1, [](const Kind&) { return Panics; }},
        {"std.current_coroutine", 0, always},
        {"std.coroutine_token", 0, always},
        {"std.dispatch", 0, always},
        {"std.new_string_builder", 0, always},
        {"std.new_buffer", 1, [](const Kind& k) { return k.cat == Int ? Any : Panics; }},
    };
    for (auto n : {"abs", "log", "sqrt", "round", "ceil", "floor", "sin", "cos", "tan", "asin", "acos", "atan"}) {
        static std::vector<std::string> names;
        names.reserve(20);
        names.push_back(std::string("std.") + n);
        functions.push_back({names.back().c_str(), 1, numeric});
    }
    for (auto& fn : functions) {
        const std::string name = fn.name;
        if (fn.params)
            f.add([&] { return Case{"return " + name + "();", {}, Panics, ""}; });
        else
            f.add([&] { return Case{name + "(); return 1;", {}, Ok, "1"}; });
        for (int a = 0; a < N; ++a) {
            auto& x = kinds[size_t(a)];
            if (name == "std.new_buffer" && std::string(x.expr).size() > 10 && x.cat == Int)
                continue; // exhausts the memory
            f.add([&] { return Case{name + "($A); return 1;", {a}, fn.params ? fn.expect(x) : Any, "", name == "std.panic" || name == "std.dispatch"}; });
            for (int b = 0; b < N; ++b)
                f.add([&] { return Case{name + "($A, $B); return 1;", {a, b}, Any, "", name == "std.panic" || name == "std.dispatch"}; });
        }
    }
    for (int a = 0; a < N; ++a)
        for (int b = 0; b < N; ++b)
            f.add([&] { return Case{"std.pow($A, $B); return 1;", {a, b}, num(kinds[size_t(a)]) && num(kinds[size_t(b)]) ? Ok : Panics, ""}; });
    for (int n : {10, 500, 511, 512, 513, 1000, 5000, 20000, 100000})
        for (std::string form : {"a = [a];", "a = (a, 1);", "a = (x: a);", "a = map{1: a};", "a = set{a};", "a = std.success(a);", "a = std.error(a);", "a = [[], a];"})
            for (std::string pretty : {"", ", true"})
                for (std::string consumer : std::vector<std::string>{"std.debug_repr(a" + pretty + ").size()", "\"$a\".size()", "({ const b = std.new_string_builder(); b.append(a); b.size(); })", "({ std.print(a); 1; })"}) {
                    if (n > 5000 && pretty != "")
                        continue; // the indentation needs quadratic space
                    f.add([&] { return Case{fmt::format("var a = 1; for var i = 0; i < {}; i += 1 {{ {} }} return {} > 0;", n, form, consumer), {}, consumer.find("debug") != consumer.npos || consumer.find("print") != consumer.npos ? Ok : Any, ""}; });
                }
    // representations of all kinds, alone and nested
    for (int a = 0; a < N; ++a)
        for (std::string form : {"$A", "[$A]", "($A, $A)", "(a: $A)", "map{ $A: $A }", "set{ $A }", "std.success($A)", "std.error([$A])", "func() { return $A; }"})
            for (std::string pretty : {"", ", true", ", false", ", null"})
                f.add([&] { return Case{"const r = std.debug_repr(" + form + pretty + "); std.print(" + form + "); return std.type_of(r) == std.String && r.size() > 0;", {a}, Ok, "true"}; });
}

// Panics inside of panics: caught, rethrown, in deferred expressions and nested catches
void catching() {
    Feeder f("catching", 40);
    const std::vector<std::string> bad = {"$A.missing_", "$A.missing_()", "$A.missing_ = 1", "$A[$A] += $A", "-(-$A) + [$A]", "(std.panic)($A)", "({ assert($A == $A && false, \"msg ${$A}\"); $A; })", "std.Array.append($A == 1, 1)", "$A.0.0.0.0"};
    const std::vector<std::string> forms = {
        "return $B;",
        "std.catch_panic(func() = $B); return $B;",
        "defer std.catch_panic(func() = $B); return $B;",
        "{ defer $B; $B; } return 1;",
        "const r = std.catch_panic(func() { defer $B; $B; }); return std.panic(r.error());",
        "for x in [1, 2] { defer $B; } return 1;",
        "const r = std.catch_panic(func() { return std.catch_panic(func() = $B); }); return std.panic(r.value().error());",
        "return [1, (2, $B), 3];",
        "return \"a${$B}b\";",
        "return (func(x) { return x; })($B);",
        "return map{1: $B};",
        "return set{$B};",
        "return (a: 1, b: $B);",
        "return $B && true;",
        "return if ($B) { 1; } else { 2; };",
        "while ($B) { } return 1;",
        "for x in $B { } return 1;",
        "return { 1; 2; $B; };",
        "var x = 1; x = $B; return x;",
        "const a = [1]; a[$B] = 2; return a;",
        "const a = [1]; a[0] = $B; return a;",
        "const a = [1]; a.append($B); return a;",
        "return std.success($B);",
        "return (1, 2) == $B;",
    };
    for (auto& form : forms)
        for (auto& e : bad)
            for (int a = 0; a < N; ++a) {
                const std::string& s = kinds[size_t(a)].expr;
                f.add([&] {
                    std::string body = form;
                    for (size_t p; (p = body.find("$B")) != body.npos;)
                        body.replace(p, 2, "(" + e + ")");
                    (void) s;
                    return Case{body, {a}, e[0] == '$' && e[2] == '[' ? Any : Panics, "", e[0] == '$' && e[2] == '['};
                });
            }
}

} // namespace

void mc::enumerate() {
    operators();
    members();
    accesses();
    calls();
    catching();
}
