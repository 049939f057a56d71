// C11: deferred expressions, panics and their propagation.
#include "common/batch.hpp"
#include "common/build.hpp"

using namespace mc;
using namespace nb;

const char* const mc::check_id = "C11";

namespace {

N pan(std::string s) { return stdc("panic", {str(std::move(s))}); }
N inc() { return ex(opasg("+", v("x"), i(1))); }

// catch_panic(func() { b }), the outcome is logged
N caught(N b) {
    L c = b->c;
    return ex(t(stdc("catch_panic", {fn({}, block(c))})));
}

void emit(ProgramBatch& b, const L& blk, int form) {
    Scratch scratch;
    Node inner(K::Block, blk);
    const bool brk = has_break(&inner);
    L pre = {var("x", t(i(1))), var("n", i(0)),
        var("g", fn({"at"}, block({ex(iff(bin("==", v("x"), v("at")), block({ex(pan("g"))}))), ex(ret(t(v("x"))))})))};
    N loop = brk ? wh(bin("<", v("n"), i(2)), block(cat({ex(opasg("+", v("n"), i(1)))}, blk))) : nullptr;
    L body = brk ? L{loop} : blk;
    L s = pre;
    if (form == 0) {
        s.push_back(defer(t(v("x"))));
        s.insert(s.end(), body.begin(), body.end());
        s.push_back(ex(t(i(80))));
        s.push_back(ex(ret(v("x"))));
    } else if (form == 1) {
        // called by a function with deferred expressions of its own, caught above
        L f = body;
        f.push_back(ex(ret(v("x"))));
        s.push_back(var("f", fn({}, block(f))));
        s.push_back(var("outer", fn({}, block({defer(t(bin("+", v("x"), i(100)))), ex(ret(tuple({call(v("f")), i(1)})))}))));
        s.push_back(var("r", stdc("catch_panic", {v("outer")})));
        s.push_back(ex(t(i(81))));
        s.push_back(ex(ret(tuple({v("r"), v("x")}))));
    }
    Node prog(K::Block, s);
    b.add(prog);
}

void grammar(const Grammar& g, size_t from, size_t to, int forms = 2) {
    ProgramBatch b(48);
    for (size_t n = from; n <= to; ++n)
        for (int form = 0; form < forms; ++form)
            g.each(n, [&](const L& blk) { emit(b, blk, form); });
}

void structured() {
    Grammar g;
    g.leaves = {defer(t(i(11))), defer(t(v("x"))), inc(), ex(call(v("g"), {i(2)})), ex(pan("p")), ex(brk()), ex(cont()),
        ex(ret(t(v("x")))), defer(pan("d")), defer(opasg("*", v("x"), i(3)))};
    g.wrap1 = {[](N b) { return ex(b); },
        [](N b) { return wh(bin("<", v("n"), i(2)), block(cat({ex(opasg("+", v("n"), i(1)))}, b->c))); },
        [](N b) { return ex(iff(bin("<", v("x"), i(2)), b)); },
        [](N b) { return has_break(b) ? nullptr : caught(b); },
        [](N b) { return has_break(b) ? nullptr : ex(call(fn({}, b))); },
        [](N b) { return leaves_by_jump(b) ? nullptr : defer(b); }};
    grammar(g, 1, R.thorough ? 4 : 3);
    // larger programs without some of the forms
    Grammar h;
    h.leaves = {defer(t(i(11))), inc(), ex(call(v("g"), {i(2)})), ex(ret(v("x")))};
    h.wrap1 = {g.wrap1[0], g.wrap1[1], g.wrap1[3], g.wrap1[5]};
    h.wrap1.push_back([](N b) { return foreach("e", array({i(1), i(2)}), b); });
    grammar(h, R.thorough ? 5 : 4, R.thorough ? 6 : 5);
}

// Straight line code: every order of deferrals, variable changes and operations that may panic.  What a deferred
// expression observes is the most recent value of each variable.
void visible_values() {
    Grammar g;
    g.leaves = {defer(t(tuple({v("x"), v("y")}))), ex(opasg("+", v("x"), i(1))), ex(asg(v("y"), v("x"))),
        ex(tupasg({v("x"), v("y")}, tuple({v("y"), v("x")}))), ex(call(v("g"), {i(2)})), ex(call(v("g"), {i(5)})),
        ex(iff(bin("<", v("x"), i(2)), block({ex(asg(v("y"), i(9)))}), block({ex(opasg("+", v("x"), i(4)))})))};
    const size_t len = R.thorough ? 6 : 5;
    ProgramBatch b(48);
    for (size_t n = 2; n <= len; ++n)
        g.each(n, [&](const L& blk) {
            for (int form = 0; form < (n == len ? 1 : 3); ++form) {
                Scratch scratch;
                L s = {var("x", t(i(1))), var("y", i(5)), var("n", i(0)),
                    var("g", fn({"at"}, block({ex(iff(bin("==", v("x"), v("at")), block({ex(pan("g"))}))), ex(ret(i(0)))})))};
                L body = blk;
                if (form == 1)
                    body = {wh(bin("<", v("n"), i(2)), block(cat({ex(opasg("+", v("n"), i(1)))}, blk)))};
                if (form == 2) // locals of an inner scope are visible to its deferred expressions
                    body = {ex(block(cat({var("w", v("x")), defer(t(v("w"))), ex(opasg("+", v("w"), i(1)))}, blk)))};
                s.insert(s.end(), body.begin(), body.end());
                s.push_back(ex(ret(tuple({v("x"), v("y")}))));
                if (form < 2) {
                    // x and y are not captured in one variant: call a host function that panics instead
                    Node prog(K::Block, s);
                    b.add(prog);
                }
                // without closures: the panic comes from an operator
                L s2 = {var("x", t(i(1))), var("y", t(i(5))), var("n", i(0))};
                L body2;
                for (N st : blk) {
                    if (st == g.leaves[4])
                        body2.push_back(ex(bin("/", i(1), bin("-", v("x"), i(2)))));
                    else if (st == g.leaves[5])
                        body2.push_back(ex(bin("+", v("x"), bin("/", i(1), bin("-", v("x"), i(5))))));
                    else
                        body2.push_back(st);
                }
                if (form == 1)
                    body2 = {wh(bin("<", v("n"), i(2)), block(cat({ex(opasg("+", v("n"), i(1)))}, body2)))};
                if (form == 2)
                    body2 = {ex(block(cat({var("w", v("x")), defer(t(v("w"))), ex(opasg("+", v("w"), i(1)))}, body2)))};
                s2.insert(s2.end(), body2.begin(), body2.end());
                s2.push_back(ex(ret(tuple({v("x"), v("y")}))));
                Node prog2(K::Block, s2);
                b.add(prog2);
            }
        });
}

// Variables that are not captured live in registers: whatever path was taken to the operation that panics, a deferred
// expression observes their latest values.
void observed_paths() {
    Grammar g;
    g.leaves = {defer(t(tuple({v("x"), v("y")}))), ex(opasg("+", v("x"), i(1))), ex(asg(v("y"), v("x"))),
        ex(tupasg({v("x"), v("y")}, tuple({v("y"), v("x")}))), ex(bin("/", i(1), bin("-", v("x"), i(3)))),
        ex(iff(bin("==", v("x"), i(2)), block({ex(brk())}))), ex(cont()), defer(opasg("*", v("y"), i(2)))};
    auto loop = [](const std::string& n) {
        return [n](N b) {
            return ex(block({var(n, i(0)), wh(bin("<", v(n), i(2)), block(cat({ex(opasg("+", v(n), i(1)))}, b->c)))}));
        };
    };
    g.wrap1 = {loop("n"), [](N b) { return ex(iff(bin("<", v("x"), i(2)), b)); }, [](N b) { return ex(block(b->c)); }};
    g.wrap2 = {[](N a, N b) { return ex(iff(bin("<", v("x"), v("y")), a, b)); }};
    ProgramBatch b(48);
    for (size_t n = 2; n <= (R.thorough ? 5u : 4u); ++n)
        g.each(n, [&](const L& blk) {
            Scratch scratch;
            Node inner(K::Block, blk);
            L body = has_break(&inner) ? L{loop("o")(&inner)} : blk;
            L s = {var("x", t(i(1))), var("y", t(i(5)))};
            s.insert(s.end(), body.begin(), body.end());
            s.push_back(ex(ret(tuple({v("x"), v("y")}))));
            Node prog(K::Block, s);
            b.add(prog);
        });
}

// A scope with a deferred expression is left from within nested loops and scopes; code that follows the jump is still
// covered by the deferred expression.
void exits() {
    ProgramBatch b(32);
    auto when = [](int k, N e) { return ex(iff(bin("==", v("at"), i(k)), block({ex(e)}))); };
    // deferred expressions, with everything they may contain
    std::vector<std::function<N()>> ds = {[] { return t(v("x")); }, [] { return call(fn({}, block({ex(t(v("x")))}))); },
        [] { return block({foreach("q", array({i(1), i(2)}), block({var("z", v("q")), ex(t(call(fn({}, bin("+", v("z"), v("x")), true))))}))}); },
        [] { return t(stdc("catch_panic", {fn({}, block({defer(t(v("x"))), ex(pan("inner"))}))})); },
        [] { return iff(bin("<", v("x"), i(2)), block({ex(t(i(21)))}), block({defer(t(i(22))), ex(t(i(23)))})); },
        [] { return block({var("k", i(0)), wh(tru(), block({ex(opasg("+", v("k"), i(1))), ex(iff(bin(">", v("k"), i(1)), block({ex(brk())}))), ex(t(v("k")))}))}); },
        [] { return pan("deferred"); }};
    std::vector<std::function<L(L)>> nest = {[](L c) { return c; },
        [](L c) { return L{foreach("p", array({i(1), i(2)}), block(cat({var("y", v("p")), ex(mcall(v("fs"), "append", {fn({}, v("y"), true)}))}, c)))}; },
        [](L c) { return L{ex(block({var("n", i(0)), wh(bin("<", v("n"), i(2)), block(cat({ex(opasg("+", v("n"), i(1)))}, c)))}))}; },
        [](L c) { return L{ex(block(cat({defer(t(i(31)))}, c)))}; },
        [](L c) { return L{ex(iff(bin("<", v("x"), i(3)), block(c), block({ex(t(i(32)))})))}; },
        [](L c) { return L{defer(t(i(33))), ex(block(cat({defer(t(bin("*", v("x"), i(10)))), ex(opasg("+", v("x"), i(1)))}, c)))}; }};
    std::vector<std::function<N()>> exit_kinds = {[] { return ret(t(i(41))); }, [] { return brk(); }, [] { return cont(); },
        [] { return pan("exit"); }};
    std::vector<std::function<L()>> afters = {[] { return L{}; },
        [] { return L{ex(iff(bin("<", v("x"), i(9)), block({ex(t(i(51)))}))), ex(pan("after"))}; },
        [] { return L{var("n2", i(0)), wh(bin("<", v("n2"), i(1)), block({ex(opasg("+", v("n2"), i(1)))})), ex(t(bin("/", i(1), bin("-", v("x"), v("x")))))}; }};
    for (auto& d : ds)
        for (auto& n1 : nest)
            for (auto& n2 : nest)
                for (auto& x : exit_kinds)
                    for (auto& a : afters)
                        for (int place = 0; place < 2; ++place) {
                            Scratch scratch;
                            // `at` selects whether the jump is taken
                            L core = n1(cat(n2({when(1, x())}), place ? a() : L{}));
                            L scope = cat({defer(d())}, cat(core, place ? L{} : a()));
                            L loop = {var("m", i(0)), wh(bin("<", v("m"), i(2)), block(cat({ex(opasg("+", v("m"), i(1)))}, scope))), ex(t(i(61)))};
                            N f = fn({"at"}, block(cat({var("x", i(1)), var("fs", array({}))}, loop)));
                            L s = {var("f", f)};
                            for (int at = 0; at < 2; ++at)
                                s.push_back(ex(t(stdc("catch_panic", {fn({}, call(v("f"), {i(at)}), true)}))));
                            Node prog(K::Block, s);
                            b.add(prog);
                        }
    // jumps out of deferred expressions replace the exit that is in progress
    for (auto& n1 : nest)
        for (auto& n2 : nest)
            for (int x = 0; x < 4; ++x)
                for (int dx = 0; dx < 3; ++dx)
                    for (int place = 0; place < 2; ++place) {
                        Scratch scratch;
                        auto jump = [&](int k) { return k == 0 ? ret(t(i(71))) : k == 1 ? brk() : k == 2 ? cont() : t(i(72)); };
                        N d = block({defer(t(i(73))), ex(t(i(74))), ex(jump(dx))});
                        L core = n1(n2({when(1, jump(x))}));
                        L scope = cat({defer(t(i(75))), defer(d), defer(t(i(76)))}, core);
                        if (place)
                            scope = {foreach("o", array({i(1), i(2)}), block(scope))};
                        L loop = {var("m", i(0)), wh(bin("<", v("m"), i(2)), block(cat({ex(opasg("+", v("m"), i(1))), defer(t(i(77)))}, scope))), ex(t(i(78)))};
                        N f = fn({"at"}, block(cat({var("x", i(1)), var("fs", array({}))}, loop)));
                        L s = {var("f", f), ex(t(call(v("f"), {i(0)}))), ex(t(call(v("f"), {i(1)})))};
                        Node prog(K::Block, s);
                        b.add(prog);
                    }
}

// A panic at every operation of an expression, at every call depth, with deferred expressions at every level.
void depth() {
    ProgramBatch b(32);
    for (int levels = 1; levels <= (R.thorough ? 8 : 5); ++levels)
        for (int panic_at = -1; panic_at < levels; ++panic_at)
            for (int catch_at = -1; catch_at < levels; ++catch_at)
                for (int defers = 0; defers < 3; ++defers)
                    for (int again = -1; again < levels; ++again) {
                        if (again >= 0 && defers == 0)
                            continue;
                        // f0 calls f1 calls f2 ...
                        L s = {var("x", t(i(1)))};
                        for (int k = levels; k-- > 0;) {
                            L f;
                            for (int d = 0; d < defers; ++d)
                                f.push_back(defer(t(i(100 * k + d))));
                            if (again == k)
                                f.push_back(defer(pan("again" + std::to_string(k))));
                            if (panic_at == k)
                                f.push_back(ex(pan("p" + std::to_string(k))));
                            if (k + 1 < levels) {
                                std::string next = "f" + std::to_string(k + 1);
                                if (catch_at == k)
                                    f.push_back(ex(t(stdc("catch_panic", {v(next)}))));
                                else
                                    f.push_back(ex(t(call(v(next)))));
                            }
                            f.push_back(ex(ret(t(i(1000 + k)))));
                            s.push_back(var("f" + std::to_string(k), fn({}, block(f))));
                        }
                        s.push_back(ex(ret(call(v("f0")))));
                        Node prog(K::Block, s);
                        b.add(prog);
                    }
}

// Operands, arguments and containers that panic while other values are pending.
void positions() {
    ProgramBatch b(48);
    L ps = {pan("p"), bin("/", i(1), v("zero")), call(v("zero")), field(v("zero"), "m"), index(array({}), i(0)),
        call(v("one")), mcall(v("zero"), "m"), tfield(v("zero"), 0), bin("<", v("zero"), tru()), un("-", str("s")),
        asg(index(v("zero"), i(1)), i(2)), asg(field(v("zero"), "a"), i(2)), call(v("one"), {i(1), i(2)})};
    using Ctx = std::function<N(N)>;
    std::vector<Ctx> ctxs = {[](N e) { return e; }, [](N e) { return bin("+", t(i(1)), e); },
        [](N e) { return array({t(i(1)), e, t(i(2))}); }, [](N e) { return tuple({t(i(1)), e, t(i(2))}); },
        [](N e) { return record({"a", "b"}, {t(i(1)), e}); }, [](N e) { return call(v("one"), {e}); },
        [](N e) { return interp({str("a"), e, t(i(2))}); }, [](N e) { return land(t(i(1)), e); },
        [](N e) { return iff(e, block({ex(i(1))}), block({ex(i(2))})); }, [](N e) { return asg(v("x"), e); },
        [](N e) { return opasg("+", v("x"), e); }, [](N e) { return asg(index(v("arr"), t(i(0))), e); },
        [](N e) { return map({t(i(1)), e}); }, [](N e) { return stdc("success", {e}); },
        [](N e) { return call(fn({}, block({defer(t(i(55))), ex(ret(e))}))); }, [](N e) { return block({defer(t(i(56))), ex(e)}); }};
    for (N p : ps)
        for (auto& c1 : ctxs)
            for (auto& c2 : ctxs) {
                N e = c2(c1(p));
                L pre = {var("x", t(i(1))), var("zero", i(0)), var("one", fn({"v"}, v("v"), true)), var("arr", array({i(5)}))};
                for (int form = 0; form < 3; ++form) {
                    L s = pre;
                    s.push_back(defer(t(tuple({v("x"), v("arr")}))));
                    if (form == 0)
                        s.push_back(ex(ret(e)));
                    else if (form == 1)
                        s.push_back(ex(t(stdc("catch_panic", {fn({}, block({defer(t(v("x"))), ex(ret(e))}))}))));
                    else
                        s.push_back(foreach("q", array({i(1), i(2)}), block({defer(t(v("q"))), var("w", e), ex(t(v("w")))})));
                    Node prog(K::Block, s);
                    b.add(prog);
                }
            }
}

// Rethrowing a caught panic, panicking with a caught exception, nested catches.
void rethrow() {
    ProgramBatch b(16);
    for (int mode = 0; mode < 5; ++mode)
        for (int d1 = 0; d1 < 2; ++d1)
            for (int d2 = 0; d2 < 2; ++d2) {
                L inner, outer;
                if (d1)
                    inner.push_back(defer(t(i(1))));
                inner.push_back(ex(pan("first")));
                if (d2)
                    outer.push_back(defer(t(i(2))));
                N c = stdc("catch_panic", {fn({}, block(inner))});
                outer.push_back(var("r", c));
                if (mode == 0)
                    outer.push_back(ex(ret(v("r"))));
                else if (mode == 1)
                    outer.push_back(ex(stdc("panic", {mcall(v("r"), "error")})));
                else if (mode == 2)
                    outer.push_back(ex(pan("second")));
                else if (mode == 3) {
                    outer.push_back(defer(t(stdc("catch_panic", {fn({}, block({ex(pan("third"))}))}))));
                    outer.push_back(ex(pan("second")));
                } else {
                    outer.push_back(ex(stdc("panic", {mcall(stdc("catch_panic", {fn({}, block({defer(pan("fourth")), ex(pan("fifth"))}))}), "error")})));
                }
                Node prog(K::Block, L{ex(t(stdc("catch_panic", {fn({}, block(outer))}))), ex(ret(t(i(9))))});
                b.add(prog);
                Node prog2(K::Block, outer);
                b.add(prog2);
            }
}

// Two regions with deferred expressions that read the same variables, one after the other or in the same loop: the
// values visible to one must not depend on how the other one is left.
void two_regions() {
    ProgramBatch b(48);
    auto cond = [](int c) -> N { return c == 0 ? bin("==", v("i"), i(2)) : bin("<", v("x"), i(3)); };
    std::vector<std::function<N()>> exits = {[] { return ex(brk()); }, [] { return ex(cont()); }, [] { return ex(ret(v("x"))); },
        [] { return ex(pan("p")); }, [] { return ex(t(i(3))); }};
    // a region inside of a loop (jumps allowed) or outside
    auto region = [&](int kind, int id) -> L {
        // kind: exit * 4 + condition * 2 + assignment
        int e = kind / 4;
        L c{defer(t(tuple({i(id), v("x"), v("y")})))};
        if (kind & 1)
            c.push_back(ex(opasg("+", v("x"), i(1))));
        c.push_back(ex(iff(cond((kind >> 1) & 1), block({exits[size_t(e)]()}))));
        c.push_back(ex(t(i(id + 50))));
        return c;
    };
    auto loop = [](int form, L c) -> N {
        c.insert(c.begin(), ex(opasg("+", v("i"), i(1))));
        if (form == 0)
            return ex(wh(bin("<", v("i"), i(4)), block(c)));
        if (form == 1) {
            c.insert(c.begin() + 1, ex(iff(bin(">", v("i"), i(4)), block({ex(brk())}))));
            return ex(wh(tru(), block(c)));
        }
        return foreach("o", array({i(1), i(2), i(3)}), block(c));
    };
    auto blk = [](const L& c) { return ex(block(c)); };
    auto jumps = [](int kind) { return kind / 4 < 2; }; // needs a loop
    for (int form = 0; form < 3; ++form)
        for (int k1 = 0; k1 < 20; ++k1)
            for (int k2 = 0; k2 < 20; ++k2)
                for (int shape = 0; shape < 6; ++shape)
                    for (int last = 0; last < 2; ++last) {
                        Scratch scratch;
                        L a = region(k1, 1), c = region(k2, 2);
                        L s = {var("x", t(i(1))), var("y", t(i(5))), var("i", i(0))};
                        switch (shape) {
                        case 0: // loop { {1} } {2}
                            if (jumps(k2))
                                continue;
                            s.push_back(loop(form, {blk(a)}));
                            s.push_back(blk(c));
                            break;
                        case 1: // loop { {1} {2} }
                            s.push_back(loop(form, {blk(a), blk(c)}));
                            break;
                        case 2: // loop { {1} } loop { {2} }
                            s.push_back(loop(form, {blk(a)}));
                            s.push_back(ex(asg(v("i"), i(0))));
                            s.push_back(loop((form + 1) % 3, {blk(c)}));
                            break;
                        case 3: // loop { {1 {2}} }
                            a.push_back(blk(c));
                            s.push_back(loop(form, {blk(a)}));
                            break;
                        case 4: // loop { if { {1} } else { {2} } }
                            s.push_back(loop(form, {ex(iff(bin("<", v("i"), i(2)), block(a), block(c)))}));
                            break;
                        case 5: // {2 loop { {1} } }
                            if (jumps(k2))
                                continue;
                            c.push_back(loop(form, {blk(a)}));
                            s.push_back(blk(c));
                            break;
                        }
                        if (last)
                            s.push_back(defer(t(tuple({i(3), v("x"), v("y")}))));
                        s.push_back(ex(t(v("x"))));
                        s.push_back(ex(pan("end")));
                        Node prog(K::Block, s);
                        b.add(prog);
                    }
}

// Deferred expressions that fail themselves: the outer ones observe the latest values, whichever operations have failed.
void failing_handlers() {
    Grammar g;
    auto op = [](const std::string& n) { return bin("/", i(1), v(n)); }; // panics if n is zero
    g.leaves = {ex(opasg("+", v("x"), i(1))), ex(asg(v("y"), v("x"))), ex(op("o")), ex(op("z")), defer(t(tuple({v("x"), v("y")}))), defer(op("z")),
        defer(block({ex(opasg("*", v("x"), i(3))), ex(op("z")), ex(opasg("+", v("x"), i(7)))})), defer(block({defer(t(v("x"))), ex(opasg("+", v("x"), i(20))), ex(op("o"))}))};
    g.wrap1 = {[](N b) { return ex(block(b->c)); }, [](N b) { return ex(block({var("n", i(0)), wh(bin("<", v("n"), i(2)), block(cat({ex(opasg("+", v("n"), i(1)))}, b->c)))})); },
        [](N b) { return ex(iff(bin("<", v("x"), i(3)), b)); }, [](N b) { return defer(block(b->c)); }};
    Grammar h; // straight line code
    h.leaves = {g.leaves[0], g.leaves[2], g.leaves[3], g.leaves[4], g.leaves[5], g.leaves[6], ex(asg(v("x"), i(9)))};
    ProgramBatch b(48);
    auto add = [&](const L& blk) {
        Scratch scratch;
        L s = {var("x", t(i(1))), var("y", t(i(5))), var("z", t(i(0))), var("o", t(i(1)))};
        s.insert(s.end(), blk.begin(), blk.end());
        s.push_back(ex(ret(tuple({v("x"), v("y")}))));
        Node prog(K::Block, s);
        b.add(prog);
    };
    for (size_t n = 2; n <= (R.thorough ? 5u : 4u); ++n)
        g.each(n, add);
    for (size_t n = 5; n <= (R.thorough ? 7u : 6u); ++n)
        h.each(n, add);
}

} // namespace

void mc::enumerate() {
    failing_handlers();
    two_regions();
    rethrow();
    depth();
    positions();
    exits();
    visible_values();
    observed_paths();
    structured();
}
