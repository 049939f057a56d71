// C10: control flow and variables.
#include <unordered_map>

#include "common/batch.hpp"
#include "common/build.hpp"

using namespace mc;
using namespace nb;

const char* const mc::check_id = "C10";

namespace {

N xyz() {
    static N n = tuple({v("x"), v("y"), v("z")});
    return n;
}

// Programs over x (unknown), y (constant), z (unknown null), n (bound of all loops).
void flow() {
    Grammar g;
    g.leaves = {ex(asg(v("x"), v("y"))), ex(asg(v("y"), bin("+", v("x"), i(1)))),
        ex(tupasg({v("x"), v("y")}, tuple({v("y"), v("x")}))), ex(asg(v("z"), v("x"))), ex(t(xyz())), ex(brk()),
        ex(cont()), ex(ret(v("x")))};
    g.wrap1 = {[](N b) { return ex(iff(bin("<", v("x"), v("y")), b)); },
        [](N b) { return ex(iff(un("!", v("z")), b)); },
        [](N b) {
            L body = {ex(opasg("+", v("n"), i(1)))};
            return wh(bin("<", v("n"), i(4)), block(cat(body, b->c)));
        },
        [](N b) { return forr("i", i(0), bin("<", v("i"), i(2)), opasg("+", v("i"), i(1)), b); },
        [](N b) { return foreach("e", array({v("y"), i(7)}), block(cat({ex(asg(v("z"), v("e")))}, b->c))); },
        [](N b) { return ex(b); }};
    g.wrap2 = {[](N a, N b) { return ex(iff(bin("==", v("n"), i(1)), a, b)); }};
    ProgramBatch b;
    xyz();
    N fin = ex(ret(tuple({v("x"), v("y"), v("z"), v("n")})));
    auto emit = [&](const L& blk) {
        Scratch scratch;
        L pre = {var("x", t(i(1))), var("y", i(2)), var("z", t(null())), var("n", i(0))};
        // inside of a loop
        L body = {ex(opasg("+", v("n"), i(1)))};
        Node whole(K::Block);
        Node inner(K::Block, cat(body, blk)), loop(K::SWhile, {bin("<", v("n"), i(3)), &inner});
        whole.c = pre;
        whole.c.push_back(&loop);
        whole.c.push_back(fin);
        b.add(whole);
    };
    const size_t full = R.thorough ? 5 : 4;
    for (size_t n = 1; n <= full; ++n)
        g.each(n, emit);
    // deeper with a smaller alphabet
    Grammar h;
    h.leaves = {ex(asg(v("x"), bin("+", v("y"), i(1)))), ex(tupasg({v("x"), v("y")}, tuple({v("y"), v("x")}))), ex(brk()),
        ex(cont())};
    h.wrap1 = {g.wrap1[0], g.wrap1[2], g.wrap1[3]};
    h.wrap2 = g.wrap2;
    for (size_t n = full + 1; n <= (R.thorough ? 7 : 6); ++n)
        h.each(n, emit);
}

// Values exchanged between variables in loops: every assignment of 4 variables from 4 variables.
void exchange() {
    ProgramBatch b;
    const std::vector<std::string> names = {"a", "b", "c", "d"};
    for (int form = 0; form < 6; ++form)
        all_sequences(form >= 4 ? 3 : 4, form >= 4 ? 3 : 4, [&](const std::vector<int>& f) {
            const size_t k = f.size();
            L pre, targets, values, all;
            for (size_t q = 0; q < k; ++q) {
                pre.push_back(var(names[q], q % 2 && form != 2 ? i(int(q) + 1) : t(i(int(q) + 1))));
                targets.push_back(v(names[q]));
                values.push_back(v(names[f[q]]));
                all.push_back(v(names[q]));
            }
            L s = pre;
            s.push_back(var("n", i(0)));
            N inc = ex(opasg("+", v("n"), i(1)));
            N move = ex(tupasg(targets, tuple(values)));
            if (form == 0) {
                s.push_back(wh(bin("<", v("n"), i(3)), block({inc, move})));
            } else if (form == 1) {
                // through fresh variables declared in the loop
                L body = {inc};
                for (size_t q = 0; q < k; ++q)
                    body.push_back(cst("o" + names[q], values[q]));
                for (size_t q = 0; q < k; ++q)
                    body.push_back(ex(asg(v(names[q]), v("o" + names[q]))));
                body.push_back(ex(t(tuple(all))));
                s.push_back(wh(bin("<", v("n"), i(3)), block(body)));
            } else if (form == 2) {
                // both paths of a branch inside of the loop, one leaves everything as it is
                s.push_back(wh(bin("<", v("n"), i(4)),
                    block({inc, ex(iff(bin("==", bin("%", v("n"), i(2)), i(0)), block({move}), block({ex(t(v("a")))})))})));
            } else if (form == 3) {
                // the old values are still needed after the exchange
                L body = {inc, cst("keep", v("a")), move, ex(t(tuple({v("keep"), v("b")})))};
                s.push_back(wh(bin("<", v("n"), i(3)), block(body)));
            } else if (form == 4) {
                // nested loops, exchange in both
                s.push_back(wh(bin("<", v("n"), i(5)),
                    block({inc, forr("j", i(0), bin("<", v("j"), i(2)), opasg("+", v("j"), i(1)), block({move})), move})));
            } else {
                // sequential assignments
                L body = {inc};
                for (size_t q = 0; q < k; ++q)
                    body.push_back(ex(asg(targets[q], values[q])));
                s.push_back(wh(bin("<", v("n"), i(3)), block({inc, ex(block(body)), ex(t(tuple(all)))})));
            }
            s.push_back(ex(ret(tuple(all))));
            Node body(K::Block, s);
            b.add(body);
        });
    // captured and loop variables take part in the exchange
    L srcs = {v("a"), v("b"), v("i"), v("e"), i(5), call(v("f")), bin("+", v("a"), v("i"))};
    for (N s1 : srcs)
        for (N s2 : srcs)
            for (N s3 : srcs) {
                Node body(K::Block, {var("a", t(i(1))), var("b", i(2)), var("c", i(3)),
                    var("f", fn({}, block({ex(opasg("+", v("c"), i(1))), ex(ret(v("c")))}))),
                    forr("i", i(0), bin("<", v("i"), i(2)), opasg("+", v("i"), i(1)),
                        block({foreach("e", tuple({i(10), v("b")}),
                            block({ex(tupasg({v("a"), v("b"), v("c")}, tuple({s1, s2, s3}))), ex(t(v("a")))}))})),
                    ex(ret(tuple({v("a"), v("b"), v("c")})))});
                b.add(body);
            }
}

// Conditions: every combination of branch outcomes on every nesting of up to three conditions.
void conditions() {
    ProgramBatch b;
    L conds = {v("p"), un("!", v("p")), land(v("p"), v("q")), lor(v("p"), v("q")), coal(v("p"), v("q")),
        bin("==", v("p"), v("q")), land(un("!", v("p")), lor(v("q"), v("r"))), lor(land(v("p"), v("q")), v("r")), v("r"),
        iff(v("p"), block({ex(v("q"))}), block({ex(v("r"))})), block({ex(v("q"))}), tru(), fals(), null(), i(0), str("")};
    L vals = {null(), fals(), tru(), i(0)};
    for (N p : vals)
        for (N q : vals)
            for (N r : {vals[0], vals[2]}) {
                L pre = {var("p", t(p)), var("q", t(q)), var("r", r)};
                for (N c1 : conds)
                    for (N c2 : conds) {
                        L s = pre;
                        s.push_back(var("w", iff(c1, block({ex(iff(c2, block({ex(i(1))}), block({ex(i(2))})))}),
                                                 iff(c2, block({ex(i(3))}), block({ex(i(4))})))));
                        s.push_back(ex(iff(land(c1, c2), block({ex(t(i(5)))}))));
                        s.push_back(ex(iff(un("!", lor(c1, c2)), block({ex(t(i(6)))}), block({ex(t(i(7)))}))));
                        s.push_back(var("n", i(0)));
                        s.push_back(wh(land(bin("<", v("n"), i(2)), c1), block({ex(opasg("+", v("n"), i(1))), ex(iff(c2, block({ex(brk())})))})));
                        s.push_back(ex(ret(tuple({v("w"), v("n")}))));
                        Node body(K::Block, s);
                        b.add(body);
                    }
            }
}

// Loop forms with missing parts, and jumps out of and into the next round from every position.
void loops() {
    ProgramBatch b;
    L jumps = {ex(t(i(1))), ex(brk()), ex(cont()), ex(ret(i(5))), ex(iff(bin("==", v("n"), i(2)), block({ex(brk())}))),
        ex(iff(bin("==", v("n"), i(2)), block({ex(cont())}), block({ex(t(v("n")))}))),
        ex(iff(bin("<", v("n"), i(3)), block({ex(cont())}), block({ex(brk())})))};
    auto inc = ex(opasg("+", v("n"), i(1)));
    std::vector<std::function<N(L)>> heads = {
        [&](L s) { return wh(bin("<", v("n"), i(4)), block(cat({inc}, s))); },
        [&](L s) { return wh(lor(fals(), bin("<", v("n"), i(4))), block(cat({inc}, s))); },
        [&](L s) { return wh(tru(), block(cat({inc, ex(iff(bin(">", v("n"), i(5)), block({ex(brk())})))}, s))); },
        [&](L s) { auto n = mks(K::SFor, "i", {nullptr, bin("<", v("n"), i(4)), nullptr, block(cat({inc}, s))}); return n; },
        [&](L s) { auto n = mks(K::SFor, "i", {i(0), bin("<", v("i"), i(4)), opasg("+", v("i"), i(1)), block(cat({inc}, s))}); return n; },
        [&](L s) { auto n = mks(K::SFor, "i", {t(i(0)), nullptr, asg(v("i"), t(bin("+", v("i"), i(1)))),
            block(cat({inc, ex(iff(bin(">", v("i"), i(3)), block({ex(brk())})))}, s))}); return n; },
        [&](L s) { return foreach("e", array({i(10), i(11), i(12)}), block(cat({inc, ex(t(v("e")))}, s))); },
        [&](L s) { return foreach("e", map({i(3), i(4), i(5), i(6)}), block(cat({inc, ex(t(v("e")))}, s))); },
        [&](L s) { return foreach("e", set({i(3), i(4), i(3)}), block(cat({inc, ex(t(v("e")))}, s))); },
        [&](L s) { return foreach("e", tuple({i(3), i(4), i(3)}), block(cat({inc, ex(t(v("e")))}, s))); },
        [&](L s) { auto n = mk(K::SForEachTup, {map({i(3), i(4), i(5), i(6)}), block(cat({inc, ex(t(tuple({v("val"), v("key")})))}, s))});
            n->names = {"key", "val"}; return n; },
    };
    for (auto& h1 : heads)
        for (N j1 : jumps)
            for (N j2 : jumps) {
                Node body(K::Block, {var("n", i(0)), h1({j1, ex(t(v("n"))), j2, ex(t(i(90)))}), ex(ret(v("n")))});
                b.add(body);
                for (auto& h2 : heads) {
                    Node b2(K::Block, {var("n", i(0)), h1({h2({j1, ex(t(i(91)))}), j2, ex(t(i(92)))}), ex(ret(v("n")))});
                    b.add(b2);
                }
            }
}

// Sizes around the limits of encodings.
void sizes() {
    ProgramBatch b(1, 400000);
    std::vector<int> ns = {0, 1, 2, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300};
    if (R.thorough)
        for (int n : {511, 512, 513, 1000, 1023, 1024, 1025, 2000})
            ns.push_back(n);
    for (int n : ns) {
        auto name = [](int k) { return "v" + std::to_string(k); };
        L decl, use, rev, params;
        std::vector<std::string> names;
        for (int k = 0; k < n; ++k) {
            decl.push_back(var(name(k), k % 3 ? i(k * 1000) : t(i(k))));
            use.push_back(v(name(k)));
            rev.push_back(v(name(n - 1 - k)));
            params.push_back(k % 2 ? i(k) : bin("+", i(k), v("one")));
            names.push_back(name(k));
        }
        L one = {var("one", t(i(1)))};
        // many live variables
        Node a(K::Block, cat(decl, {ex(t(tuple(use))), ex(ret(array(rev)))}));
        b.add(a);
        if (n) {
            // rotated in a loop
            L rot(use.begin() + 1, use.end());
            rot.push_back(use[0]);
            Node r(K::Block, cat(decl, {var("n", i(0)), wh(bin("<", v("n"), i(3)), block({ex(opasg("+", v("n"), i(1))),
                n > 1 ? ex(tupasg(use, tuple(rot))) : ex(i(1))})), ex(ret(array(use)))}));
            b.add(r);
        }
        // parameters and arguments
        Node p(K::Block, cat(one, {var("f", fn(names, block({ex(ret(array(rev)))}))), ex(ret(call(v("f"), params)))}));
        b.add(p);
        Node p1(K::Block, cat(one, {var("f", fn(names, block({ex(ret(array(rev)))}))), ex(ret(call(v("f"), cat(params, {i(1)}))))}));
        b.add(p1);
        // captured
        Node c(K::Block, cat(decl, {var("f", fn({}, block({ex(ret(array(rev)))}))), ex(ret(call(v("f"))))}));
        b.add(c);
        // nested blocks, conditions and long jumps
        N e = i(0);
        for (int k = 0; k < std::min(n, 120); ++k)
            e = k % 2 ? bin("+", e, v("one")) : iff(bin("<", v("one"), i(k)), block({ex(bin("-", e, i(k)))}), block({ex(t(i(9)))}));
        Node d(K::Block, cat(one, {ex(ret(e))}));
        b.add(d);
        L chain = {var("w", i(0))};
        for (int k = 0; k < n; ++k)
            chain.push_back(ex(iff(bin("==", bin("%", v("one"), i(2)), i(k % 2)), block({ex(opasg("+", v("w"), i(k)))}), block({ex(opasg("-", v("w"), i(1)))}))));
        Node j(K::Block, cat(one, {var("n", i(0)), var("w2", i(0)), wh(bin("<", v("n"), i(3)), block(cat({ex(opasg("+", v("n"), i(1)))}, cat(chain, {ex(asg(v("w2"), bin("+", v("w2"), v("w"))))})))),
            ex(ret(v("w2")))}));
        b.add(j);
        // record and map literals, interpolation
        L kv, parts;
        for (int k = 0; k < n; ++k) {
            kv.push_back(i(k));
            kv.push_back(params[k]);
            parts.push_back(str("x"));
            parts.push_back(params[k]);
        }
        if (n) {
            Node m(K::Block, cat(one, {var("m", map(kv)), var("r", record(names, params)),
                ex(ret(tuple({index(v("m"), i(n - 1)), index(v("m"), i(n / 2)), field(v("r"), name(n - 1)), v("r")})))}));
            b.add(m);
            Node s(K::Block, cat(one, {ex(ret(interp(parts)))}));
            b.add(s);
        }
    }
}

} // namespace

void mc::enumerate() {
    sizes();
    exchange();
    conditions();
    loops();
    flow();
}
