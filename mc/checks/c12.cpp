// C12: closures and the variables they share.
#include "common/batch.hpp"
#include "common/build.hpp"

using namespace mc;
using namespace nb;

const char* const mc::check_id = "C12";

namespace {

N push(N f) { return ex(mcall(v("fs"), "append", {f})); }
N call_all() { return foreach("f", v("fs"), block({ex(t(call(v("f"))))})); }
N incr() { return fn({}, block({ex(opasg("+", v("x"), i(1))), ex(ret(v("x")))})); }

bool assigns(N n, const std::string& name) {
    if (!n)
        return false;
    if ((n->k == K::Assign || n->k == K::OpAssign) && n->c[0]->k == K::Var && n->c[0]->s == name)
        return true;
    for (N c : n->c)
        if (assigns(c, name))
            return true;
    return false;
}
// Loop variables of for-in are constants.
N each_of(const std::string& name, N e, N body) {
    if (!assigns(body, name))
        return foreach(name, e, body);
    return foreach("_" + name, e, block(cat({var(name, v("_" + name))}, body->c)));
}

using Wraps = std::vector<std::function<N(N)>>;

Wraps wraps() {
    Wraps w;
    // a new variable that shadows the outer one: block, loops, parameters, nested functions, destructuring
    w.push_back([](N b) { return ex(block(cat({var("x", t(i(10)))}, b->c))); });
    w.push_back([](N b) { return forr("x", i(0), bin("<", v("x"), i(2)), opasg("+", v("x"), i(1)), b); });
    w.push_back([](N b) { return each_of("x", array({i(20), i(30)}), b); });
    w.push_back([](N b) {
        return ex(block({var("n", i(0)), wh(bin("<", v("n"), i(2)), block(cat({ex(opasg("+", v("n"), i(1))), var("x", v("n"))}, b->c)))}));
    });
    w.push_back([](N b) { return has_break(b) ? nullptr : ex(t(call(fn({"x"}, b), {i(7)}))); });
    w.push_back([](N b) { return has_break(b) ? nullptr : push(fn({}, block(cat(b->c, {ex(ret(v("x")))})))); });
    w.push_back([](N b) { return has_break(b) ? nullptr : push(fn({}, block(cat({var("x", i(40))}, b->c)))); });
    // the same variable
    w.push_back([](N b) { return ex(iff(bin("<", v("x"), i(5)), b)); });
    w.push_back([](N b) {
        return ex(block({var("n", i(0)), wh(bin("<", v("n"), i(2)), block(cat({ex(opasg("+", v("n"), i(1)))}, b->c)))}));
    });
    w.push_back([](N b) { return leaves_by_jump(b) ? nullptr : defer(b); });
    return w;
}

void emit(ProgramBatch& b, const L& blk, int form) {
    Scratch scratch;
    Node inner(K::Block, blk);
    L body = blk;
    if (has_break(&inner))
        body = {var("n0", i(0)), wh(bin("<", v("n0"), i(2)), block(cat({ex(opasg("+", v("n0"), i(1)))}, blk)))};
    L s;
    const Node* decls = nullptr;
    if (form == 0) { // a local variable of the function
        s = {var("fs", array({})), var("x", t(i(1)))};
        s.insert(s.end(), body.begin(), body.end());
    } else if (form == 1) { // a parameter
        L f = cat({ex(t(v("x")))}, body);
        s = {var("fs", array({})), ex(t(call(fn({"x"}, block(f)), {i(1)})))};
    } else if (form == 2) { // variable of the scope around the function, two activations
        L f = cat(body, {ex(ret(v("x")))});
        s = {var("fs", array({})), var("x", i(1)), var("g", fn({}, block(f))), ex(t(call(v("g")))), ex(t(call(v("g"))))};
    }
    s.push_back(call_all());
    s.push_back(call_all());
    if (form != 1)
        s.push_back(ex(ret(v("x"))));
    Node prog(K::Block, s);
    b.add(prog, decls);
}

void one_variable() {
    Grammar g;
    g.leaves = {push(incr()), ex(opasg("+", v("x"), i(10))), ex(t(v("x"))), call_all(),
        push(fn({}, fn({}, block({ex(opasg("*", v("x"), i(2))), ex(ret(v("x")))})), true)), ex(iff(bin("<", i(12), v("x")), block({ex(brk())}))),
        ex(cont()), push(fn({}, v("x"), true))};
    g.wrap1 = wraps();
    ProgramBatch b(48);
    const size_t max = R.thorough ? 4 : 3;
    for (size_t n = 1; n <= max; ++n)
        g.each(n, [&](const L& blk) {
            for (int form = 0; form < (n == 4 ? 1 : 3); ++form)
                emit(b, blk, form);
        });
    // deeper nesting with fewer kinds of leaves
    Grammar h;
    h.leaves = {push(incr()), ex(opasg("+", v("x"), i(10))), call_all()};
    auto w = wraps();
    h.wrap1 = {w[0], w[1], w[4], w[5], w[8]};
    for (size_t n = max + 1; n <= (R.thorough ? 6u : 5u); ++n)
        h.each(n, [&](const L& blk) { emit(b, blk, 0); });
}

// Several variables of the same and of different scopes, captured in different combinations.
void many_variables() {
    ProgramBatch b(32);
    const char* names[] = {"a", "b", "c"};
    auto closure = [&](int mask, int mode) {
        L s;
        for (int k = 0; k < 3; ++k)
            if (mask >> k & 1) {
                if (mode & 1)
                    s.push_back(ex(opasg("+", v(names[k]), i(k + 1))));
            }
        L r;
        for (int k = 0; k < 3; ++k)
            if (mask >> k & 1)
                r.push_back(v(names[k]));
        s.push_back(ex(ret(r.empty() ? null() : r.size() == 1 ? r[0] : tuple(r))));
        N f = fn({}, block(s));
        if (mode & 2)
            f = call(fn({}, block({ex(ret(f))}))); // through another function
        return f;
    };
    // where each variable is declared: function, block, loop body, parameter, loop variable
    for (int da = 0; da < 3; ++da)
        for (int db = 0; db < 4; ++db)
            for (int dc = 0; dc < 4; ++dc)
                for (int m1 = 0; m1 < 8; ++m1)
                    for (int m2 = 0; m2 < 8; ++m2) {
                        if (!R.thorough && (m1 + m2 * 3 + da + db + dc) % 2)
                            continue; // half of the combinations of the masks
                        Scratch scratch;
                        L in = {push(closure(m1, 1 | (m2 & 2))), push(closure(m2, m1 & 3)), ex(opasg("+", v("a"), i(100))),
                            ex(asg(v("b"), bin("+", v("c"), i(50)))), ex(t(tuple({v("a"), v("b"), v("c")}))), call_all()};
                        auto declare = [&](const char* n, int how, int init, L rest) -> L {
                            switch (how) {
                            case 0: return cat({var(n, t(i(init)))}, rest);
                            case 1: return {ex(block(cat({var(n, t(i(init)))}, rest)))};
                            case 2: return {each_of(n, array({i(init), i(init + 1)}), block(rest))};
                            default: return {ex(call(fn({n}, block(rest)), {i(init)}))};
                            }
                        };
                        L body = declare("a", da, 1, declare("b", db, 10, declare("c", dc, 20, in)));
                        L s = cat({var("fs", array({}))}, body);
                        s.push_back(call_all());
                        Node prog(K::Block, s);
                        b.add(prog);
                    }
}

// Module level variables and functions, recursion, mutual references.
void modules() {
    ProgramBatch b(24);
    Grammar g;
    g.leaves = {ex(opasg("+", v("m@"), i(1))), ex(t(v("m@"))), ex(t(call(v("inc@")))), ex(asg(v("m@"), call(v("rec@"), {i(3)}))),
        push(v("inc@")), push(fn({}, block({ex(opasg("*", v("m@"), i(2))), ex(ret(v("m@")))}))), call_all(),
        ex(asg(v("h@"), fn({}, block({ex(opasg("+", v("m@"), v("l"))), ex(opasg("+", v("l"), i(1))), ex(ret(v("l")))})))), ex(t(call(v("h@"))))};
    g.wrap1 = {[](N x) { return ex(block(cat({var("m@", i(50))}, x->c))); },
        [](N x) { return ex(call(fn({"m@"}, x), {i(60)})); }, [](N x) { return foreach("q", array({i(1), i(2)}), x); }};
    N decls = block({var("m@", i(5)), var("inc@", fn({}, block({ex(opasg("+", v("m@"), i(1))), ex(ret(v("m@")))}))),
        var("rec@", fn({"n"}, block({ex(iff(bin("<", v("n"), i(1)), block({ex(ret(v("m@")))}))),
                        ex(ret(bin("+", call(v("rec2@"), {bin("-", v("n"), i(1))}), i(1))))}))),
        var("rec2@", fn({"n"}, block({ex(ret(bin("*", call(v("rec@"), {v("n")}), i(2))))}))),
        var("h@", fn({}, v("m@"), true)), var("k@", call(v("inc@")))});
    // `h@` is assigned: it has to be a variable
    const_cast<Node*>(decls)->c[4] = var("h@", paren(fn({}, v("m@"), true)));
    for (size_t n = 1; n <= (R.thorough ? 4u : 3u); ++n)
        g.each(n, [&](const L& blk) {
            Scratch scratch;
            L s = cat({var("fs", array({})), var("l", i(3))}, blk);
            s.push_back(call_all());
            s.push_back(ex(ret(tuple({v("m@"), v("k@"), v("l")}))));
            Node prog(K::Block, s);
            b.add(prog, decls);
        });
}

// Every level of nesting between the declaration of a variable and its use.
void depth() {
    ProgramBatch b(24);
    const int max = R.thorough ? 7 : 5;
    for (int levels = 1; levels <= max; ++levels)
        for (int mask = 0; mask < (1 << levels); ++mask)       // which levels declare a captured variable of their own
            for (int loops = 0; loops < (1 << levels); ++loops) // which levels are inside of a loop
                for (int use = 0; use < levels; ++use) {
                    Scratch scratch;
                    // innermost
                    L uses;
                    for (int k = 0; k < levels; ++k)
                        if (mask >> k & 1)
                            uses.push_back(v("v" + std::to_string(k)));
                    N target = (mask >> use & 1) ? v("v" + std::to_string(use)) : v("x");
                    L in = {ex(opasg("+", target, i(1))), ex(ret(tuple(cat({v("x")}, uses))))};
                    N f = fn({}, block(in));
                    for (int k = levels; k-- > 0;) {
                        L s;
                        std::string name = "v" + std::to_string(k);
                        if (mask >> k & 1)
                            s.push_back(var(name, i(10 * (k + 1))));
                        s.push_back(var("r", null()));
                        N run = ex(asg(v("r"), call(f)));
                        if (loops >> k & 1)
                            s.push_back(foreach("i" + std::to_string(k), array({i(1), i(2)}),
                                block({var("y" + std::to_string(k), v("i" + std::to_string(k))), run,
                                    push(fn({}, v("y" + std::to_string(k)), true))})));
                        else
                            s.push_back(run);
                        s.push_back(ex(ret(v("r"))));
                        f = fn({}, block(s));
                    }
                    L s = {var("fs", array({})), var("x", i(1)), ex(t(call(f))), call_all(), ex(ret(v("x")))};
                    Node prog(K::Block, s);
                    b.add(prog);
                }
}

// Local functions that are referenced by name: recursion, shadowing, fresh functions per iteration.
void named() {
    ProgramBatch b(32);
    // counts x up, recursively, and through a closure over its own name
    auto g1 = [] {
        return nfn("g", {"n"}, block({ex(opasg("+", v("x"), i(1))), ex(iff(bin("<", v("n"), i(1)), block({ex(ret(v("x")))}))),
            ex(ret(bin("+", call(v("g"), {bin("-", v("n"), i(1))}), i(100))))}));
    };
    auto g2 = [] {
        return nfn("g", {"n"}, block({var("again", fn({"k"}, call(v("g"), {v("k")}), true)), ex(iff(bin("<", v("n"), i(1)), block({ex(ret(v("x")))}))),
            ex(ret(bin("*", call(v("again"), {bin("-", v("n"), i(1))}), i(2))))}));
    };
    auto g3 = [] { return nfn("g", {"n"}, bin("+", v("n"), i(1000)), true); }; // captures nothing
    auto call_g = [](int k) { return ex(t(call(v("g"), {i(k)}))); };
    Grammar g;
    g.leaves = {call_g(0), call_g(2), push(fn({}, call(v("g"), {i(1)}), true)), ex(opasg("+", v("x"), i(10))), 
        ex(block({ex(t(call(nfn("w", {"n"}, iff(bin("<", v("n"), i(1)), block({ex(v("x"))}), block({ex(call(v("w"), {bin("-", v("n"), i(1))}))})), true), {i(2)})))})), call_all()};
    for (auto mkf : std::vector<std::function<N()>>{g1, g2, g3}) {
        N f = mkf();
        g.wrap1.push_back([f](N x) { return ex(block(cat({ex(f)}, x->c))); });
        g.wrap1.push_back([f](N x) { return forr("x", i(0), bin("<", v("x"), i(2)), opasg("+", v("x"), i(1)), block(cat({ex(f)}, x->c))); });
        g.wrap1.push_back([f](N x) { return ex(call(fn({}, block(cat({ex(f)}, x->c))))); });
    }
    g.wrap1.push_back([](N x) { return ex(iff(bin("<", v("x"), i(5)), x)); });
    g.wrap1.push_back([](N x) { return defer(x); });
    g.wrap1.push_back([](N x) { return ex(block(cat({var("x", t(i(40)))}, x->c))); });
    for (size_t n = 1; n <= (R.thorough ? 4u : 3u); ++n)
        g.each(n, [&](const L& blk) {
            for (int mkf = 0; mkf < 3; ++mkf) {
                if (n > 2 && mkf != 0 && !R.thorough)
                    continue;
                Scratch scratch;
                N f = mkf == 0 ? g1() : mkf == 1 ? g2() : g3();
                L s = {var("fs", array({})), var("x", t(i(1))), ex(f)};
                s.insert(s.end(), blk.begin(), blk.end());
                s.push_back(call_all());
                s.push_back(ex(ret(v("x"))));
                Node prog(K::Block, s);
                b.add(prog);
            }
        });
}

} // namespace

void mc::enumerate() {
    named();
    modules();
    depth();
    many_variables();
    one_variable();
}
