// C09: evaluation order, single evaluation, short-circuiting, assignment.
#include "common/batch.hpp"
#include "common/build.hpp"

using namespace mc;
using namespace nb;

const char* const mc::check_id = "C09";

namespace {

// Local declarations every program starts with. `k` is known to the compiler, `u` is not.
L decls() {
    static L d = {
        var("k", i(3)),
        var("u", t(i(4))),
        var("z", t(null())),
        var("a", array({i(10), i(11), i(12)})),
        var("p", tuple({i(20), i(21)})),
        var("r", record({"a", "n", "f", "q"}, {i(30), null(), fn({"v"}, block({ex(ret(t(v("v"))))})), v("a")})),
        var("g", fn({"v"}, block({ex(opasg("+", v("u"), v("v"))), ex(ret(v("u")))}))), // closure over u
    };
    return d;
}

void emit(ProgramBatch& b, L stmts, bool short_decls = false) {
    static L few = {var("k", i(3)), var("u", t(i(4)))};
    Node body(K::Block, cat(short_decls ? few : decls(), stmts));
    b.add(body);
}

// Optional accesses are not allowed in assignment targets.
bool optional_path(N n) {
    switch (n->k) {
    case K::Call: case K::MCall: case K::Field: case K::TField: case K::Index: case K::Paren:
        return n->opt || n->opt2 || optional_path(n->c[0]);
    default: return false;
    }
}

// All expression trees with exactly `leaves` leaves over binary constructors.
template<typename Leaves, typename Ops>
const L& trees(size_t n, const Leaves& leaves, const Ops& ops, std::vector<L>& memo) {
    if (memo.size() <= n)
        memo.resize(n + 1);
    L& out = memo[n];
    if (!out.empty())
        return out;
    if (n == 1) {
        for (N l : leaves)
            out.push_back(l);
        return out;
    }
    for (size_t a = 1; a < n; ++a) {
        const L left = trees(a, leaves, ops, memo);
        const L right = trees(n - a, leaves, ops, memo);
        for (auto& op : ops)
            for (N x : left)
                for (N y : right)
                    memo[n].push_back(op(x, y));
    }
    return memo[n];
}
using Op2 = std::function<N(N, N)>;

// --- short-circuit operators in value, condition and discarded position
void logic() {
    std::vector<Op2> ops = {land, lor, coal,
        [](N a, N b) { return bin("==", a, b); },
        [](N a, N b) { return iff(a, block({ex(b)}), block({ex(t(i(9)))})); },
        [](N a, N b) { return land(un("!", a), b); },
        [](N a, N b) { return block({ex(a), ex(b)}); }};
    L full = {t(i(1)), t(null()), t(fals()), v("u"), null(), fals(), i(1)};
    L small = {t(i(1)), t(null()), t(fals()), null()};
    ProgramBatch b;
    auto forms = [&](N e) {
        emit(b, {ex(ret(e))}, true);
        emit(b, {ex(e), ex(ret(v("u")))}, true);
        emit(b, {ex(iff(e, block({ex(t(i(5)))}))), ex(ret(v("u")))}, true);
        emit(b, {var("w", e), ex(t(i(6))), ex(ret(tuple({v("w"), v("w")})))}, true);
    };
    std::vector<L> memo;
    for (size_t n = 1; n <= (R.thorough ? 3 : 2); ++n)
        for (N e : trees(n, full, ops, memo))
            forms(e);
    std::vector<L> memo2;
    for (size_t n = 3; n <= (R.thorough ? 4 : 3); ++n)
        for (N e : trees(n, small, ops, memo2)) {
            if (n == 3) {
                forms(e);
            } else {
                emit(b, {ex(ret(e))}, true);
            }
        }
}

// --- strict operators, containers and calls: order and number of evaluations, with assignments as operands
void strict() {
    L leaves = {t(i(1)), t(i(2)), v("k"), v("u"), i(5), asg(v("k"), t(i(6))), opasg("+", v("u"), i(1)),
        call(v("g"), {i(1)}), stdc("panic", {str("p")}), t(null())};
    std::vector<Op2> ops;
    for (const char* op : {"+", "-", "*", "<", "=="})
        ops.push_back([op](N a, N b) { return bin(op, a, b); });
    ProgramBatch b;
    std::vector<L> memo;
    for (size_t n = 1; n <= (R.thorough ? 3 : 2); ++n)
        for (N e : trees(n, leaves, ops, memo)) {
            emit(b, {ex(ret(tuple({e, v("k"), v("u")})))});
            emit(b, {ex(e), ex(ret(tuple({v("k"), v("u")})))});
        }
    // two different operators, four leaves of a smaller alphabet
    L l2 = {t(i(1)), v("k"), asg(v("k"), t(i(2))), v("u"), call(v("g"), {i(1)})};
    std::vector<Op2> ops2 = {[](N a, N b) { return bin("-", a, b); }, [](N a, N b) { return bin("+", a, b); }};
    std::vector<L> memo2;
    for (size_t n = 3; n <= (R.thorough ? 4 : 3); ++n)
        for (N e : trees(n, l2, ops2, memo2))
            emit(b, {ex(ret(tuple({e, v("k"), v("u")})))});
    // n-ary constructors
    L el = {t(i(1)), t(i(2)), v("k"), asg(v("k"), t(i(2))), call(v("g"), {i(1)}), stdc("panic", {str("p")})};
    for (N x : el)
        for (N y : el)
            for (N z : el) {
                L all = {x, y, z};
                std::vector<N> es = {array(all), tuple(all), record({"a", "b", "c"}, all),
                    interp({str("<"), x, str("|$"), y, z}), call(fn({"a", "b", "c"}, block({ex(ret(tuple({v("c"), v("a"), v("b")})))})), all),
                    call(fn({"a", "b", "c"}, tuple({v("b"), v("k"), v("a")}), true), all),
                    mcall(record({"m"}, {fn({"a", "b", "c"}, tuple({v("c"), v("b")}), true)}), "m", all),
                    index(map({x, t(i(40)), t(i(1)), y}), z),
                    index(array({x, y}), bin("-", z, i(1))),
                    // wrong number of arguments: evaluated, then a panic
                    call(fn({"a", "b"}, tuple({v("a"), v("b")}), true), all),
                    mcall(v("a"), "append", {x, y, z}),
                };
                for (N e : es)
                    emit(b, {ex(ret(tuple({e, v("k"), v("u")})))});
            }
}

// --- assignments
void assignments() {
    ProgramBatch b;
    N arr = v("a"), rec = v("r"), tup = v("p");
    L targets = {v("k"), v("u"), index(arr, i(1)), index(arr, t(i(2))), index(t(arr), t(i(0))), field(rec, "a"),
        field(t(rec), "a"), tfield(tup, 1), tfield(t(tup), 0), index(field(rec, "q"), t(i(1))), index(arr, t(i(7))),
        field(rec, "missing"), tfield(tup, 2), field(v("z"), "a"), index(v("z"), t(i(0))),
        index(arr, asg(v("k"), i(1))), index(arr, bin("-", v("k"), i(2)))};
    L sources = {t(i(1)), i(2), v("k"), v("u"), asg(v("k"), i(7)), call(v("g"), {i(1)}), index(arr, i(1)),
        field(rec, "a"), asg(index(arr, i(1)), t(i(8))), t(null()), stdc("panic", {str("p")}),
        opasg("+", v("u"), i(2)), bin("+", v("k"), v("u")), asg(v("a"), array({i(70), i(71), i(72)}))};
    auto fin = [&] { return ex(ret(tuple({v("k"), v("u"), v("a"), v("p"), field(v("r"), "a")}))); };
    for (N t1 : targets)
        for (N s : sources) {
            emit(b, {ex(asg(t1, s)), fin()});
            emit(b, {var("w", asg(t1, s)), ex(ret(tuple({v("w"), v("k"), v("u"), v("a"), v("p"), field(v("r"), "a")})))});
            for (const char* op : {"+", "-", "*", "/", "%"}) {
                emit(b, {ex(opasg(op, t1, s)), fin()});
                if (op[0] == '-')
                    emit(b, {var("w", opasg(op, t1, s)), ex(ret(tuple({v("w"), v("k"), v("u"), v("a"), v("p")})))});
            }
        }
    // chained and nested
    for (N t1 : targets)
        for (N t2 : targets)
            for (N s : R.thorough ? sources : L{t(i(1)), v("k"), v("u")}) {
                emit(b, {ex(asg(t1, asg(t2, s))), fin()});
                emit(b, {ex(opasg("+", t1, opasg("-", t2, s))), fin()});
            }
    // multiple assignment
    L tt = {v("k"), v("u"), index(arr, t(i(1))), field(t(rec), "a"), tfield(tup, 0), index(t(arr), t(i(9)))};
    L items = {v("k"), v("u"), t(i(1)), index(arr, i(1)), tfield(tup, 0), asg(v("k"), t(i(5)))};
    for (N t1 : tt)
        for (N t2 : tt) {
            for (N s1 : items)
                for (N s2 : items) {
                    emit(b, {ex(tupasg({t1, t2}, tuple({s1, s2}))), fin()});
                    emit(b, {ex(ret(tuple({tupasg({t1, t2}, tuple({s1, s2})), v("k"), v("u")})))});
                }
            for (N src : L{tup, t(tup), tuple({i(1)}), tuple({i(1), i(2), t(i(3))}), t(null()), arr, i(1)})
                emit(b, {ex(tupasg({t1, t2}, src)), fin()});
            if (R.thorough)
                for (N t3 : tt)
                    emit(b, {ex(tupasg({t1, t2, t3}, tuple({v("u"), v("k"), t(i(2))}))), fin()});
        }
    // destructuring declarations
    for (N s1 : items)
        for (N s2 : items)
            emit(b, {vartup({"c", "d"}, tuple({s1, s2})), ex(ret(tuple({v("d"), v("c"), v("k")})))});
    for (N src : L{tup, t(tup), tuple({i(1)}), tuple({i(1), i(2), t(i(3))}), t(null()), arr, i(1)})
        emit(b, {vartup({"c", "d"}, src), ex(ret(tuple({v("d"), v("c")})))});
}

// --- optional chains
void chains() {
    ProgramBatch b;
    using Step = std::function<N(N)>;
    std::vector<Step> steps;
    for (bool o : {false, true}) {
        steps.push_back([o](N x) { return field(x, "a", o); });
        steps.push_back([o](N x) { return field(x, "n", o); });
        steps.push_back([o](N x) { return field(x, "q", o); });
        steps.push_back([o](N x) { return index(x, t(i(1)), o); });
        steps.push_back([o](N x) { return mcall(x, "f", {t(i(2))}, o); });
        steps.push_back([o](N x) { return mcall(x, "n", {t(i(2))}, o, true); });
        steps.push_back([o](N x) { return call(x, {t(i(3))}, o); });
        steps.push_back([o](N x) { return tfield(x, 0, o); });
    }
    steps.push_back([](N x) { return mcall(x, "f", {t(i(2))}, false, true); });
    steps.push_back([](N x) { return mcall(x, "append", {t(i(2))}, true); });
    steps.push_back([](N x) { return call(x, {t(i(3)), t(i(4))}, true); });
    L bases = {v("r"), v("z"), t(v("z")), t(v("p")), field(v("r"), "f"), null(), i(1), v("g")};
    std::vector<Op2> ctx = {[](N e, N) { return e; }, [](N e, N) { return coal(e, t(i(50))); },
        [](N e, N) { return land(e, t(i(51))); }, [](N e, N) { return bin("==", t(i(1)), e); },
        [](N e, N) { return call(v("g"), {e}); }, [](N e, N) { return index(v("a"), e); },
        [](N e, N) { return iff(e, block({ex(i(1))}), block({ex(i(2))})); }};
    auto put = [&](N e, bool all) {
        for (size_t c = 0; c < (all ? ctx.size() : 2); ++c)
            emit(b, {ex(ret(tuple({ctx[c](e, nullptr), v("u")})))});
        if (all)
            emit(b, {ex(e), ex(ret(v("u")))});
    };
    for (N x : bases) {
        for (auto& s1 : steps) {
            N e1 = s1(x);
            put(e1, true);
            for (auto& s2 : steps) {
                N e2 = s2(e1);
                put(e2, true);
                // parentheses do not change the meaning
                emit(b, {ex(ret(s2(paren(e1))))});
                if (R.thorough || x == bases[0] || x == bases[1])
                    for (auto& s3 : steps) {
                        N e3 = s3(e2);
                        put(e3, R.thorough);
                        if (R.thorough && x == bases[0])
                            for (auto& s4 : steps)
                                put(s4(e3), false);
                    }
            }
        }
    }
    // a chain inside of a chain's arguments
    for (N x : bases)
        for (N y : bases)
            for (auto& s1 : steps)
                for (int form = 0; form < 4; ++form) {
                    N in = s1(y);
                    N e = form == 0   ? mcall(x, "f", {in}, true)
                          : form == 1 ? index(x, in, true)
                          : form == 2 ? call(x, {in}, true)
                                      : field(mcall(x, "f", {in}, true), "a");
                    emit(b, {ex(ret(e))});
                }
}

// --- leaving an expression in the middle
void jumps() {
    ProgramBatch b;
    L exits = {ret(t(i(60))), ret(), stdc("panic", {str("p")}), brk(), cont(),
        iff(v("z"), block({ex(ret(i(1)))}), block({ex(t(i(61)))})),
        iff(v("u"), block({ex(ret(t(i(62))))}), block({ex(t(i(63)))})),
        land(v("u"), ret(i(7))), lor(v("z"), brk()), coal(v("z"), cont()), coal(v("u"), ret(i(8))),
        block({ex(t(i(1))), ex(ret(i(64)))})};
    using Ctx = std::function<N(N)>;
    std::vector<Ctx> ctxs = {
        [](N e) { return e; },
        [](N e) { return bin("+", t(i(1)), e); },
        [](N e) { return bin("+", e, t(i(1))); },
        [](N e) { return un("!", e); },
        [](N e) { return land(t(i(1)), e); },
        [](N e) { return land(t(null()), e); },
        [](N e) { return lor(t(fals()), e); },
        [](N e) { return coal(t(null()), e); },
        [](N e) { return coal(e, t(i(2))); },
        [](N e) { return array({t(i(1)), e, t(i(2))}); },
        [](N e) { return tuple({e, t(i(2))}); },
        [](N e) { return record({"a", "b"}, {t(i(1)), e}); },
        [](N e) { return map({t(i(1)), e}); },
        [](N e) { return map({e, t(i(1))}); },
        [](N e) { return set({t(i(1)), e}); },
        [](N e) { return interp({str("x"), t(i(1)), e}); },
        [](N e) { return call(v("g"), {e}); },
        [](N e) { return call(e, {t(i(1))}); },
        [](N e) { return mcall(v("r"), "f", {e}); },
        [](N e) { return mcall(v("r"), "f", {e}, true); },
        [](N e) { return mcall(v("z"), "f", {e}, true); },
        [](N e) { return mcall(v("r"), "n", {e}, false, true); },
        [](N e) { return field(mcall(v("r"), "f", {e}, true), "a", true); },
        [](N e) { return call(v("z"), {e}, true); },
        [](N e) { return call(v("g"), {e}, true); },
        [](N e) { return index(v("a"), e); },
        [](N e) { return index(v("a"), e, true); },
        [](N e) { return index(v("z"), e, true); },
        [](N e) { return index(e, t(i(1))); },
        [](N e) { return field(e, "a"); },
        [](N e) { return field(e, "a", true); },
        [](N e) { return asg(v("k"), e); },
        [](N e) { return opasg("+", v("k"), e); },
        [](N e) { return asg(index(v("a"), t(i(1))), e); },
        [](N e) { return asg(index(v("a"), e), t(i(1))); },
        [](N e) { return asg(field(optional_path(e) ? v("r") : e, "a"), t(i(1))); },
        [](N e) { return opasg("-", index(v("a"), e), t(i(1))); },
        [](N e) { return tupasg({v("k"), index(v("a"), t(i(0)))}, tuple({t(i(1)), e})); },
        [](N e) { return tupasg({index(v("a"), e), v("k")}, tuple({t(i(1)), t(i(2))})); },
        [](N e) { return iff(e, block({ex(t(i(1)))}), block({ex(t(i(2)))})); },
        [](N e) { return iff(t(i(1)), block({ex(e)}), block({ex(t(i(2)))})); },
        [](N e) { return iff(t(null()), block({ex(t(i(1)))}), block({ex(e)})); },
        [](N e) { return block({ex(t(i(1))), ex(e)}); },
        [](N e) { return block({ex(e), ex(t(i(1)))}); },
        [](N e) { return stdc("success", {e}); },
        [](N e) { return paren(e); },
    };
    auto in_loop = [&](L body) {
        L s = {var("n", i(0)),
            wh(bin("<", v("n"), i(2)), block(cat({ex(opasg("+", v("n"), i(1)))}, body)))};
        s.push_back(ex(ret(tuple({v("n"), v("k"), v("u"), v("a")}))));
        return s;
    };
    for (N x : exits)
        for (size_t c = 0; c < ctxs.size(); ++c) {
            N e = ctxs[c](x);
            emit(b, in_loop({ex(e), ex(t(i(70)))}));
            emit(b, in_loop({var("w", e), ex(t(v("w"))), ex(t(i(70)))}));
            emit(b, in_loop({assrt(e), ex(t(i(71)))}));
            emit(b, in_loop({assrt(v("u"), e), ex(t(i(71)))}));
            emit(b, in_loop({assrt(v("z"), interp({str("m"), e})), ex(t(i(71)))}));
            emit(b, in_loop({ex(iff(e, block({ex(t(i(72)))}))), ex(t(i(73)))}));
            emit(b, in_loop({foreach("it", e, block({ex(t(i(74)))})), ex(t(i(73)))}));
            emit(b, in_loop({ex(ret(e))}));
            if (R.thorough || c % 3 == 1)
                for (size_t d = 0; d < ctxs.size(); ++d)
                    emit(b, in_loop({ex(ctxs[d](e)), ex(t(i(70)))}));
        }
}

// --- discarded expressions: nothing may be dropped that panics or has an effect
void discarded() {
    ProgramBatch b;
    L atoms = {i(0), i(1), null(), v("k"), v("u"), v("z"), str("s"), tru(), v("a"), fl(1.5), fl(0.0), i(INT64_MAX)};
    for (N x : atoms) {
        for (const char* op : {"-", "+", "!", "~"})
            emit(b, {ex(un(op, x)), ex(ret(t(i(1))))});
        emit(b, {ex(field(x, "a")), ex(ret(t(i(1))))});
        emit(b, {ex(tfield(x, 0)), ex(ret(t(i(1))))});
        emit(b, {ex(call(x)), ex(ret(t(i(1))))});
        emit(b, {ex(stdc("success", {x})), ex(ret(t(i(1))))});
        emit(b, {foreach("it", x, block({})), ex(ret(t(i(1))))});
        for (N y : atoms) {
            for (const char* op : {"+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!="}) {
                emit(b, {ex(bin(op, x, y)), ex(ret(t(i(1))))});
                emit(b, {var("w", bin(op, x, y)), ex(ret(t(i(1))))});
                emit(b, {ex(iff(v("z"), block({ex(bin(op, x, y))}))), ex(ret(t(i(1))))});
                emit(b, {ex(array({i(1), bin(op, x, y)})), ex(ret(t(i(1))))});
                emit(b, {ex(land(v("u"), bin(op, x, y))), ex(ret(t(i(1))))});
            }
            emit(b, {ex(index(x, y)), ex(ret(t(i(1))))});
        }
    }
}

// --- repeated expressions with changes in between (no stale value may be reused)
void repeats() {
    ProgramBatch b;
    N cl = call(v("g"), {i(1)}); // changes u
    L ops = {v("u"), v("k"), bin("+", v("u"), i(1)), bin("+", v("k"), i(1)), field(v("r"), "a"), index(v("a"), i(0)),
        bin("*", field(v("r"), "a"), i(2)), asg(v("k"), i(5)), cl, asg(field(v("r"), "a"), i(31)),
        asg(index(v("a"), i(0)), i(13)), mcall(v("a"), "size"), mcall(v("a"), "append", {i(1)}), tfield(v("p"), 0),
        asg(tfield(v("p"), 0), v("u")), opasg("+", v("k"), v("u"))};
    size_t len = R.thorough ? 5 : 3;
    all_sequences(ops.size(), len, [&](const std::vector<int>& seq) {
        L es;
        for (int s : seq)
            es.push_back(ops[s]);
        emit(b, {ex(ret(array(es)))});
    });
    size_t len2 = R.thorough ? 4 : 3;
    all_sequences(ops.size(), len2, [&](const std::vector<int>& seq) {
        // the middle part is conditional
        L ss = {var("w", ops[seq[0]])};
        ss.push_back(ex(iff(v("u"), block({ex(ops[seq[1]])}))));
        for (size_t q = 2; q < seq.size(); ++q)
            ss.push_back(var("w" + std::to_string(q), ops[seq[q]]));
        L outs = {v("w")};
        for (size_t q = 2; q < seq.size(); ++q)
            outs.push_back(v("w" + std::to_string(q)));
        outs.push_back(v("k"));
        outs.push_back(v("u"));
        ss.push_back(ex(ret(tuple(outs))));
        emit(b, ss);
    });
}

} // namespace

void mc::enumerate() {
    logic();
    strict();
    assignments();
    chains();
    jumps();
    discarded();
    repeats();
}
