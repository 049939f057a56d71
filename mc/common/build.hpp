// Short constructors for reference AST nodes.  Nodes are immutable and shared; they live as long as the process.
#pragma once
#include <functional>

#include "common/ref.hpp"

namespace nb {
using ref::K;
using ref::Node;
using N = const Node*;
using L = std::vector<N>;

inline ref::Pool& pool() {
    static ref::Pool p;
    return p;
}
// Releases all nodes created during its lifetime.
struct Scratch {
    size_t m = pool().mark();
    ~Scratch() { pool().release(m); }
};
inline Node* mk(K k, L c = {}) { return pool()(k, std::move(c)); }
inline Node* mks(K k, std::string s, L c = {}) { return pool()(k, std::move(s), std::move(c)); }

// Singletons do not live in the pool: it can be rolled back.
inline N null() { static Node n(K::Null); return &n; }
inline N tru() { static Node n(K::True); return &n; }
inline N fals() { static Node n(K::False); return &n; }
inline N i(int64_t v) { auto n = mk(K::Int); n->i = v; return n; }
inline N fl(double v) { auto n = mk(K::Float); n->f = v; return n; }
inline N str(std::string s) { return mks(K::Str, std::move(s)); }
inline N sym(std::string s) { return mks(K::Sym, std::move(s)); }
inline N v(std::string s) { return mks(K::Var, std::move(s)); }
inline N t(N e) { return mk(K::T, {e}); }
inline N un(std::string op, N a) { return mks(K::Un, std::move(op), {a}); }
inline N bin(std::string op, N a, N b) { return mks(K::Bin, std::move(op), {a, b}); }
inline N land(N a, N b) { return mk(K::And, {a, b}); }
inline N lor(N a, N b) { return mk(K::Or, {a, b}); }
inline N coal(N a, N b) { return mk(K::Coal, {a, b}); }
inline N asg(N a, N b) { return mk(K::Assign, {a, b}); }
inline N opasg(std::string op, N a, N b) { return mks(K::OpAssign, std::move(op), {a, b}); }
inline N tupasg(L targets, N b) { targets.push_back(b); return mk(K::TupAssign, std::move(targets)); }
inline N iff(N c, N a, N b = nullptr) { return b ? mk(K::If, {c, a, b}) : mk(K::If, {c, a}); }
inline N block(L s) { return mk(K::Block, std::move(s)); }
inline N fn(std::vector<std::string> params, N body, bool value = false) {
    auto n = mk(K::Func, {body});
    n->names = std::move(params);
    n->flag = value;
    return n;
}
inline N nfn(std::string name, std::vector<std::string> params, N body, bool value = false) {
    auto n = const_cast<Node*>(fn(std::move(params), body, value));
    n->s = std::move(name);
    return n;
}
inline N call(N f, L args = {}, bool opt = false) {
    args.insert(args.begin(), f);
    auto n = mk(K::Call, std::move(args));
    n->opt = opt;
    return n;
}
inline N mcall(N o, std::string name, L args = {}, bool opt = false, bool opt2 = false) {
    args.insert(args.begin(), o);
    auto n = mks(K::MCall, std::move(name), std::move(args));
    n->opt = opt;
    n->opt2 = opt2;
    return n;
}
inline N field(N o, std::string name, bool opt = false) { auto n = mks(K::Field, std::move(name), {o}); n->opt = opt; return n; }
inline N tfield(N o, int64_t idx, bool opt = false) { auto n = mk(K::TField, {o}); n->i = idx; n->opt = opt; return n; }
inline N index(N o, N idx, bool opt = false) { auto n = mk(K::Index, {o, idx}); n->opt = opt; return n; }
inline N tuple(L c) { return mk(K::Tuple, std::move(c)); }
inline N array(L c) { return mk(K::Array, std::move(c)); }
inline N record(std::vector<std::string> names, L c) { auto n = mk(K::Record, std::move(c)); n->names = std::move(names); return n; }
inline N map(L kv) { return mk(K::Map, std::move(kv)); }
inline N set(L c) { return mk(K::Set, std::move(c)); }
inline N interp(L c) { return mk(K::Interp, std::move(c)); }
inline N stdc(std::string name, L args) { return mks(K::Std, std::move(name), std::move(args)); }
inline N ret(N e = nullptr) { return e ? mk(K::Return, {e}) : mk(K::Return); }
inline N brk() { static Node n(K::Break); return &n; }
inline N cont() { static Node n(K::Continue); return &n; }
inline N paren(N e) { return mk(K::Paren, {e}); }
// statements
inline N ex(N e) { return mk(K::SExpr, {e}); }
inline N var(std::string name, N init = nullptr) { return init ? mks(K::SDecl, std::move(name), {init}) : mks(K::SDecl, std::move(name)); }
inline N cst(std::string name, N init) { auto n = mks(K::SDecl, std::move(name), {init}); n->flag = true; return n; }
inline N vartup(std::vector<std::string> names, N init) { auto n = mk(K::SDeclTup, {init}); n->names = std::move(names); return n; }
inline N wh(N c, N body) { return mk(K::SWhile, {c, body}); }
inline N forr(std::string name, N init, N c, N step, N body) { return mks(K::SFor, std::move(name), {init, c, step, body}); }
inline N foreach(std::string name, N e, N body) { return mks(K::SForEach, std::move(name), {e, body}); }
inline N defer(N e) { return mk(K::SDefer, {e}); }
inline N assrt(N c, N m = nullptr) { return m ? mk(K::SAssert, {c, m}) : mk(K::SAssert, {c}); }

// True if control may leave the statement or expression by break/continue (`loops`) or return.
inline bool leaves_by_jump(N n, bool in_loop = false) {
    if (!n)
        return false;
    switch (n->k) {
    case K::Func: return false;
    case K::Return: return true;
    case K::Break:
    case K::Continue: return !in_loop;
    case K::SWhile:
    case K::SFor:
    case K::SForEach:
    case K::SForEachTup: in_loop = true; break;
    default: break;
    }
    for (N c : n->c)
        if (leaves_by_jump(c, in_loop))
            return true;
    return false;
}
inline bool has_break(N n) { // break or continue that belongs to a loop outside of n
    if (!n)
        return false;
    switch (n->k) {
    case K::Func:
    case K::SWhile:
    case K::SFor:
    case K::SForEach:
    case K::SForEachTup: return false;
    case K::Break:
    case K::Continue: return true;
    default: break;
    }
    for (N c : n->c)
        if (has_break(c))
            return true;
    return false;
}

// A grammar of statement blocks, enumerated by total number of statements.
struct Grammar {
    L leaves;
    std::vector<std::function<N(N)>> wrap1;    // statements around one block
    std::vector<std::function<N(N, N)>> wrap2; // statements around two blocks

    // Every statement with exactly n nodes.
    void stmts(size_t n, const std::function<void(N)>& f) const {
        if (n == 1) {
            for (N l : leaves)
                f(l);
            return;
        }
        if (n == 0)
            return;
        each(n - 1, [&](const L& b) {
            for (auto& w : wrap1) {
                Scratch s;
                if (N x = w(mk(K::Block, b))) // a wrapper may refuse
                    f(x);
            }
        });
        if (!wrap2.empty())
            for (size_t a = 1; a + 1 < n; ++a)
                each(a, [&](const L& l) {
                    each(n - 1 - a, [&](const L& r) {
                        for (auto& w : wrap2) {
                            Scratch s;
                            if (N x = w(mk(K::Block, l), mk(K::Block, r)))
                                f(x);
                        }
                    });
                });
    }
    // Every block with exactly n nodes.  Nodes are only valid during the call.
    void each(size_t n, const std::function<void(const L&)>& f) const {
        L cur;
        rec(n, cur, f);
    }

private:
    void rec(size_t n, L& cur, const std::function<void(const L&)>& f) const {
        if (n == 0) {
            f(cur);
            return;
        }
        for (size_t k = 1; k <= n; ++k)
            stmts(k, [&](N s) {
                cur.push_back(s);
                rec(n - k, cur, f);
                cur.pop_back();
            });
    }
};

inline L cat(L a, const L& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
} // namespace nb
