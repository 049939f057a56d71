// A deliberately boring tree walking interpreter for the tiro language.  It owns its own AST (which the checks
// enumerate), prints it as source text (always fully parenthesized) and computes the expected observable
// behaviour: the host call log and the result (value or panic).
#pragma once
#include <cstdint>
#include <deque>
#include <string>
#include <vector>

#include "common/mc.hpp"

namespace ref {

enum class K : uint8_t {
    Null, True, False, Int, Float, Str, Sym, Var,
    T,       // h.t(e): logs and returns
    Un,      // op e
    Bin,     // strict binary operator
    And, Or, Coal,
    Assign,  // c0 = c1, target: Var, Field, TField, Index
    OpAssign,
    TupAssign, // (targets...) = c.back()
    If,      // c0 cond, c1 then block, c2 else (block or if) or null
    Block,   // statements; value if last is an SExpr
    Func,    // names = params, c0 = body (Block, or any expression if flag "is value")
    Call,    // c0(args), opt
    MCall,   // c0.name(args), opt = ?. , opt2 = ?(
    Field,   // c0.name
    TField,  // c0.<i>
    Index,   // c0[c1]
    Tuple, Array, Record, Map, Set, Interp,
    Std,     // std.<s>(args)
    Return, Break, Continue,
    Paren,
    SExpr, SDecl, SDeclTup, SWhile, SFor, SForEach, SForEachTup, SDefer, SAssert, SEmpty
};

struct Node {
    K k;
    std::vector<const Node*> c;
    std::string s;                  // operator, name, string content
    std::vector<std::string> names; // params, record keys, declared names
    int64_t i = 0;
    double f = 0;
    bool opt = false, opt2 = false, flag = false;

    Node(K k_) : k(k_) {}
    Node(K k_, std::vector<const Node*> c_) : k(k_), c(std::move(c_)) {}
    Node(K k_, std::string s_, std::vector<const Node*> c_ = {}) : k(k_), c(std::move(c_)), s(std::move(s_)) {}
};

// Owns nodes.
class Pool {
public:
    template<typename... A>
    Node* operator()(A&&... a) {
        nodes_.emplace_back(std::forward<A>(a)...);
        return &nodes_.back();
    }
    size_t mark() const { return nodes_.size(); }
    void release(size_t m) {
        while (nodes_.size() > m)
            nodes_.pop_back();
    }

private:
    std::deque<Node> nodes_;
};

std::string print_expr(const Node& n);
void print_expr(const Node& n, std::string& out);
void print_stmt(const Node& n, std::string& out, int indent = 1);
void print_block_body(const Node& block, std::string& out, int indent);

struct Expected {
    bool ok = false;       // value or panic
    std::string value;     // '\x01' matches any string literal
    std::string log;
    bool fuel = false;     // did not terminate within the step budget: not comparable
    bool unsupported = false;
    uint64_t steps = 0;
};

// Evaluates a function body (Block) without arguments.  `decls` (a Block of SDecl / SDeclTup) are the module level
// declarations; functions among them are visible in all of them.
Expected evaluate(const Node& body, uint64_t max_steps = 4000, const Node* decls = nullptr);

// Prints module level declarations: functions are printed as named functions.
void print_decls(const Node& decls, std::string& out);

// True if `actual` matches the pattern of an expectation.
bool match(std::string_view pattern, std::string_view actual);
std::string show(std::string_view pattern);

} // namespace ref
