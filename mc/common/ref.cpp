#include "common/ref.hpp"

#include <algorithm>
#include <cmath>
#include <cstring>
#include <unordered_map>

namespace ref {

std::string print_expr(const Node& n) {
    std::string s;
    print_expr(n, s);
    return s;
}

static void print_args(const Node& n, size_t from, std::string& out) {
    for (size_t i = from; i < n.c.size(); ++i) {
        if (i != from)
            out += ", ";
        print_expr(*n.c[i], out);
    }
}

static bool simple(const Node& n) {
    switch (n.k) {
    case K::Null: case K::True: case K::False: case K::Str: case K::Sym: case K::Var: case K::T: case K::Call:
    case K::MCall: case K::Field: case K::TField: case K::Index: case K::Tuple: case K::Array: case K::Std:
    case K::Paren: case K::Record:
        return true;
    case K::Int:
        return n.i >= 0;
    default:
        return false;
    }
}

static void print_op(const Node& n, std::string& out) {
    if (simple(n)) {
        print_expr(n, out);
    } else {
        out += '(';
        print_expr(n, out);
        out += ')';
    }
}

static void print_primary(const Node& n, std::string& out) {
    // instance of an access: integers would be lexed as floats
    if (simple(n) && n.k != K::Int) {
        print_expr(n, out);
    } else {
        out += '(';
        print_expr(n, out);
        out += ')';
    }
}

static void print_string(const std::string& s, std::string& out) {
    out += '"';
    for (char c : s) {
        if (c == '"' || c == '\\' || c == '$')
            out += '\\';
        if (c == '\n')
            out += "\\n";
        else
            out += c;
    }
    out += '"';
}

void print_expr(const Node& n, std::string& out) {
    switch (n.k) {
    case K::Null: out += "null"; return;
    case K::True: out += "true"; return;
    case K::False: out += "false"; return;
    case K::Int: out += std::to_string(n.i); return;
    case K::Float: out += fmt::format("{:.1f}", n.f); return;
    case K::Str: print_string(n.s, out); return;
    case K::Sym: out += "#" + n.s; return;
    case K::Var: out += n.s; return;
    case K::T: out += "h.t("; print_expr(*n.c[0], out); out += ")"; return;
    case K::Paren: out += "("; print_expr(*n.c[0], out); out += ")"; return;
    case K::Un: out += n.s; print_op(*n.c[0], out); return;
    case K::Bin:
        print_op(*n.c[0], out); out += " " + n.s + " "; print_op(*n.c[1], out);
        return;
    case K::And: print_op(*n.c[0], out); out += " && "; print_op(*n.c[1], out); return;
    case K::Or: print_op(*n.c[0], out); out += " || "; print_op(*n.c[1], out); return;
    case K::Coal: print_op(*n.c[0], out); out += " ?? "; print_op(*n.c[1], out); return;
    case K::Assign: print_expr(*n.c[0], out); out += " = "; print_op(*n.c[1], out); return;
    case K::OpAssign: print_expr(*n.c[0], out); out += " " + n.s + "= "; print_op(*n.c[1], out); return;
    case K::TupAssign:
        out += "(";
        for (size_t i = 0; i + 1 < n.c.size(); ++i) {
            if (i)
                out += ", ";
            print_expr(*n.c[i], out);
        }
        if (n.c.size() == 2)
            out += ",";
        out += ") = ";
        print_op(*n.c.back(), out);
        return;
    case K::If:
        out += "if "; print_op(*n.c[0], out); out += " "; print_expr(*n.c[1], out);
        if (n.c.size() > 2 && n.c[2]) {
            out += " else ";
            print_expr(*n.c[2], out);
        }
        return;
    case K::Block:
        out += "{\n";
        print_block_body(n, out, 2);
        out += "}";
        return;
    case K::Func:
        out += n.s.empty() ? "func(" : "func " + n.s + "(";
        for (size_t i = 0; i < n.names.size(); ++i)
            out += (i ? ", " : "") + n.names[i];
        out += n.flag ? ") = " : ") ";
        if (n.flag)
            print_op(*n.c[0], out);
        else
            print_expr(*n.c[0], out);
        return;
    case K::Call:
        print_primary(*n.c[0], out); out += n.opt ? "?(" : "("; print_args(n, 1, out); out += ")";
        return;
    case K::MCall:
        print_primary(*n.c[0], out); out += (n.opt ? "?." : ".") + n.s; out += n.opt2 ? "?(" : "(";
        print_args(n, 1, out); out += ")";
        return;
    case K::Field: print_primary(*n.c[0], out); out += (n.opt ? "?." : ".") + n.s; return;
    case K::TField: print_primary(*n.c[0], out); out += (n.opt ? "?." : ".") + std::to_string(n.i); return;
    case K::Index:
        print_primary(*n.c[0], out); out += n.opt ? "?[" : "["; print_expr(*n.c[1], out); out += "]";
        return;
    case K::Tuple:
        out += "("; print_args(n, 0, out); out += n.c.size() == 1 ? ",)" : ")";
        return;
    case K::Array: out += "["; print_args(n, 0, out); out += "]"; return;
    case K::Record:
        if (n.c.empty()) {
            out += "(:)";
            return;
        }
        out += "(";
        for (size_t i = 0; i < n.c.size(); ++i) {
            out += (i ? ", " : "") + n.names[i] + ": ";
            print_expr(*n.c[i], out);
        }
        out += ")";
        return;
    case K::Map:
        out += "map{";
        for (size_t i = 0; i + 1 < n.c.size(); i += 2) {
            if (i)
                out += ", ";
            print_op(*n.c[i], out); out += ": "; print_op(*n.c[i + 1], out);
        }
        out += "}";
        return;
    case K::Set: out += "set{"; print_args(n, 0, out); out += "}"; return;
    case K::Interp:
        out += '"';
        for (auto* e : n.c) {
            if (e->k == K::Str) {
                std::string t;
                print_string(e->s, t);
                out += t.substr(1, t.size() - 2);
            } else {
                out += "${"; print_expr(*e, out); out += "}";
            }
        }
        out += '"';
        return;
    case K::Std: out += "std." + n.s + "("; print_args(n, 0, out); out += ")"; return;
    case K::Return:
        out += "return";
        if (!n.c.empty()) {
            out += " ";
            print_op(*n.c[0], out);
        }
        return;
    case K::Break: out += "break"; return;
    case K::Continue: out += "continue"; return;
    default: print_stmt(n, out); return;
    }
}

void print_block_body(const Node& block, std::string& out, int indent) {
    for (size_t i = 0; i < block.c.size(); ++i) {
        const size_t from = out.size();
        print_stmt(*block.c[i], out, indent);
        // `if a {} else {} (b)` is a call: a statement that does not begin with a word needs a separator.
        const size_t first = out.find_first_not_of(" \n", from);
        if (i > 0 && first != out.npos && !isalpha((unsigned char) out[first]) && block.c[i - 1]->k == K::SExpr
            && (block.c[i - 1]->c[0]->k == K::If || block.c[i - 1]->c[0]->k == K::Block))
            out.insert(first, "; ");
    }
}

static bool is_named_function(const Node& d) {
    return d.k == K::SDecl && d.c.size() == 1 && d.c[0]->k == K::Func && !d.flag;
}

void print_decls(const Node& decls, std::string& out) {
    for (auto* d : decls.c) {
        if (is_named_function(*d)) {
            std::string f;
            print_expr(*d->c[0], f);
            out += "func " + d->s + f.substr(4) + (d->c[0]->flag ? ";\n" : "\n");
        } else {
            print_stmt(*d, out, 0);
        }
    }
}

static void print_names(const Node& n, std::string& out) {
    out += "(";
    for (size_t i = 0; i < n.names.size(); ++i)
        out += (i ? ", " : "") + n.names[i];
    if (n.names.size() == 1)
        out += ",";
    out += ")";
}

void print_stmt(const Node& n, std::string& out, int indent) {
    out.append(indent * 2, ' ');
    switch (n.k) {
    case K::SExpr:
        print_expr(*n.c[0], out);
        if (n.c[0]->k == K::If || n.c[0]->k == K::Block)
            out += "\n";
        else
            out += ";\n";
        return;
    case K::SDecl:
        out += n.flag ? "const " : "var ";
        out += n.s;
        if (!n.c.empty()) {
            out += " = ";
            print_expr(*n.c[0], out);
        }
        out += ";\n";
        return;
    case K::SDeclTup:
        out += n.flag ? "const " : "var ";
        print_names(n, out);
        out += " = "; print_expr(*n.c[0], out); out += ";\n";
        return;
    case K::SWhile: out += "while "; print_op(*n.c[0], out); out += " "; print_expr(*n.c[1], out); out += "\n"; return;
    case K::SFor:
        // c0 init expression or null (name s), c1 cond, c2 step, c3 body
        out += "for ";
        if (n.c[0]) {
            out += "var " + n.s + " = ";
            print_expr(*n.c[0], out);
        }
        out += "; ";
        if (n.c[1])
            print_op(*n.c[1], out);
        out += "; ";
        if (n.c[2])
            print_op(*n.c[2], out);
        out += " ";
        print_expr(*n.c[3], out);
        out += "\n";
        return;
    case K::SForEach:
        out += "for " + n.s + " in "; print_op(*n.c[0], out); out += " "; print_expr(*n.c[1], out); out += "\n";
        return;
    case K::SForEachTup:
        out += "for "; print_names(n, out); out += " in "; print_op(*n.c[0], out); out += " ";
        print_expr(*n.c[1], out); out += "\n";
        return;
    case K::SDefer:
        out += "defer "; print_expr(*n.c[0], out);
        out += (n.c[0]->k == K::If || n.c[0]->k == K::Block) ? ";\n" : ";\n";
        return;
    case K::SAssert:
        out += "assert("; print_expr(*n.c[0], out);
        if (n.c.size() > 1) {
            out += ", ";
            print_expr(*n.c[1], out);
        }
        out += ");\n";
        return;
    case K::SEmpty: out += ";\n"; return;
    default: fmt::print(stderr, "print_stmt: unexpected node\n"); abort();
    }
}

// ---------------------------------------------------------------------------------------------------------------

namespace {

enum class V : uint8_t { Null, Bool, Int, Float, Str, Sym, Tuple, Array, Record, Map, Set, Func, Exc, Res };

struct Obj;
struct Val {
    V k = V::Null;
    union {
        int64_t i;
        double f;
    };
    Obj* o = nullptr;
    Val() : i(0) {}
};

struct Env;
struct Obj {
    std::string s;
    std::vector<Val> items;
    std::vector<std::pair<std::string, Val>> fields;
    const Node* fn = nullptr;
    Env* env = nullptr;
    bool b = false;
};

struct Env {
    Env* parent;
    std::vector<std::pair<const std::string*, Val>> vars;
};

struct Panic {
    Val exc;
};
struct BreakSig {};
struct ContinueSig {};
struct ReturnSig {
    Val v;
};
struct FuelSig {};
struct UnsupportedSig {
    const char* what;
};

const char* const any_text = "\x01";

class Interp {
public:
    std::deque<Obj> objs;
    std::deque<Env> envs;
    std::string log;
    uint64_t steps = 0, max_steps;

    Val mk(V k) {
        Val v;
        v.k = k;
        objs.emplace_back();
        v.o = &objs.back();
        return v;
    }
    Val str(std::string s) {
        Val v = mk(V::Str);
        v.o->s = std::move(s);
        return v;
    }
    static Val integer(int64_t i) {
        Val v;
        v.k = V::Int;
        v.i = i;
        return v;
    }
    static Val boolean(bool b) {
        Val v;
        v.k = V::Bool;
        v.i = b;
        return v;
    }
    static Val flt(double f) {
        Val v;
        v.k = V::Float;
        v.f = f;
        return v;
    }
    [[noreturn]] void panic_any() {
        Val e = mk(V::Exc);
        e.o->s = any_text;
        throw Panic{e};
    }
    [[noreturn]] void panic_msg(std::string m) {
        Val e = mk(V::Exc);
        e.o->s = std::move(m);
        throw Panic{e};
    }
    Env* scope(Env* p) {
        envs.push_back(Env{p, {}});
        return &envs.back();
    }
    static bool truthy(const Val& v) { return !(v.k == V::Null || (v.k == V::Bool && !v.i)); }

    std::string dump(const Val& v, int depth = 0) {
        if (depth > 6)
            return "...";
        switch (v.k) {
        case V::Null: return "null";
        case V::Bool: return v.i ? "true" : "false";
        case V::Int: return std::to_string(v.i);
        case V::Float: return std::isnan(v.f) ? "fnan" : "f" + fmt::format("{:a}", v.f);
        case V::Str: return mc::quote(v.o->s);
        case V::Sym: return "<#" + v.o->s + ">";
        case V::Tuple:
        case V::Array: {
            std::string r = v.k == V::Tuple ? "(" : "[";
            for (size_t i = 0; i < v.o->items.size(); ++i)
                r += (i ? "," : "") + dump(v.o->items[i], depth + 1);
            return r + (v.k == V::Tuple ? ")" : "]");
        }
        case V::Record: {
            std::vector<std::string> fs;
            for (auto& f : v.o->fields)
                fs.push_back(mc::quote(f.first) + "=" + dump(f.second, depth + 1));
            std::sort(fs.begin(), fs.end());
            std::string r = "(:";
            for (size_t i = 0; i < fs.size(); ++i)
                r += (i ? "," : "") + fs[i];
            return r + ")";
        }
        case V::Func: return "<function>";
        case V::Exc: return "exception(" + (v.o->s == any_text ? std::string(any_text) : mc::quote(v.o->s)) + ")";
        case V::Res: return (v.o->b ? "success(" : "error(") + dump(v.o->items[0], depth + 1) + ")";
        case V::Map:
        case V::Set: throw UnsupportedSig{"dump of map"};
        }
        return "?";
    }

    bool equal(const Val& a, const Val& b) {
        if (a.k == V::Int && b.k == V::Float)
            return b.f == double(a.i) && std::fabs(b.f) < 9e15;
        if (a.k == V::Float && b.k == V::Int)
            return equal(b, a);
        if (a.k != b.k)
            return false;
        switch (a.k) {
        case V::Null: return true;
        case V::Bool:
        case V::Int: return a.i == b.i;
        case V::Float: return a.f == b.f;
        case V::Str:
        case V::Sym: return a.o->s == b.o->s;
        case V::Func: throw UnsupportedSig{"function identity"};
        default: return a.o == b.o;
        }
    }

    Val arith(const std::string& op, const Val& a, const Val& b) {
        if (op == "==")
            return boolean(equal(a, b));
        if (op == "!=")
            return boolean(!equal(a, b));
        bool num = (a.k == V::Int || a.k == V::Float) && (b.k == V::Int || b.k == V::Float);
        bool cmp = op == "<" || op == "<=" || op == ">" || op == ">=";
        if (cmp) {
            // ordering is defined for numbers, and for strings
            int c;
            if (a.k == V::Null || b.k == V::Null)
                throw UnsupportedSig{"ordering of null"};
            if (num) {
                double x = a.k == V::Int ? double(a.i) : a.f, y = b.k == V::Int ? double(b.i) : b.f;
                if (std::isnan(x) || std::isnan(y))
                    throw UnsupportedSig{"nan"};
                c = a.k == V::Int && b.k == V::Int ? (a.i < b.i ? -1 : a.i > b.i) : (x < y ? -1 : x > y);
            } else if (a.k == V::Str && b.k == V::Str) {
                throw UnsupportedSig{"string order"};
            } else {
                panic_any();
            }
            return boolean(op == "<" ? c < 0 : op == "<=" ? c <= 0 : op == ">" ? c > 0 : c >= 0);
        }
        if (!num)
            panic_any();
        if (a.k == V::Int && b.k == V::Int) {
            int64_t r;
            bool of = false;
            if (op == "+")
                of = __builtin_add_overflow(a.i, b.i, &r);
            else if (op == "-")
                of = __builtin_sub_overflow(a.i, b.i, &r);
            else if (op == "*")
                of = __builtin_mul_overflow(a.i, b.i, &r);
            else if (op == "/" || op == "%") {
                if (b.i == 0 || (a.i == INT64_MIN && b.i == -1))
                    panic_any();
                r = op == "/" ? a.i / b.i : a.i % b.i;
            } else
                throw UnsupportedSig{"operator"};
            if (of)
                panic_any();
            return integer(r);
        }
        double x = a.k == V::Int ? double(a.i) : a.f, y = b.k == V::Int ? double(b.i) : b.f;
        if (op == "+")
            return flt(x + y);
        if (op == "-")
            return flt(x - y);
        if (op == "*")
            return flt(x * y);
        if (op == "/")
            return flt(x / y);
        throw UnsupportedSig{"operator"};
    }

    Val* find(Env* e, const std::string& name) {
        for (; e; e = e->parent)
            for (size_t i = e->vars.size(); i-- > 0;)
                if (*e->vars[i].first == name)
                    return &e->vars[i].second;
        throw UnsupportedSig{"unbound name"};
    }

    void declare(Env* e, const std::string* name, Val v) {
        e->vars.emplace_back(name, v);
    }

    // Text produced by string interpolation.
    std::string text(const Val& v) {
        switch (v.k) {
        case V::Null: return "null";
        case V::Bool: return v.i ? "true" : "false";
        case V::Int: return std::to_string(v.i);
        case V::Str: return v.o->s;
        case V::Sym: return "#" + v.o->s;
        default: throw UnsupportedSig{"formatting"};
        }
    }

    Val field_get(const Val& o, const std::string& name) {
        if (o.k == V::Record) {
            for (auto& f : o.o->fields)
                if (f.first == name)
                    return f.second;
        }
        if (o.k == V::Str || o.k == V::Map || o.k == V::Set || o.k == V::Array || o.k == V::Tuple || o.k == V::Res
            || o.k == V::Exc)
            throw UnsupportedSig{"member of builtin"};
        panic_any();
    }
    void field_set(const Val& o, const std::string& name, const Val& v) {
        if (o.k == V::Record) {
            for (auto& f : o.o->fields)
                if (f.first == name) {
                    f.second = v;
                    return;
                }
        }
        panic_any();
    }
    Val tfield_get(const Val& o, int64_t i) {
        if (o.k == V::Tuple && i >= 0 && size_t(i) < o.o->items.size())
            return o.o->items[i];
        panic_any();
    }
    void tfield_set(const Val& o, int64_t i, const Val& v) {
        if (o.k == V::Tuple && i >= 0 && size_t(i) < o.o->items.size()) {
            o.o->items[i] = v;
            return;
        }
        panic_any();
    }
    Val index_get(const Val& o, const Val& i) {
        if (o.k == V::Map) {
            for (auto& p : o.o->items)
                if (equal(p.o->items[0], i))
                    return p.o->items[1];
            return Val();
        }
        if ((o.k == V::Array || o.k == V::Tuple) && i.k == V::Int && i.i >= 0 && size_t(i.i) < o.o->items.size())
            return o.o->items[i.i];
        if (o.k == V::Set || o.k == V::Str)
            throw UnsupportedSig{"index of set"};
        panic_any();
    }
    void index_set(const Val& o, const Val& i, const Val& v) {
        if (o.k == V::Map) {
            for (auto& p : o.o->items)
                if (equal(p.o->items[0], i)) {
                    p.o->items[1] = v;
                    return;
                }
            Val p = mk(V::Tuple);
            p.o->items = {i, v};
            o.o->items.push_back(p);
            return;
        }
        if ((o.k == V::Array || o.k == V::Tuple) && i.k == V::Int && i.i >= 0 && size_t(i.i) < o.o->items.size()) {
            o.o->items[i.i] = v;
            return;
        }
        panic_any();
    }

    int depth = 0;

    Val call(const Val& f, const std::vector<Val>& args) {
        if (f.k != V::Func)
            panic_any();
        const Node* fn = f.o->fn;
        if (fn->names.size() != args.size())
            panic_any();
        if (++depth > 200)
            throw FuelSig{};
        struct D {
            int& d;
            ~D() { --d; }
        } d{depth};
        Env* e = scope(f.o->env);
        for (size_t i = 0; i < args.size(); ++i)
            declare(e, &fn->names[i], args[i]);
        try {
            Val r = ev(*fn->c[0], e);
            return fn->flag ? r : Val();
        } catch (ReturnSig& r) {
            return r.v;
        }
    }

    // Evaluates an access path; sets `cut` if an optional access ended the chain.
    Val path(const Node& n, Env* e, bool& cut) {
        switch (n.k) {
        case K::Field:
        case K::TField:
        case K::Index: {
            Val o = path(*n.c[0], e, cut);
            if (cut)
                return Val();
            if (n.opt && o.k == V::Null) {
                cut = true;
                return Val();
            }
            step();
            if (n.k == K::Field)
                return field_get(o, n.s);
            if (n.k == K::TField)
                return tfield_get(o, n.i);
            Val i = ev(*n.c[1], e);
            return index_get(o, i);
        }
        case K::Call: {
            Val f = path(*n.c[0], e, cut);
            if (cut)
                return Val();
            if (n.opt && f.k == V::Null) {
                cut = true;
                return Val();
            }
            step();
            std::vector<Val> args;
            for (size_t i = 1; i < n.c.size(); ++i)
                args.push_back(ev(*n.c[i], e));
            return call(f, args);
        }
        case K::MCall: {
            Val o = path(*n.c[0], e, cut);
            if (cut)
                return Val();
            if (n.opt && o.k == V::Null) {
                cut = true;
                return Val();
            }
            step();
            // builtin methods
            if (o.k == V::Array && (n.s == "append" || n.s == "size")) {
                std::vector<Val> args;
                for (size_t i = 1; i < n.c.size(); ++i)
                    args.push_back(ev(*n.c[i], e));
                if (n.s == "append") {
                    if (args.empty())
                        panic_any();
                    o.o->items.push_back(args[0]);
                    return Val();
                }
                return integer(o.o->items.size()); // builtin functions ignore additional arguments
            }
            if (o.k == V::Res) {
                for (size_t i = 1; i < n.c.size(); ++i)
                    ev(*n.c[i], e);
                if (n.s == "is_success" || n.s == "is_error")
                    return boolean(o.o->b == (n.s == "is_success"));
                if (n.s == "value" || n.s == "error") {
                    if (o.o->b != (n.s == "value"))
                        panic_any();
                    return o.o->items[0];
                }
                throw UnsupportedSig{"method of result"};
            }
            Val f = field_get(o, n.s);
            if (n.opt2 && f.k == V::Null) {
                cut = true;
                return Val();
            }
            std::vector<Val> args;
            for (size_t i = 1; i < n.c.size(); ++i)
                args.push_back(ev(*n.c[i], e));
            return call(f, args);
        }
        case K::Paren: return path(*n.c[0], e, cut); // parentheses only group
        default: return ev(n, e);
        }
    }

    void step() {
        if (++steps > max_steps)
            throw FuelSig{};
    }

    struct Target {
        const Node* n;
        Val o, i;
        Val* var = nullptr;
    };
    Target target(const Node& n, Env* e) {
        Target t;
        t.n = &n;
        switch (n.k) {
        case K::Var: t.var = nullptr; break;
        case K::Field:
        case K::TField: t.o = ev(*n.c[0], e); break;
        case K::Index:
            t.o = ev(*n.c[0], e);
            t.i = ev(*n.c[1], e);
            break;
        default: throw UnsupportedSig{"target"};
        }
        return t;
    }
    void store(const Target& t, Env* e, const Val& v) {
        switch (t.n->k) {
        case K::Var: *find(e, t.n->s) = v; break;
        case K::Field: field_set(t.o, t.n->s, v); break;
        case K::TField: tfield_set(t.o, t.n->i, v); break;
        default: index_set(t.o, t.i, v); break;
        }
    }
    Val load(const Target& t, Env* e) {
        switch (t.n->k) {
        case K::Var: return *find(e, t.n->s);
        case K::Field: return field_get(t.o, t.n->s);
        case K::TField: return tfield_get(t.o, t.n->i);
        default: return index_get(t.o, t.i);
        }
    }

    Val destructure_get(const Val& v, size_t i) { return tfield_get(v, int64_t(i)); }

    Val ev(const Node& n, Env* e) {
        step();
        switch (n.k) {
        case K::Null: return Val();
        case K::True: return boolean(true);
        case K::False: return boolean(false);
        case K::Int: return integer(n.i);
        case K::Float: return flt(n.f);
        case K::Str: return str(n.s);
        case K::Sym: {
            Val v = mk(V::Sym);
            v.o->s = n.s;
            return v;
        }
        case K::Var: return *find(e, n.s);
        case K::Paren: return ev(*n.c[0], e);
        case K::T: {
            Val v = ev(*n.c[0], e);
            std::string d = dump(v);
            if (!log.empty())
                log += " ";
            log += d;
            return v;
        }
        case K::Un: {
            Val v = ev(*n.c[0], e);
            if (n.s == "!")
                return boolean(!truthy(v));
            if (n.s == "-") {
                if (v.k == V::Int) {
                    if (v.i == INT64_MIN)
                        panic_any();
                    return integer(-v.i);
                }
                if (v.k == V::Float)
                    return flt(-v.f);
                panic_any();
            }
            if (n.s == "+") {
                if (v.k == V::Int || v.k == V::Float)
                    return v;
                panic_any();
            }
            if (n.s == "~") {
                if (v.k == V::Int)
                    return integer(~v.i);
                panic_any();
            }
            throw UnsupportedSig{"unary"};
        }
        case K::Bin: {
            Val a = ev(*n.c[0], e);
            Val b = ev(*n.c[1], e);
            return arith(n.s, a, b);
        }
        case K::And: {
            Val a = ev(*n.c[0], e);
            return truthy(a) ? ev(*n.c[1], e) : a;
        }
        case K::Or: {
            Val a = ev(*n.c[0], e);
            return truthy(a) ? a : ev(*n.c[1], e);
        }
        case K::Coal: {
            Val a = ev(*n.c[0], e);
            return a.k != V::Null ? a : ev(*n.c[1], e);
        }
        case K::Assign: {
            Target t = target(*n.c[0], e);
            Val v = ev(*n.c[1], e);
            store(t, e, v);
            return v;
        }
        case K::OpAssign: {
            Target t = target(*n.c[0], e);
            Val a = load(t, e);
            Val b = ev(*n.c[1], e);
            Val v = arith(n.s, a, b);
            store(t, e, v);
            return v;
        }
        case K::TupAssign: {
            std::vector<Target> ts;
            for (size_t i = 0; i + 1 < n.c.size(); ++i)
                ts.push_back(target(*n.c[i], e));
            Val v = ev(*n.c.back(), e);
            for (size_t i = 0; i < ts.size(); ++i)
                store(ts[i], e, destructure_get(v, i));
            return v;
        }
        case K::If: {
            Val c = ev(*n.c[0], e);
            if (truthy(c))
                return ev(*n.c[1], e);
            if (n.c.size() > 2 && n.c[2])
                return ev(*n.c[2], e);
            return Val();
        }
        case K::Block: return block(n, scope(e));
        case K::Func: {
            Val f = mk(V::Func);
            f.o->fn = &n;
            f.o->env = e;
            if (!n.s.empty()) // the name is visible in the function and in the rest of the scope
                declare(e, &n.s, f);
            return f;
        }
        case K::Call:
        case K::MCall:
        case K::Field:
        case K::TField:
        case K::Index: {
            bool cut = false;
            return path(n, e, cut);
        }
        case K::Tuple:
        case K::Array: {
            std::vector<Val> vs;
            for (auto* c : n.c)
                vs.push_back(ev(*c, e));
            Val v = mk(n.k == K::Tuple ? V::Tuple : V::Array);
            v.o->items = std::move(vs);
            return v;
        }
        case K::Record: {
            std::vector<std::pair<std::string, Val>> fs;
            for (size_t i = 0; i < n.c.size(); ++i)
                fs.emplace_back(n.names[i], ev(*n.c[i], e));
            Val v = mk(V::Record);
            v.o->fields = std::move(fs);
            return v;
        }
        case K::Map: {
            Val v = mk(V::Map);
            std::vector<Val> kv;
            for (auto* c : n.c)
                kv.push_back(ev(*c, e));
            for (size_t i = 0; i + 1 < kv.size(); i += 2)
                index_set(v, kv[i], kv[i + 1]);
            return v;
        }
        case K::Set: {
            Val v = mk(V::Set);
            for (auto* c : n.c) {
                Val x = ev(*c, e);
                bool has = false;
                for (auto& y : v.o->items)
                    has = has || equal(x, y);
                if (!has)
                    v.o->items.push_back(x);
            }
            return v;
        }
        case K::Interp: {
            std::vector<Val> vs;
            for (auto* c : n.c)
                vs.push_back(ev(*c, e));
            std::string s;
            for (auto& v : vs)
                s += text(v);
            return str(s);
        }
        case K::Std: return std_call(n, e);
        case K::Return: {
            Val v;
            if (!n.c.empty())
                v = ev(*n.c[0], e);
            throw ReturnSig{v};
        }
        case K::Break: throw BreakSig{};
        case K::Continue: throw ContinueSig{};
        default: stmt(n, e, nullptr); return Val();
        }
    }

    Val std_call(const Node& n, Env* e) {
        std::vector<Val> a;
        for (auto* c : n.c)
            a.push_back(ev(*c, e));
        if (n.s == "panic") {
            if (a[0].k == V::Str)
                panic_msg(a[0].o->s);
            if (a[0].k == V::Exc)
                throw Panic{a[0]};
            throw UnsupportedSig{"panic value"};
        }
        if (n.s == "catch_panic") {
            Val r = mk(V::Res);
            try {
                Val v = call(a[0], {});
                r.o->b = true;
                r.o->items = {v};
            } catch (Panic& p) {
                r.o->b = false;
                r.o->items = {p.exc};
            }
            return r;
        }
        if (n.s == "success" || n.s == "error") {
            Val r = mk(V::Res);
            r.o->b = n.s == "success";
            r.o->items = {a[0]};
            return r;
        }
        throw UnsupportedSig{"std function"};
    }

    // Runs the statements of a block in `e`, then its deferred expressions.
    Val block(const Node& n, Env* e) {
        std::vector<const Node*> defers;
        Val result;
        enum { None, Break, Continue, Return, Panicked } exit = None;
        Val exit_value;
        try {
            for (size_t i = 0; i < n.c.size(); ++i) {
                const Node& s = *n.c[i];
                step();
                if (s.k == K::SDefer)
                    defers.push_back(s.c[0]);
                else if (i + 1 == n.c.size() && s.k == K::SExpr)
                    result = ev(*s.c[0], e);
                else
                    stmt(s, e, nullptr);
            }
        } catch (BreakSig&) {
            exit = Break;
        } catch (ContinueSig&) {
            exit = Continue;
        } catch (ReturnSig& r) {
            exit = Return;
            exit_value = r.v;
        } catch (Panic& p) {
            exit = Panicked;
            exit_value = p.exc;
        }
        auto jump = [&](auto kind, Val v) {
            if (exit == Panicked)
                throw UnsupportedSig{"jump out of a deferred expression during a panic"};
            exit = kind;
            exit_value = v;
        };
        while (!defers.empty()) {
            const Node* d = defers.back();
            defers.pop_back();
            try {
                ev(*d, e);
            } catch (BreakSig&) {
                jump(Break, Val());
            } catch (ContinueSig&) {
                jump(Continue, Val());
            } catch (ReturnSig& r) {
                jump(Return, r.v);
            } catch (Panic& p) {
                // A panic in a deferred expression becomes secondary to the current one; the remaining ones still run.
                if (exit != Panicked) {
                    exit = Panicked;
                    exit_value = p.exc;
                }
            }
        }
        switch (exit) {
        case None: return result;
        case Break: throw BreakSig{};
        case Continue: throw ContinueSig{};
        case Return: throw ReturnSig{exit_value};
        case Panicked: throw Panic{exit_value};
        }
        return result;
    }

    void stmt(const Node& n, Env* e, void*) {
        switch (n.k) {
        case K::SEmpty: return;
        case K::SExpr: ev(*n.c[0], e); return;
        case K::SDecl: {
            Val v;
            if (!n.c.empty())
                v = ev(*n.c[0], e);
            declare(e, &n.s, v);
            return;
        }
        case K::SDeclTup: {
            Val v = ev(*n.c[0], e);
            for (size_t i = 0; i < n.names.size(); ++i)
                declare(e, &n.names[i], destructure_get(v, i));
            return;
        }
        case K::SWhile:
            while (true) {
                step();
                if (!truthy(ev(*n.c[0], e)))
                    return;
                try {
                    ev(*n.c[1], e);
                } catch (BreakSig&) {
                    return;
                } catch (ContinueSig&) {
                }
            }
        case K::SFor: {
            Env* f = scope(e);
            if (n.c[0])
                declare(f, &n.s, ev(*n.c[0], e));
            while (true) {
                step();
                if (n.c[1] && !truthy(ev(*n.c[1], f)))
                    return;
                try {
                    ev(*n.c[3], f);
                } catch (BreakSig&) {
                    return;
                } catch (ContinueSig&) {
                }
                if (n.c[2])
                    ev(*n.c[2], f);
            }
        }
        case K::SForEach:
        case K::SForEachTup: {
            Val v = ev(*n.c[0], e);
            if (v.k == V::Str)
                throw UnsupportedSig{"string iteration"};
            if (v.k != V::Array && v.k != V::Tuple && v.k != V::Map && v.k != V::Set)
                panic_any();
            for (size_t i = 0; i < v.o->items.size(); ++i) {
                step();
                Env* f = scope(e);
                Val item = v.o->items[i];
                if (v.k == V::Map) {
                    Val t = mk(V::Tuple);
                    t.o->items = item.o->items;
                    item = t;
                }
                if (n.k == K::SForEach) {
                    declare(f, &n.s, item);
                } else {
                    for (size_t k = 0; k < n.names.size(); ++k)
                        declare(f, &n.names[k], destructure_get(item, k));
                }
                try {
                    ev(*n.c[1], f);
                } catch (BreakSig&) {
                    return;
                } catch (ContinueSig&) {
                }
            }
            return;
        }
        case K::SAssert: {
            Val c = ev(*n.c[0], e);
            if (truthy(c))
                return;
            if (n.c.size() > 1)
                ev(*n.c[1], e);
            panic_any();
        }
        default: throw UnsupportedSig{"statement"};
        }
    }
};

} // namespace

Expected evaluate(const Node& body, uint64_t max_steps, const Node* decls) {
    Interp in;
    in.max_steps = max_steps;
    Expected x;
    try {
        try {
            Env* e = in.scope(nullptr);
            if (decls) {
                for (auto* d : decls->c)
                    if (is_named_function(*d))
                        in.stmt(*d, e, nullptr);
                for (auto* d : decls->c)
                    if (!is_named_function(*d))
                        in.stmt(*d, e, nullptr);
                in.log.clear();
                e = in.scope(e);
            }
            in.ev(body, e);
            x.ok = true;
            x.value = "null";
        } catch (ReturnSig& r) {
            x.ok = true;
            x.value = in.dump(r.v);
        } catch (Panic& p) {
            x.ok = false;
            x.value = in.dump(p.exc);
        }
    } catch (FuelSig&) {
        x.fuel = true;
    } catch (UnsupportedSig&) {
        x.unsupported = true;
    }
    x.log = std::move(in.log);
    x.steps = in.steps;
    return x;
}

bool match(std::string_view p, std::string_view a) {
    size_t i = 0, j = 0;
    while (i < p.size()) {
        if (p[i] == '\x01') {
            ++i;
            if (j >= a.size() || a[j] != '"')
                return false;
            ++j;
            while (j < a.size() && a[j] != '"')
                j += a[j] == '\\' ? 2 : 1;
            if (j >= a.size())
                return false;
            ++j;
            continue;
        }
        if (j >= a.size() || p[i] != a[j])
            return false;
        ++i;
        ++j;
    }
    return j == a.size();
}

std::string show(std::string_view p) {
    std::string r;
    for (char c : p)
        if (c == '\x01')
            r += "\"*\"";
        else
            r += c;
    return r;
}

} // namespace ref
