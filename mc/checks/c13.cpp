// C13: exactly the well-formed programs are accepted.
//
// Program fragments carry their text together with a declarative description of the static rules they are subject to;
// the verdict of the rules is compared with the verdict of the compiler.
#include <map>
#include <memory>

#include "common/build.hpp"
#include "common/lang.hpp"

using namespace mc;

const char* const mc::check_id = "C13";

namespace {

enum Kind { Var, Const, FuncName, Param, Import };
enum Type { None, Never, Value };

struct Ctx {
    struct Sym {
        Kind kind;
        bool active = false;
    };
    std::vector<std::map<std::string, Sym>> scopes;
    bool in_loop = false, in_func = false;
    int errors = 0;

    void error() { ++errors; }
    void declare(const std::string& name, Kind k) {
        if (name.empty())
            return;
        if (scopes.back().count(name))
            error();
        else
            scopes.back()[name] = {k};
    }
    void activate(const std::string& name, bool import = false) {
        for (size_t i = scopes.size(); i-- > 0;)
            if (scopes[i].count(name) && (scopes[i][name].kind == Import) == import) {
                scopes[i][name].active = true;
                return;
            }
    }
    Sym* find(const std::string& name) {
        for (size_t i = scopes.size(); i-- > 0;)
            if (scopes[i].count(name))
                return &scopes[i][name];
        return nullptr;
    }
};

struct Frag;
using P = std::shared_ptr<const Frag>;
using Ps = std::vector<P>;

struct Frag {
    std::string text;
    Type type = Value;                                 // of expressions and expression statements
    std::vector<std::pair<std::string, Kind>> decls{}; // names declared in the scope the fragment appears in
    std::function<void(Ctx&, bool)> check = [](Ctx&, bool) {};
    bool block_like = false; // if, block, function with block: no semicolon
    // assignment targets
    enum Target { NotAssignable, Name, Path, TupleLit } target = NotAssignable;
    bool optional_path = false; // a path that contains an optional access
    std::string name{};
    Ps items{};
    int stmts = 0;
};

P make(Frag f) { return std::make_shared<const Frag>(std::move(f)); }

std::vector<std::pair<std::string, Kind>> decls_of(const Ps& ps) {
    std::vector<std::pair<std::string, Kind>> r;
    for (auto& p : ps)
        if (p)
            r.insert(r.end(), p->decls.begin(), p->decls.end());
    return r;
}

// An expression whose operands are all required to be values.
P op(const std::string& format_text, Ps operands, Type type = Value) {
    Frag f;
    f.text = format_text;
    f.type = type;
    f.decls = decls_of(operands);
    f.check = [operands](Ctx& c, bool) {
        for (auto& o : operands)
            if (o)
                o->check(c, true);
    };
    return make(f);
}

std::string par(const P& e) { return "(" + e->text + ")"; }

P num(int n = 1) { return op(std::to_string(n), {}); }
P use(const std::string& name) {
    Frag f;
    f.text = name;
    f.name = name;
    f.target = Frag::Name;
    f.check = [name](Ctx& c, bool) {
        auto* s = c.find(name);
        if (!s || !s->active)
            c.error();
    };
    return make(f);
}
P ret() {
    Frag f;
    f.text = "return";
    f.type = Never;
    f.check = [](Ctx& c, bool) {
        if (!c.in_func)
            c.error();
    };
    return make(f);
}
P ret(P e) {
    Frag f;
    f.text = "return " + e->text;
    f.type = Never;
    f.decls = e->decls;
    f.check = [e](Ctx& c, bool) {
        if (!c.in_func)
            c.error();
        e->check(c, true);
    };
    return make(f);
}
P jump(const std::string& word) {
    Frag f;
    f.text = word;
    f.type = Never;
    f.check = [](Ctx& c, bool) {
        if (!c.in_loop)
            c.error();
    };
    return make(f);
}

void in_scope(Ctx& c, const std::vector<std::pair<std::string, Kind>>& decls, const std::function<void()>& body) {
    c.scopes.emplace_back();
    for (auto& [n, k] : decls)
        c.declare(n, k);
    body();
    c.scopes.pop_back();
}

P block(Ps stmts) {
    Frag f;
    f.text = "{ ";
    for (auto& s : stmts)
        f.text += s->text + " ";
    f.text += "}";
    while (!stmts.empty() && stmts.back()->text == ";") // empty statements have no meaning
        stmts.pop_back();
    f.type = stmts.empty() ? None : stmts.back()->type;
    f.block_like = true;
    f.stmts = int(stmts.size());
    f.check = [stmts, type = f.type](Ctx& c, bool required) {
        in_scope(c, decls_of(stmts), [&] {
            for (size_t i = 0; i < stmts.size(); ++i)
                stmts[i]->check(c, required && i + 1 == stmts.size());
        });
        if (required && type == None)
            c.error();
    };
    return make(f);
}

P iff(P cond, P then, P els = nullptr) {
    Frag f;
    f.text = "if " + par(cond) + " " + then->text + (els ? " else " + els->text : "");
    f.type = !els || then->type == None || els->type == None ? None : (then->type == Value || els->type == Value) ? Value : Never;
    f.decls = decls_of({cond});
    f.block_like = true;
    f.check = [=, type = f.type](Ctx& c, bool required) {
        cond->check(c, true);
        then->check(c, required);
        if (els)
            els->check(c, required);
        if (required && type == None)
            c.error();
    };
    return make(f);
}

// `value_body`: func(..) = e
P func(const std::string& name, std::vector<std::string> params, P body, bool value_body) {
    Frag f;
    f.text = "func " + name + "(";
    for (size_t i = 0; i < params.size(); ++i)
        f.text += (i ? ", " : "") + params[i];
    f.text += value_body ? ") = " + (body->block_like ? body->text : par(body)) : ") " + body->text;
    if (!name.empty())
        f.decls = {{name, FuncName}};
    f.block_like = !value_body;
    f.check = [=](Ctx& c, bool) {
        if (!name.empty())
            c.activate(name);
        Ctx saved;
        std::swap(saved.in_loop, c.in_loop);
        saved.in_func = c.in_func;
        c.in_loop = false;
        c.in_func = true;
        std::vector<std::pair<std::string, Kind>> ps;
        for (auto& p : params)
            ps.push_back({p, Param});
        in_scope(c, ps, [&] {
            for (auto& p : params)
                c.activate(p);
            if (body->block_like && !value_body)
                body->check(c, false);
            else
                in_scope(c, body->decls, [&] { body->check(c, value_body); });
        });
        c.in_loop = saved.in_loop;
        c.in_func = saved.in_func;
    };
    return make(f);
}

void check_target(Ctx& c, const P& t, bool allow_tuple) {
    switch (t->target) {
    case Frag::Name: {
        auto* s = c.find(t->name);
        if (s && s->kind != Var && s->kind != Param)
            c.error();
        break;
    }
    case Frag::Path:
        if (t->optional_path)
            c.error();
        break;
    case Frag::TupleLit:
        if (!allow_tuple)
            c.error();
        for (auto& i : t->items)
            check_target(c, i, false);
        break;
    case Frag::NotAssignable: c.error(); break;
    }
}

P assign(P target, P value, const std::string& o = "=") {
    Frag f;
    f.text = target->text + " " + o + " " + (value->type == Value && !value->block_like ? value->text : par(value));
    f.decls = decls_of({target, value});
    f.check = [=](Ctx& c, bool) {
        check_target(c, target, o == "=");
        target->check(c, true);
        value->check(c, true);
    };
    return make(f);
}

P path(P instance, const std::string& suffix, bool optional, bool is_call, Ps operands = {}) {
    Frag f;
    f.text = instance->text + suffix;
    operands.insert(operands.begin(), instance);
    f.target = is_call ? Frag::NotAssignable : Frag::Path;
    f.optional_path = optional || instance->optional_path;
    f.decls = decls_of(operands);
    f.check = [=](Ctx& c, bool) {
        for (auto& o : operands)
            o->check(c, true);
    };
    return make(f);
}

P tuple(Ps items) {
    Frag f;
    f.text = "(";
    for (size_t i = 0; i < items.size(); ++i)
        f.text += (i ? ", " : "") + items[i]->text;
    f.text += items.size() == 1 ? ",)" : ")";
    f.target = Frag::TupleLit;
    f.items = items;
    f.decls = decls_of(items);
    f.check = [items](Ctx& c, bool) {
        for (auto& i : items)
            i->check(c, true);
    };
    return make(f);
}

P group(P e) { // parentheses have no meaning of their own
    Frag f = *e;
    f.text = par(e);
    f.block_like = false;
    return make(f);
}

// Statements
P ex(P e) {
    Frag f;
    f.text = e->text + (e->block_like ? ";" : ";");
    f.type = e->type;
    f.decls = e->decls;
    f.check = e->check;
    return make(f);
}
P decl(bool constant, std::vector<std::string> names, P init, const std::string& modifiers = "") {
    Frag f;
    bool tup = names.size() > 1;
    f.text = modifiers + (constant ? "const " : "var ") + (tup ? "(" : "");
    for (size_t i = 0; i < names.size(); ++i) {
        f.text += (i ? ", " : "") + names[i];
        f.decls.push_back({names[i], constant ? Const : Var});
    }
    f.text += (tup ? ")" : "");
    if (init) {
        f.text += " = " + init->text;
        f.decls.insert(f.decls.end(), init->decls.begin(), init->decls.end());
    }
    f.text += ";";
    f.type = None;
    f.check = [=](Ctx& c, bool) {
        if (constant && !init)
            c.error();
        if (!modifiers.empty() && !constant)
            c.error();
        if (init)
            init->check(c, true);
        for (auto& n : names)
            c.activate(n);
    };
    return make(f);
}
P wh(P cond, P body) {
    Frag f;
    f.text = "while " + par(cond) + " " + body->text;
    f.type = None;
    f.decls = cond->decls;
    f.check = [=](Ctx& c, bool) {
        cond->check(c, true);
        bool l = c.in_loop;
        c.in_loop = true;
        body->check(c, false);
        c.in_loop = l;
    };
    return make(f);
}
P forr(P init /* decl or null */, P cond, P step, P body) {
    Frag f;
    f.text = "for " + (init ? init->text : std::string(";")) + " " + (cond ? cond->text : "") + "; " + (step ? par(step) : "") + " " + body->text;
    f.type = None;
    f.check = [=](Ctx& c, bool) {
        in_scope(c, decls_of({init, cond, step}), [&] {
            if (init)
                init->check(c, false);
            if (cond)
                cond->check(c, true);
            if (step)
                step->check(c, false);
            bool l = c.in_loop;
            c.in_loop = true;
            body->check(c, false);
            c.in_loop = l;
        });
    };
    return make(f);
}
P foreach(std::vector<std::string> names, P e, P body) {
    Frag f;
    f.text = "for " + std::string(names.size() > 1 ? "(" : "");
    for (size_t i = 0; i < names.size(); ++i)
        f.text += (i ? ", " : "") + names[i];
    f.text += (names.size() > 1 ? ") in " : " in ") + par(e) + " " + body->text;
    f.type = None;
    f.decls = e->decls;
    f.check = [=](Ctx& c, bool) {
        e->check(c, true);
        std::vector<std::pair<std::string, Kind>> ds;
        for (auto& n : names)
            ds.push_back({n, Const});
        in_scope(c, ds, [&] {
            for (auto& n : names)
                c.activate(n);
            bool l = c.in_loop;
            c.in_loop = true;
            body->check(c, false);
            c.in_loop = l;
        });
    };
    return make(f);
}
P defer(P e) {
    Frag f;
    f.text = "defer " + e->text + ";";
    f.type = None;
    f.decls = e->decls;
    f.check = [=](Ctx& c, bool) { e->check(c, false); };
    return make(f);
}
P assertion(Ps es) {
    Frag f;
    f.text = "assert(";
    for (size_t i = 0; i < es.size(); ++i)
        f.text += (i ? ", " : "") + es[i]->text;
    f.text += ");";
    f.type = None;
    f.decls = decls_of(es);
    f.check = [=](Ctx& c, bool) {
        for (auto& e : es)
            e->check(c, true);
    };
    return make(f);
}
P import(const std::string& text, const std::string& name) {
    Frag f;
    f.text = "import " + text + ";";
    f.decls = {{name, Import}};
    f.type = None;
    f.check = [=](Ctx& c, bool) { c.activate(name, true); };
    return make(f);
}
// function declaration at file level
P item(P fn, bool exported) {
    Frag f = *fn;
    f.text = (exported ? "export " : "") + fn->text + (fn->block_like ? "" : ";");
    f.type = None;
    bool anonymous = fn->decls.empty();
    f.check = [=](Ctx& c, bool) {
        if (exported && anonymous)
            c.error();
        fn->check(c, false);
    };
    return make(f);
}

// ---------------------------------------------------------------------------------------------------------------

// Verdict of the rules for a module made of files.
bool well_formed(const std::vector<Ps>& files) {
    Ctx c;
    c.scopes.emplace_back(); // module scope
    std::vector<std::map<std::string, Ctx::Sym>> file_scopes;
    for (auto& items : files) {
        file_scopes.emplace_back();
        for (auto& i : items) {
            for (auto& [n, k] : i->decls) {
                auto& scope = k == Import ? file_scopes.back() : c.scopes[0];
                if (scope.count(n))
                    c.error();
                else
                    scope[n] = {k, k == FuncName};
            }
        }
    }
    for (size_t i = 0; i < files.size(); ++i) {
        c.scopes.push_back(file_scopes[i]);
        for (auto& item : files[i])
            item->check(c, false);
        c.scopes.pop_back();
    }
    return c.errors == 0;
}

struct Compiled {
    ApiError error;
    tiro_module_t module = nullptr;
    std::vector<Message> messages;
    ~Compiled() { tiro_module_free(module); }
};

void compile_files(const std::vector<std::string>& sources, const std::string& name, Compiled& out) {
    tiro_compiler_t comp = tiro_compiler_new(S(name), Err());
    tiro_compiler_set_message_callback(
        comp,
        [](const tiro_compiler_message_t* m, void* ud) {
            auto* out = static_cast<Compiled*>(ud);
            out->messages.push_back({m->severity, std::string(V(m->file)), std::string(V(m->text)), m->line, m->column});
            return true;
        },
        &out, Err());
    for (size_t i = 0; i < sources.size(); ++i)
        tiro_compiler_add_file(comp, S(fmt::format("file{}", i)), S(sources[i]), Err());
    tiro_error_t err = nullptr;
    tiro_compiler_run(comp, &err);
    out.error = take_error(err);
    if (out.error.ok()) {
        MC_CHECK(tiro_compiler_has_module(comp), "no module after success");
        tiro_compiler_take_module(comp, &out.module, Err());
    } else {
        MC_CHECK(!tiro_compiler_has_module(comp), "a module although the source was rejected");
    }
    tiro_compiler_free(comp);
}

// Programs are checked in blocks; each block has a machine into which the accepted modules are loaded.
struct Checker {
    std::vector<std::pair<std::vector<std::string>, bool>> block;
    std::string what;
    size_t limit = 64;

    explicit Checker(std::string w)
        : what(std::move(w)) {}
    ~Checker() noexcept(false) {
        if (!std::uncaught_exceptions())
            flush();
    }

    void file(const std::vector<Ps>& files) {
        ++count_;
        if (pending_ == 0)
            mine_ = R.claim();
        if (mine_) {
            std::vector<std::string> texts;
            for (auto& f : files) {
                std::string t;
                for (auto& i : f)
                    t += i->text + "\n";
                texts.push_back(t);
            }
            block.push_back({texts, well_formed(files)});
        }
        if (++pending_ == limit)
            flush();
    }
    // a function body
    void text(const std::string& source, bool expected) {
        if (pending_ == 0)
            mine_ = R.claim();
        if (mine_)
            block.push_back({{source}, expected});
        if (++pending_ == limit)
            flush();
    }
    void body(const Ps& stmts) { file({{import("std", "std"), item(func("f", {"p"}, ::block(stmts), false), true)}}); }

    void flush() {
        pending_ = 0;
        if (block.empty())
            return;
        auto items = std::move(block);
        block.clear();
        R.exec_batch(
            items.size(), [&](size_t i) { return what + ": " + items[i].first.back(); },
            [&](size_t b, size_t e) {
                Vm vm;
                for (size_t i = b; i < e; ++i) {
                    R.sub(i);
                    try {
                        one(vm, items[i].first, items[i].second, i);
                    } catch (const Failure& f) {
                        R.sub_fail(i, f.what);
                    }
                }
            });
    }

private:
    void one(Vm& vm, const std::vector<std::string>& sources, bool expected, size_t n) {
        Compiled c;
        compile_files(sources, fmt::format("m{}", n), c);
        std::string text;
        for (auto& s : sources)
            text += s + "----\n";
        size_t errors = 0;
        std::string messages;
        for (auto& m : c.messages) {
            errors += m.severity == TIRO_SEVERITY_ERROR;
            messages += fmt::format("{}:{}: {}\n", m.line, m.column, m.text);
        }
        R.states();
        R.evaluations();
        R.transitions();
        R.outcome(messages);
        bool ok = c.error.ok();
        if (!ok && c.error.code != TIRO_ERROR_BAD_SOURCE)
            fail("{}the compiler failed with {}: {} {}", text, tiro_errc_name(c.error.code), c.error.message, c.error.details);
        if (ok != expected)
            fail("{}expected to be {}, but it was {}\n{}", text, expected ? "accepted" : "rejected", ok ? "accepted" : "rejected", messages);
        if (ok && errors)
            fail("{}accepted with error messages\n{}", text, messages);
        if (!ok && !errors)
            fail("{}rejected without an error message", text);
        if (ok) {
            ApiError e = vm.load(c.module);
            if (!e.ok())
                fail("{}the module cannot be loaded: {} {}", text, e.message, e.details);
            R.traces();
            R.nontrivial();
        } else if (errors == 1) {
            R.nontrivial();
        }
        if (R.want_sample())
            R.sample(fmt::format("{}: {}", ok ? "accepted" : "rejected", text).substr(0, 300));
    }
    bool mine_ = false;
    size_t pending_ = 0, count_ = 0;
};

using Wrap = std::function<P(Ps)>;

// All blocks with n nodes (leaves and nestings).
void all_blocks(size_t n, const Ps& leaves, const std::vector<Wrap>& wraps, const std::function<void(const Ps&)>& cb) {
    std::function<void(size_t, Ps, const std::function<void(const Ps&)>&)> rec = [&](size_t left, Ps prefix, const std::function<void(const Ps&)>& done) {
        if (left == 0)
            return done(prefix);
        for (auto& l : leaves) {
            Ps next = prefix;
            next.push_back(l);
            rec(left - 1, next, done);
        }
        for (size_t inner = 0; inner < left; ++inner) {
            rec(inner, {}, [&](const Ps& b) {
                for (auto& w : wraps) {
                    Ps next = prefix;
                    next.push_back(w(b));
                    rec(left - 1 - inner, next, done);
                }
            });
        }
    };
    rec(n, {}, cb);
}

P list() { return op("[1]", {}); }

// Declarations, uses and scopes.
void names() {
    Checker c("names");
    Ps leaves = {decl(false, {"x"}, num(2)), decl(true, {"x"}, num()), decl(false, {"x"}, use("x")), decl(false, {"y"}, use("x")), ex(use("x")), ex(assign(use("x"), num())),
        ex(assign(tuple({use("x"), use("y")}), num())), decl(false, {"x", "y"}, num()), ex(func("x", {}, ::block({}), false)),
        decl(false, {"g"}, func("", {}, use("x"), true)), ex(assign(use("x"), num(), "+="))};
    std::vector<Wrap> wraps = {
        [](Ps b) { return ex(::block(b)); },
        [](Ps b) { return wh(use("p"), ::block(b)); },
        [](Ps b) { return forr(decl(false, {"x"}, num()), use("x"), assign(use("x"), num()), ::block(b)); },
        [](Ps b) { return foreach({"x"}, list(), ::block(b)); },
        [](Ps b) { return foreach({"x", "y"}, use("x"), ::block(b)); },
        [](Ps b) { return decl(false, {"x"}, func("", {}, ::block(b), false)); },
        [](Ps b) { return ex(func("", {"x"}, ::block(b), false)); },
        [](Ps b) { return ex(func("x", {"y"}, ::block(b), false)); },
        [](Ps b) { return ex(iff(use("p"), ::block(b), ::block({ex(use("x"))}))); },
        [](Ps b) { return defer(::block(b)); },
    };
    for (size_t n = 0; n <= (R.thorough ? 4u : 3u); ++n)
        all_blocks(n, leaves, wraps, [&](const Ps& b) { c.body(b); });
    Ps few = {decl(false, {"x"}, num(2)), ex(assign(use("x"), num())), decl(true, {"x"}, num()), ex(func("", {}, use("x"), true))};
    std::vector<Wrap> w2 = {wraps[0], wraps[2], wraps[3], wraps[5], wraps[7]};
    for (size_t n = R.thorough ? 5 : 4; n <= (R.thorough ? 5u : 4u); ++n)
        all_blocks(n, few, w2, [&](const Ps& b) { c.body(b); });
    // one special item in every pair
    Ps special = {decl(true, {"x"}, nullptr), decl(true, {"x", "y"}, nullptr), decl(false, {"x", "x"}, num()), decl(true, {"x", "y"}, num()),
        decl(false, {"p"}, num()), ex(assign(use("p"), num())), ex(assign(use("f"), num())), ex(assign(use("std"), num())), ex(use("f")), ex(use("std")), ex(use("q")), ex(assign(use("q"), num())),
        foreach({"x", "x"}, list(), ::block({})), foreach({"x"}, use("x"), ::block({})), foreach({"x"}, list(), ::block({decl(false, {"x"}, num())})),
        forr(decl(true, {"x"}, num()), nullptr, assign(use("x"), num()), ::block({})), forr(decl(true, {"x"}, nullptr), nullptr, nullptr, ::block({})),
        forr(decl(false, {"x"}, use("x")), nullptr, nullptr, ::block({})), forr(nullptr, use("x"), nullptr, ::block({})), forr(decl(false, {"x"}, num()), nullptr, nullptr, ::block({decl(false, {"x"}, num())})),
        ex(func("", {"x", "x"}, ::block({}), false)), ex(func("", {"x"}, ::block({decl(false, {"x"}, num())}), false)), ex(func("", {"x"}, use("x"), true)),
        ex(func("x", {"x"}, use("x"), true)), ex(func("x", {}, use("x"), true)), ex(func("x", {}, assign(use("x"), num()), true)), ex(func("", {"x"}, assign(use("x"), num()), true)),
        ex(op("(a: 1, a: 2)", {})), ex(op("(a: 1, b: 2)", {})), ex(op("(a: 1, b: 2, a: 3)", {})), ex(op("map{1: 1, 1: 2}", {})), ex(op("set{1, 1}", {}))};
    for (size_t i = 0; i < special.size(); ++i) {
        if (i == special.size() - 5 || i == special.size() - 3) { // duplicate record keys
            Frag f = *special[i];
            f.check = [](Ctx& c, bool) { c.error(); };
            special[i] = make(f);
        }
    }
    P empty = decl(false, {"x", "y"}, nullptr); // reads that may follow are the subject of `flow`
    c.body({empty});
    c.body({empty, ex(assign(use("x"), num())), ex(use("x"))});
    c.body({empty, ex(assign(tuple({use("x"), use("y")}), num())), ex(use("x")), ex(use("y"))});
    c.body({empty, decl(false, {"y"}, num())});
    c.body({decl(false, {"y"}, num()), empty});
    Ps others = leaves;
    others.insert(others.end(), special.begin(), special.end());
    for (auto& s : special) {
        c.body({s});
        for (auto& o : others) {
            c.body({s, o});
            c.body({o, s});
            c.body({ex(::block({s})), o});
            c.body({o, ex(::block({s}))});
            c.body({o, ex(func("", {}, ::block({s}), false))});
        }
    }
}

// Jumps in every position.
void jumps() {
    Checker c("jumps");
    Ps js = {jump("break"), jump("continue"), ret(), ret(num())};
    using W = std::function<P(P)>;
    // statement built around an expression
    std::vector<W> around = {
        [](P e) { return ex(e); },
        [](P e) { return decl(false, {"v"}, e); },
        [](P e) { return wh(e, ::block({})); },
        [](P e) { return wh(use("p"), ::block({ex(e)})); },
        [](P e) { return forr(decl(false, {"i"}, e), nullptr, nullptr, ::block({})); },
        [](P e) { return forr(nullptr, op(par(e), {e}), nullptr, ::block({})); },
        [](P e) { return forr(nullptr, use("p"), e, ::block({})); },
        [](P e) { return forr(nullptr, use("p"), nullptr, ::block({ex(e)})); },
        [](P e) { return foreach({"i"}, e, ::block({})); },
        [](P e) { return foreach({"i"}, list(), ::block({ex(e)})); },
        [](P e) { return ex(func("", {}, ::block({ex(e)}), false)); },
        [](P e) { return ex(func("", {}, e, true)); },
        [](P e) { return ex(iff(e, ::block({}))); },
        [](P e) { return ex(iff(use("p"), ::block({ex(e)}))); },
        [](P e) { return ex(iff(use("p"), ::block({}), ::block({ex(e)}))); },
        [](P e) { return ex(::block({ex(e)})); },
        [](P e) { return defer(e); },
        [](P e) { return assertion({e}); },
        [](P e) { return assertion({use("p"), op(par(e), {e})}); },
        [](P e) { return ex(op("1 + " + par(e), {e})); },
        [](P e) { return ex(op("p && " + par(e), {e})); },
        [](P e) { return ex(op("p(1, " + par(e) + ")", {e})); },
        [](P e) { return ex(ret(group(e))); },
    };
    auto as_expr = [](P s) { return ::block({s, ex(num())}); };
    for (auto& j : js) {
        for (size_t a = 0; a < around.size(); ++a) {
            c.body({around[a](j)});
            for (size_t b = 0; b < around.size(); ++b) {
                P two = around[b](as_expr(around[a](j)));
                c.body({two});
                for (size_t d = 0; d < around.size(); ++d)
                    c.body({around[d](as_expr(two))});
            }
        }
    }
    // at file level
    for (auto& j : js)
        for (auto& e : {j, op("1 + " + par(j), {j}), iff(num(), ::block({ex(j)}), ::block({ex(num())})), func("", {}, ::block({ex(j)}), false), func("", {}, j, true)})
            for (bool constant : {false, true})
                c.file({{decl(constant, {"v"}, e)}});
}

// Values.
void value_positions() {
    Checker c("values");
    // expressions and blocks that do or do not produce a value
    auto grow = [&](const Ps& base) {
        Ps out = base;
        for (auto& s : base) {
            P st = ex(s);
            for (auto& b : {::block({st}), ::block({st, ex(num())}), ::block({ex(num()), st}), iff(use("p"), ::block({st})), iff(use("p"), ::block({st}), ::block({ex(num())})),
                     iff(use("p"), ::block({ex(num())}), ::block({st})), iff(use("p"), ::block({st}), iff(use("p"), ::block({ex(num())}), ::block({st}))), group(s)})
                out.push_back(b);
        }
        return out;
    };
    Ps es = {num(), ret(), ::block({}), ::block({decl(false, {"v"}, num())}), ::block({wh(use("p"), ::block({}))}), ::block({ex(num()), defer(num())}), ::block({assertion({num()})}),
        iff(use("p"), ::block({})), iff(use("p"), ::block({}), ::block({})), func("", {}, ::block({}), false), assign(use("p"), num()), ::block({ex(func("", {}, ::block({}), false))}),
        ::block({ex(num()), op(";", {}, None)})};
    es = grow(es);
    if (R.thorough)
        es = grow(es);
    else {
        Ps two = grow(es);
        es.clear();
        for (size_t i = 0; i < two.size(); ++i)
            if (i < 120 || i % 3 == 0)
                es.push_back(two[i]);
    }
    for (auto& e : es) {
        std::string t = par(e);
        Ps uses = {ex(e), decl(false, {"v"}, e), wh(e, ::block({ex(e)})), forr(decl(false, {"i"}, e), nullptr, nullptr, ::block({})), forr(nullptr, op(t, {e}), nullptr, ::block({})),
            forr(nullptr, use("p"), e, ::block({})), forr(nullptr, nullptr, nullptr, ::block({ex(e)})), foreach({"i"}, e, ::block({})), foreach({"i"}, list(), e->block_like && e->text[0] == '{' ? e : ::block({})),
            ex(func("", {}, e, true)), ex(func("", {}, ::block({ex(e)}), false)), ex(iff(e, ::block({}))), defer(e), assertion({op(t, {e})}), ex(op("1 + " + t, {e})), ex(op("-" + t, {e})), ex(op(t + " && 1", {e})),
            ex(op("p && " + t, {e})), ex(op("p ?? " + t, {e})), ex(op("p(" + t + ")", {e})), ex(op(t + "()", {e})), ex(op(t + ".a", {e})), ex(op(t + "[1]", {e})), ex(op("p[" + t + "]", {e})), ex(op("[" + t + "]", {e})),
            ex(op("(" + t + ",)", {e})), ex(op("(a: " + t + ")", {e})), ex(op("map{1: " + t + "}", {e})), ex(op("map{" + t + ": 1}", {e})), ex(op("set{" + t + "}", {e})), ex(op("\"a${" + t + "}\"", {e})),
            ex(assign(use("p"), group(e))), ex(assign(use("p"), group(e), "+=")), ex(ret(group(e)))};
        for (auto& u : uses)
            c.body({u});
        c.file({{decl(true, {"k"}, func("", {"p"}, e, true))}});
    }
}

// Assignment targets.
void targets() {
    Checker c("targets");
    auto steps = [&](const Ps& in, bool all) {
        Ps out;
        for (auto& e : in) {
            P base = e->target == Frag::NotAssignable && !isalpha((unsigned char) e->text[0]) && e->text[0] != '(' && e->text[0] != '[' && e->text[0] != '"' ? group(e) : e->text.find(" + ") != std::string::npos || e->text.find(" = ") != std::string::npos ? group(e) : e;
            out.push_back(path(base, ".a", false, false));
            out.push_back(path(base, "[1]", false, false));
            out.push_back(path(base, "?.a", true, false));
            if (all) {
                out.push_back(path(base, ".0", false, false));
                out.push_back(path(base, "?.0", true, false));
                out.push_back(path(base, "?[1]", true, false));
                out.push_back(path(base, "?()", true, true));
                out.push_back(path(base, "?.a()", true, true));
                out.push_back(group(path(base, ".a", false, false)));
            }
            out.push_back(path(base, "()", false, true));
            out.push_back(path(base, ".a()", false, true));
        }
        return out;
    };
    auto constant = decl(true, {"k"}, num());
    auto literal = [](const std::string& s) { return op(s, {}); };
    Ps roots = {use("p"), use("x"), use("k"), use("f"), use("std"), use("i"), num(), literal("\"s\""), literal("null"), literal("[]"), literal("(:)"), tuple({}), tuple({use("x")}), tuple({use("x"), use("p")}), tuple({use("x"), use("k")}),
        tuple({num(), use("x")}), tuple({use("x"), tuple({use("p"), use("x")})}), group(use("x")), group(group(use("x"))), group(use("k")), op("x + p", {use("x"), use("p")}), op("-x", {use("x")}), iff(use("p"), ::block({ex(use("x"))}), ::block({ex(use("x"))})),
        func("", {}, use("x"), true), op("\"$x\"", {use("x")}), op("#sym", {}), assign(use("x"), use("p")), literal("map{}"), path(use("std"), ".print", false, false)};
    Ps ts = roots;
    Ps one = steps(roots, true), two = steps(one, R.thorough);
    ts.insert(ts.end(), one.begin(), one.end());
    ts.insert(ts.end(), two.begin(), two.end());
    if (R.thorough) {
        Ps three = steps(two, false);
        ts.insert(ts.end(), three.begin(), three.end());
    }
    auto emit = [&](P stmt) {
        c.body({decl(false, {"x"}, num()), constant, foreach({"i"}, list(), ::block({stmt}))});
    };
    for (auto& t : ts) {
        P target = t;
        if (t->block_like || t->text.substr(0, 4) == "func" || t->text.find(" = ") != std::string::npos || t->text.find(" + ") != std::string::npos)
            target = group(t);
        for (const char* o : {"=", "+=", "**="})
            emit(ex(assign(target, num(), o)));
        emit(ex(assign(tuple({target, use("x")}), num())));
        emit(ex(assign(tuple({use("x"), target}), num(), "-=")));
        emit(ex(assign(use("x"), assign(target, num()))));
    }
}

// File level items.
void items(size_t files) {
    Checker c(fmt::format("items in {} file(s)", files));
    Ps all;
    for (std::string a : {"a", "b"}) {
        std::string b = a == "a" ? "b" : "a";
        all.push_back(import("std as " + a, a));
        all.push_back(decl(false, {a}, nullptr));
        all.push_back(decl(true, {a}, num()));
        all.push_back(decl(true, {a}, use(b)));
        all.push_back(decl(true, {a}, num(), "export "));
        all.push_back(decl(false, {a}, num(), "export "));
        all.push_back(item(func(a, {}, use(b), true), false));
        all.push_back(item(func(a, {}, ::block({ex(use(a))}), false), true));
        all.push_back(decl(true, {a}, func("", {}, use(b), true)));
        all.push_back(item(func("g" + a, {}, ::block({ex(assign(use(a), num()))}), false), false));
    }
    all.push_back(decl(true, {"a", "b"}, op("(1, 2)", {})));
    all.push_back(decl(true, {"a", "b"}, op("(1, 2)", {}), "export "));
    all.push_back(decl(true, {"a"}, nullptr));
    all.push_back(decl(true, {"a"}, func("b", {}, num(), true))); // declares b
    all.push_back(item(func("", {}, num(), true), false));
    all.push_back(item(func("", {}, num(), true), true));
    size_t n = all.size(), depth = files == 1 ? (R.thorough ? 4 : 3) : (R.thorough ? 3 : 2);
    for (size_t len = 1; len <= depth; ++len) {
        all_sequences(n, len, [&](const std::vector<int>& seq) {
            if (files == 1) {
                Ps f;
                for (int i : seq)
                    f.push_back(all[size_t(i)]);
                c.file({f});
            } else {
                for (size_t cut = 0; cut <= len; ++cut) {
                    Ps f1, f2;
                    for (size_t i = 0; i < len; ++i)
                        (i < cut ? f1 : f2).push_back(all[size_t(seq[i])]);
                    c.file({f1, f2});
                }
            }
        });
    }
}

// Definite assignment: a local variable without an initial value must be assigned on every path to a read.
namespace flow {

// State of the variable x: true if it is assigned on all paths. Unreachable code behaves as if it was.
struct State {
    bool assigned = false, reachable = true;
};
State meet(State a, State b) {
    if (!a.reachable)
        return b;
    if (!b.reachable)
        return a;
    return {a.assigned && b.assigned, true};
}

struct Flow {
    bool error = false;
    State s;
    std::vector<State> breaks; // innermost loop last

    void expr(nb::N n) {
        using nb::K;
        switch (n->k) {
        case K::Var:
            if (n->s == "x" && s.reachable && !s.assigned)
                error = true;
            break;
        case K::Assign:
            expr(n->c[1]);
            s.assigned = true;
            break;
        case K::TupAssign:
            expr(n->c.back());
            s.assigned = true;
            break;
        case K::OpAssign:
            expr(n->c[0]);
            expr(n->c[1]);
            break;
        case K::And:
        case K::Or:
        case K::Coal: {
            expr(n->c[0]);
            State skip = s;
            expr(n->c[1]);
            s = meet(s, skip);
            break;
        }
        case K::If: {
            expr(n->c[0]);
            State before = s;
            stmt(n->c[1]);
            State then = s;
            s = before;
            if (n->c.size() > 2)
                stmt(n->c[2]);
            s = meet(s, then);
            break;
        }
        case K::Block:
            for (auto* c : n->c)
                stmt(c);
            break;
        case K::Return:
            if (!n->c.empty())
                expr(n->c[0]);
            s.reachable = false;
            break;
        case K::Break:
            breaks.back() = meet(breaks.back(), s);
            s.reachable = false;
            break;
        case K::Continue: s.reachable = false; break;
        default:
            for (auto* c : n->c)
                expr(c);
        }
    }
    void stmt(nb::N n) {
        using nb::K;
        switch (n->k) {
        case K::SExpr: expr(n->c[0]); break;
        case K::SDecl: expr(n->c[0]); break;
        case K::SWhile: {
            // variables only become assigned: the state at the head of the loop is the one before it
            expr(n->c[0]);
            breaks.push_back({false, false});
            State exit = s;
            stmt(n->c[1]);
            s = meet(exit, breaks.back());
            breaks.pop_back();
            break;
        }
        case K::SFor: {
            if (n->c[0])
                expr(n->c[0]);
            if (n->c[1])
                expr(n->c[1]);
            State exit = s;
            breaks.push_back({false, false});
            stmt(n->c[3]);
            // the step sees the ends of the body; whatever is assigned before the condition is assigned here
            s = exit;
            steps(n);
            s = meet(exit, breaks.back());
            breaks.pop_back();
            break;
        }
        case K::SForEach:
            expr(n->c[0]);
            {
                State exit = s;
                breaks.push_back({false, false});
                stmt(n->c[1]);
                s = meet(exit, breaks.back());
                breaks.pop_back();
            }
            break;
        default: expr(n); break;
        }
    }
    void steps(nb::N) {} // the grammar has no reads or writes of x in steps
};

void enumerate() {
    using nb::ex; using nb::iff; using nb::wh; using nb::forr; using nb::foreach; using nb::block; using nb::v; using nb::i; using nb::asg; using nb::opasg; using nb::tupasg; using nb::land; using nb::lor; using nb::coal; using nb::ret; using nb::brk; using nb::cont; using nb::var; using nb::bin; using nb::L; using nb::N; using nb::Node; using nb::K; using nb::Grammar; using nb::Scratch; using nb::has_break;
    Checker c("flow");
    auto x = [] { return v("x"); };
    N cond = v("p");
    Grammar g;
    g.leaves = {ex(asg(x(), i(1))), ex(x()), ex(ret()), ex(brk()), ex(cont()), ex(land(cond, asg(x(), i(2)))), ex(land(asg(x(), i(2)), x())), ex(iff(x(), block({}))), ex(opasg("+", x(), i(1))),
        ex(tupasg({x(), v("p")}, v("p"))), ex(coal(cond, x())), ex(block({var("z", lor(asg(x(), x()), cond))}))};
    g.wrap1 = {[=](N b) { return ex(iff(cond, b)); }, [=](N b) { return wh(cond, b); }, [=](N b) { return ex(b); }, [=](N b) { return forr("k", i(0), bin("<", v("k"), i(3)), opasg("+", v("k"), i(1)), b); },
        [=](N b) { return foreach("e", cond, b); }, [=](N b) { return ex(iff(cond, block({ex(asg(x(), i(1)))}), b)); }};
    Grammar h = g;
    g.wrap2 = {[=](N a, N b) { return ex(iff(cond, a, b)); }};
    h.leaves = {ex(asg(x(), i(1))), ex(x()), ex(ret()), ex(brk()), ex(cont())};
    h.wrap1 = {g.wrap1[0], g.wrap1[1], g.wrap1[4]};
    h.wrap2 = g.wrap2;
    auto emit = [&](const L& blk) {
        for (int form = 0; form < 2; ++form) {
            Scratch scratch;
            Node inner(K::Block, blk);
            if (has_break(&inner) && form == 0)
                continue;
            L body = blk;
            if (form == 1)
                body = {wh(cond, block(blk)), ex(x())};
            Flow f;
            for (auto* st : body)
                f.stmt(st);
            std::string src = "import std;\nexport func f(p) {\n  var x;\n";
            Node all(K::Block, body);
            ref::print_block_body(all, src, 1);
            c.text(src + "}\n", !f.error);
        }
    };
    for (size_t n = 1; n <= (R.thorough ? 4u : 3u); ++n)
        g.each(n, emit);
    for (size_t n = R.thorough ? 5 : 4; n <= (R.thorough ? 6u : 5u); ++n)
        h.each(n, emit);
}

} // namespace flow

} // namespace

void mc::enumerate() {
    flow::enumerate();
    names();
    jumps();
    value_positions();
    targets();
    items(1);
    items(2);
}
