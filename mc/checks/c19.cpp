// C19: every frame keeps its values when the stack grows; the stack limit is an ordinary error.
#include <map>
#include <memory>

#include "common/gc.hpp"
#include "common/lang.hpp"

using namespace mc;

const char* const mc::check_id = "C19";

namespace {

constexpr int64_t M = 1000003, Q = 9973;

// ---- The functions ----
// Every function gets (p, n, a): the plan (an array of functions), its own position in the plan, a number.
// It has some locals computed from a and n, calls p[n + 1] in its own way and returns a number computed from the
// result and all of its locals.

enum Kind { Plain, Wide, Method, Closure, Catch, Defer, DeferDeep, Optional, Pending, Bound, Inv0, Inv5, Inv40, Kinds };
const char* const kind_names[] = {"plain", "wide", "method", "closure", "catch", "defer", "defer deep", "optional", "pending", "bound", "native 0", "native 5", "native 40"};

const char* call_text(int k) {
    switch (k) {
    case Plain: return "const r = f(p, n + 1, x);";
    case Wide: return "const r = wide(f, p, n + 1, x, a, n, x + 1);";
    case Method: return "const o = (m: f, w: a); const q = o.m(p, n + 1, x); const r = q + o.w;";
    case Closure: return "const g = func(y) { const q = f(p, n + 1, y); return (q + a * 2 + y) % 1000003; }; const r = g(x);";
    case Catch: return "const c = std.catch_panic(func() = f(p, n + 1, x)); const r = if (c.is_success()) { c.value(); } else { 77; };";
    case Defer: return "var r = 0; { defer k.note(n * 2 + a); r = f(p, n + 1, x); }";
    case DeferDeep: return "var r = 0; { defer k.note(deep(a, n)); r = f(p, n + 1, x); }";
    case Optional: return "const r = f?(p, n + 1, x);";
    case Pending: return "const q = [k.id(a), f(p, n + 1, x), k.id(n)]; const r = (q[0] + q[1] * 2 + q[2] * 3) % 1000003;";
    case Bound: return "const z = []; const m = z.append; m(x); const q = f(p, n + 1, x); m(q); const r = (z[0] + z[1] * 2 + z.size()) % 1000003;";
    case Inv0: return "const r = k.inv0(f, p, n + 1, x);";
    case Inv5: return "const r = k.inv5(f, p, n + 1, x);";
    case Inv40: return "const r = k.inv40(f, p, n + 1, x);";
    }
    return "";
}

// Locals that are objects of their own (few: with many of them most of the time is spent in the collector).
bool boxed(size_t i) {
    return i < 6 && i % 2;
}
int64_t local(int i, int64_t n, int64_t a) {
    return (a * (2 * i + 3) + n * 7 + i) % Q;
}
int64_t next_arg(int64_t n, int64_t a) {
    return (a * 7 + n + 1) % Q;
}
int64_t deep_value(int64_t a, int64_t n) {
    int64_t s = 0;
    for (int i = 0; i < 40; ++i)
        s += (a * (i + 2) + n) % Q * (i + 1);
    return s % M;
}

enum Leaf { Ret, Panic, Yield, Collect, Args1, Args7, Args30, Array30, Map15, Leaves };
const char* const leaf_names[] = {"return", "panic", "yield", "collect", "1 argument", "7 arguments", "30 arguments", "array of 30", "map of 15"};

std::string list(int n, const char* format) {
    std::string s;
    for (int i = 0; i < n; ++i)
        s += (i ? ", " : "") + fmt::format(fmt::runtime(format), i);
    return s;
}

std::string leaf_text(int l) {
    switch (l) {
    case Ret: return "return (a * 5 + n) % 9973;";
    case Panic: return "std.panic(\"leaf\"); return 0;";
    case Yield: return "const y = k.later(a); return (y * 5 + n) % 9973;";
    case Collect: return "k.gc(); return (a * 5 + n) % 9973;";
    case Args1: return "return k.sum(a) % 9973;";
    case Args7: return "return (k.sum(" + list(7, "a + {}") + ") + n) % 9973;";
    case Args30: return "return (k.sum(" + list(30, "a + {}") + ") + n) % 9973;";
    case Array30: return "const z = [" + list(30, "a + {}") + "]; var s = n; for e in z { s = (s * 3 + e) % 9973; } return s;";
    case Map15: return "const z = map{" + list(15, "a + {0}: {0}") + "}; var s = n; for e in z { s = (s * 3 + e.0 + e.1) % 9973; } return s;";
    }
    return "";
}
int64_t sum_of(int n, int64_t a) {
    int64_t s = 0;
    for (int i = 0; i < n; ++i)
        s += (a + i) * (i + 1);
    return s;
}
int64_t leaf_value(int l, int64_t n, int64_t a) {
    switch (l) {
    case Yield: return ((a + 1) * 5 + n) % Q;
    case Args1: return sum_of(1, a) % Q;
    case Args7: return (sum_of(7, a) + n) % Q;
    case Args30: return (sum_of(30, a) + n) % Q;
    case Array30: {
        int64_t s = n;
        for (int i = 0; i < 30; ++i)
            s = (s * 3 + a + i) % Q;
        return s;
    }
    case Map15: {
        int64_t s = n;
        for (int i = 0; i < 15; ++i)
            s = (s * 3 + a + i + i) % Q;
        return s;
    }
    default: return (a * 5 + n) % Q;
    }
}

struct Fn {
    enum What { User, Loop, LeafFn, Native, Params } what = User;
    int kind = 0;  // Kind or Leaf
    int size = 0;  // locals, parameters
    int spare = 0; // locals that are never used
    std::string show() const {
        switch (what) {
        case User: return spare ? fmt::format("{}/{}+{}", kind_names[kind], size, spare) : size || kind ? fmt::format("{}/{}", kind_names[kind], size) : "plain";
        case LeafFn: return leaf_names[kind];
        case Native: return fmt::format("frame of {}", size);
        case Params: return fmt::format("{} parameters", size);
        default: return "loop";
        }
    }
};
using Plan = std::vector<Fn>;
std::string show(const Plan& p) {
    std::string s;
    for (auto& f : p)
        s += (s.empty() ? "" : ", ") + f.show();
    return s;
}

struct Expected {
    bool panic = false;
    int64_t value = 0;
    std::vector<int64_t> notes;
};

// fn(i): the i-th function of a plan of `len` functions.
template<typename F>
Expected expect(size_t len, F&& fn, int64_t a) {
    std::vector<int64_t> as(len);
    for (size_t n = 0; n < len; ++n) {
        as[n] = a;
        a = next_arg(int64_t(n), a);
    }
    Expected e;
    for (size_t n = len; n-- > 0;) {
        const Fn f = fn(n);
        const int64_t a = as[n], m = int64_t(n), x = next_arg(m, a);
        if (f.what == Fn::LeafFn) {
            e.panic = f.kind == Panic;
            e.value = leaf_value(f.kind, m, a);
            continue;
        }
        if (f.what == Fn::Native) {
            if (!e.panic)
                e.value = (e.value * 3 + f.size + a) % M;
            continue;
        }
        if (f.what == Fn::Params) {
            int64_t s = e.value * 3 + a + m;
            for (int i = 0; i < f.size; ++i)
                s += (a + i) * (i + 1);
            if (!e.panic)
                e.value = s % M;
            continue;
        }
        int64_t r = e.value;
        switch (f.kind) {
        case Wide: r = (r + a * 2 + m * 3 + (x + 1) * 5) % M; break;
        case Method: r += a; break;
        case Closure: r = (r + a * 2 + x) % M; break;
        case Catch:
            if (e.panic)
                r = 77;
            e.panic = false;
            break;
        case Defer: e.notes.push_back(m * 2 + a); break;
        case DeferDeep: e.notes.push_back(deep_value(a, m)); break;
        case Pending: r = (a + r * 2 + m * 3) % M; break;
        case Bound: r = (x + r * 2 + 2) % M; break;
        default: break;
        }
        r = r * 3 + a + m * 5;
        for (int i = 0; i < f.size; ++i)
            r += local(i, m, a) * (i + 1);
        e.value = r % M;
    }
    return e;
}

// ---- The machine ----

std::string failure; // seen by native functions

struct State {
    std::vector<int64_t> notes;
    std::vector<std::pair<tiro_async_token_t, int64_t>> pending;
};
State state;

int64_t int_arg(tiro_vm_t vm, tiro_sync_frame_t f, size_t i) {
    H v(vm);
    tiro_sync_frame_arg(f, i, v, Err());
    if (tiro_value_kind(vm, v) != TIRO_KIND_INTEGER)
        failure = fmt::format("argument {} of a native function is of kind {}", i, tiro_kind_str(tiro_value_kind(vm, v)));
    return tiro_integer_value(vm, v);
}

void k_note(tiro_vm_t vm, tiro_sync_frame_t f) {
    state.notes.push_back(int_arg(vm, f, 0));
}
void k_id(tiro_vm_t vm, tiro_sync_frame_t f) {
    H v(vm);
    tiro_sync_frame_arg(f, 0, v, Err());
    tiro_sync_frame_return_value(f, v, Err());
}
void k_gc(tiro_vm_t vm, tiro_sync_frame_t) {
    gc::collect(vm);
}
void k_sum(tiro_vm_t vm, tiro_sync_frame_t f) {
    int64_t s = 0;
    for (size_t i = 0, n = tiro_sync_frame_arg_count(f); i < n; ++i)
        s += int_arg(vm, f, i) * int64_t(i + 1);
    H v = make_int(vm, s);
    tiro_sync_frame_return_value(f, v, Err());
}
// Checks that its arguments are 0, 1, 2 ...
void k_count(tiro_vm_t vm, tiro_sync_frame_t f) {
    const size_t n = tiro_sync_frame_arg_count(f);
    H v(vm);
    for (size_t i = 0; i < n; ++i) {
        tiro_sync_frame_arg(f, i, v, Err());
        if (tiro_integer_value(vm, v) != int64_t(i))
            failure = fmt::format("argument {} has another value", i);
    }
    tiro_make_integer(vm, int64_t(n), v, Err());
    tiro_sync_frame_return_value(f, v, Err());
}
void k_later(tiro_vm_t vm, tiro_async_frame_t f) {
    H v(vm);
    tiro_async_frame_arg(f, 0, v, Err());
    state.pending.push_back({tiro_async_frame_token(f, Err()), tiro_integer_value(vm, v) + 1});
    tiro_async_frame_yield(f, Err());
}

int64_t frame_arg(tiro_vm_t vm, tiro_resumable_frame_t f, size_t i) {
    H v(vm);
    tiro_resumable_frame_arg(f, i, v, Err());
    if (tiro_value_kind(vm, v) != TIRO_KIND_INTEGER)
        failure = fmt::format("argument {} of a native frame is of kind {}", i, tiro_kind_str(tiro_value_kind(vm, v)));
    return tiro_integer_value(vm, v);
}

bool sparse_locals = false; // native frames do not use all of their locals
size_t next_local(size_t i, size_t n) {
    return sparse_locals && i >= 8 && i + 8 < n ? n - 8 : i + 1;
}

// The last three of its arguments are (p, n, a). With skip == 1 the first one is the function to be called with them.
template<int skip>
void k_inv(tiro_vm_t vm, tiro_resumable_frame_t f) {
    const size_t locals = tiro_resumable_frame_local_count(f);
    const int64_t a = frame_arg(vm, f, skip + 2), n = frame_arg(vm, f, skip + 1);
    H v(vm);
    switch (tiro_resumable_frame_state(f)) {
    case TIRO_RESUMABLE_STATE_START: {
        for (size_t i = 0; i < locals; i = next_local(i, locals)) {
            tiro_resumable_frame_local(f, i, v, Err());
            if (tiro_value_kind(vm, v) != TIRO_KIND_NULL)
                failure = fmt::format("local {} of a new native frame is not null", i);
            if (!boxed(i)) {
                tiro_make_integer(vm, a * 3 + int64_t(i), v, Err());
            } else {
                H e = make_int(vm, a * 3 + int64_t(i));
                tiro_make_tuple(vm, 1, v, Err());
                tiro_tuple_set(vm, v, 0, e, Err());
            }
            tiro_resumable_frame_set_local(f, i, v, Err());
        }
        H func(vm), args(vm);
        tiro_make_tuple(vm, 3, args, Err());
        tiro_resumable_frame_arg(f, skip, v, Err());
        tiro_tuple_set(vm, args, 0, v, Err());
        if (skip) {
            tiro_resumable_frame_arg(f, 0, func, Err());
            tiro_make_integer(vm, n, v, Err());
            tiro_tuple_set(vm, args, 1, v, Err());
            tiro_make_integer(vm, a, v, Err());
        } else {
            tiro_array_get(vm, v, size_t(n + 1), func, Err());
            tiro_make_integer(vm, n + 1, v, Err());
            tiro_tuple_set(vm, args, 1, v, Err());
            tiro_make_integer(vm, next_arg(n, a), v, Err());
        }
        tiro_tuple_set(vm, args, 2, v, Err());
        tiro_resumable_frame_invoke(f, 1, func, args, Err());
        return;
    }
    case 1: {
        H e(vm);
        for (size_t i = 0; i < locals; i = next_local(i, locals)) {
            tiro_resumable_frame_local(f, i, v, Err());
            if (boxed(i)) {
                tiro_tuple_get(vm, v, 0, e, Err());
                tiro_value_copy(vm, e, v, Err());
            }
            if (tiro_integer_value(vm, v) != a * 3 + int64_t(i)) {
                failure = fmt::format("local {} of a native frame with {} locals has another value", i, locals);
                break;
            }
        }
        tiro_resumable_frame_invoke_return(f, v, Err());
        if (!skip)
            tiro_make_integer(vm, (tiro_integer_value(vm, v) * 3 + int64_t(locals) + a) % M, v, Err());
        tiro_resumable_frame_return_value(f, v, Err());
        return;
    }
    default: return;
    }
}

std::string user_text(int kind, int size, int spare, const std::string& name) {
    std::string s = fmt::format("export func {}(p, n, a) {{\n const f = p[n + 1];\n", name), sum = "r * 3 + a + n * 5";
    if (spare) {
        s += " if (n < 0) {\n";
        for (int i = 0; i < spare; ++i)
            s += fmt::format("  const s{0} = k.id({0});\n", i);
        s += "  var t = 0;\n";
        for (int i = 0; i < spare; ++i)
            s += fmt::format("  t += s{};\n", i);
        s += "  return t;\n }\n";
    }
    for (int i = 0; i < size; ++i) {
        const std::string value = fmt::format("(a * {} + n * 7 + {}) % 9973", 2 * i + 3, i);
        s += boxed(size_t(i)) ? fmt::format(" const l{} = ({},);\n", i, value) : fmt::format(" const l{} = {};\n", i, value);
    }
    s += " const x = (a * 7 + n + 1) % 9973;\n " + std::string(call_text(kind)) + "\n var s = " + sum + ";\n";
    for (int i = 0; i < size; ++i)
        s += fmt::format(fmt::runtime(boxed(size_t(i)) ? " s += l{}.0 * {};\n" : " s += l{} * {};\n"), i, i + 1);
    return s + " return s % 1000003;\n}\n";
}

std::string params_text(int size, const std::string& name) {
    std::string params, values, s;
    for (int i = 0; i < size; ++i) {
        params += fmt::format(", e{}", i);
        values += fmt::format(", a + {}", i);
    }
    s = fmt::format("func w{}(f, p, n, a{}) {{\n const r = f(p, n + 1, (a * 7 + n + 1) % 9973);\n var s = r * 3 + a + n;\n", size, params);
    for (int i = 0; i < size; ++i)
        s += fmt::format(" s += e{} * {};\n", i, i + 1);
    return s + fmt::format(" return s % 1000003;\n}}\nexport func {}(p, n, a) = w{}(p[n + 1], p, n, a{});\n", name, size, values);
}

const std::string prelude = [] {
    std::string s = "import std; import k;\n"
                    "func wide(f, p, n, x, b, c, d) { const q = f(p, n, x); return (q + b * 2 + c * 3 + d * 5) % 1000003; }\n"
                    "func deep(a, n) {\n";
    for (int i = 0; i < 40; ++i)
        s += fmt::format(" const l{} = (a * {} + n) % 9973;\n", i, i + 2);
    s += " k.id(a);\n var s = 0;\n";
    for (int i = 0; i < 40; ++i)
        s += fmt::format(" s += l{} * {};\n", i, i + 1);
    return s + " return s % 1000003;\n}\n";
}();

struct Run {
    ApiError error; // of run_ready
    bool completed = false, success = false;
    std::string value;
};

class Machine {
public:
    Machine()
        : vm_([] {
            VmOptions o;
            o.max_heap = size_t(192) << 20;
            return o;
        }()) {
        struct Sync {
            const char* name;
            tiro_sync_function_t f;
            size_t argc;
        } syncs[] = {{"note", k_note, 1}, {"id", k_id, 1}, {"gc", k_gc, 0}, {"sum", k_sum, 0}, {"count", k_count, 0}};
        std::vector<H> fns;
        std::vector<tiro_module_member_t> members;
        auto add = [&](const char* name, auto&& make) {
            H n = make_str(vm_, name);
            fns.emplace_back(vm_);
            make(n, fns.back());
            members.push_back({S(name), fns.back()});
        };
        for (auto& s : syncs)
            add(s.name, [&](H& n, H& r) { tiro_make_sync_function(vm_, n, s.f, s.argc, nullptr, r, Err()); });
        add("later", [&](H& n, H& r) { tiro_make_async_function(vm_, n, k_later, 1, nullptr, r, Err()); });
        for (auto [name, locals] : {std::pair("inv0", 0), {"inv5", 5}, {"inv40", 40}})
            add(name, [&, locals = locals](H& n, H& r) { make_frame(n, locals, 4, k_inv<1>, r); });
        H mod(vm_);
        tiro_make_module(vm_, S("k"), members.data(), members.size(), mod, Err());
        tiro_vm_load_module(vm_, mod, Err());
        state = State();
        failure.clear();
    }
    ~Machine() {
        for (auto& p : state.pending)
            tiro_async_token_free(p.first);
        state = State();
    }

    Vm& vm() { return vm_; }

    // Makes these functions available (compiled together).
    void need(const std::vector<Fn>& fns) {
        std::string src = prelude;
        std::vector<std::pair<std::string, std::string>> names;
        const std::string mod = fmt::format("m{}", modules_++);
        for (auto& f : fns) {
            const std::string key = id(f);
            if (have_.count(key))
                continue;
            have_.emplace(key, nullptr);
            if (f.what == Fn::Native) {
                H n = make_str(vm_, "frame");
                tiro_handle_t h = have_[key] = tiro_global_new(vm_, Err());
                H r(vm_);
                make_frame(n, f.size, 3, k_inv<0>, r);
                tiro_value_copy(vm_, r, h, Err());
                continue;
            }
            const std::string name = fmt::format("f{}", names.size());
            names.push_back({key, name});
            switch (f.what) {
            case Fn::User: src += user_text(f.kind, f.size, f.spare, name); break;
            case Fn::LeafFn: src += fmt::format("export func {}(p, n, a) {{\n {}\n}}\n", name, leaf_text(f.kind)); break;
            case Fn::Params: src += params_text(f.size, name); break;
            case Fn::Loop: {
                // calls `p[1]` many times, then the plan q once
                src += fmt::format("export func {}(p, q, a, count) {{\n var s = 0;\n const n = 0;\n const f = p[1];\n for var i = 0; i < count; i += 1 {{\n  const x = (i * 7 + 1) % 9973;\n  {}\n  s = (s * 3 + r) % 1000003;\n }}\n return (s + q[0](q, 0, a)) % 1000003;\n}}\n", name, call_text(f.kind));
                break;
            }
            default: break;
            }
        }
        if (names.empty())
            return;
        vm_.load_source(src, mod);
        for (auto& [key, name] : names) {
            tiro_handle_t h = have_[key] = tiro_global_new(vm_, Err());
            ApiError e = vm_.get_export(mod, name, h);
            MC_CHECK(e.ok(), "{}", e.message);
        }
    }
    tiro_handle_t fn(const Fn& f) {
        auto i = have_.find(id(f));
        if (i == have_.end()) {
            need({f});
            i = have_.find(id(f));
        }
        return i->second;
    }

    void start(tiro_handle_t func, tiro_handle_t args, tiro_handle_t coro) {
        tiro_make_coroutine(vm_, func, args, coro, Err());
        tiro_coroutine_start(vm_, coro, Err());
    }
    void set_plan(tiro_handle_t arr, const Plan& plan) {
        tiro_make_array(vm_, plan.size(), arr, Err());
        for (auto& f : plan)
            tiro_array_push(vm_, arr, fn(f), Err());
    }
    // Calls p[0](p, 0, a)
    void start_plan(tiro_handle_t arr, int64_t a, tiro_handle_t coro) {
        H func(vm_), args(vm_), v(vm_);
        tiro_array_get(vm_, arr, 0, func, Err());
        tiro_make_tuple(vm_, 3, args, Err());
        tiro_tuple_set(vm_, args, 0, arr, Err());
        tiro_make_integer(vm_, 0, v, Err());
        tiro_tuple_set(vm_, args, 1, v, Err());
        tiro_make_integer(vm_, a, v, Err());
        tiro_tuple_set(vm_, args, 2, v, Err());
        start(func, args, coro);
    }
    ApiError run_ready() {
        tiro_error_t e = nullptr;
        tiro_vm_run_ready(vm_, &e);
        return take_error(e);
    }
    // Runs until nothing is left to do or an error is reported.
    Run finish(tiro_handle_t coro) {
        Run r;
        while (true) {
            r.error = run_ready();
            if (!r.error.ok() || state.pending.empty())
                break;
            auto [token, value] = state.pending.front();
            state.pending.erase(state.pending.begin());
            gc::suspend();
            gc::collect(vm_);
            gc::resume();
            H v = make_int(vm_, value);
            tiro_async_token_return_value(token, v, Err());
            tiro_async_token_free(token);
        }
        r.completed = tiro_coroutine_completed(vm_, coro);
        if (r.completed) {
            H res(vm_), v(vm_);
            tiro_coroutine_result(vm_, coro, res, Err());
            r.success = tiro_result_is_success(vm_, res);
            if (r.success)
                tiro_result_value(vm_, res, v, Err());
            else
                tiro_result_error(vm_, res, v, Err());
            gc::suspend();
            r.value = vm_.dump(v);
            gc::resume();
        }
        return r;
    }

    void compare(const Run& r, const Expected& e) {
        MC_CHECK(failure.empty(), "{}", failure);
        MC_CHECK(r.error.ok(), "error {} {}", r.error.message, r.error.details);
        MC_CHECK(r.completed, "the coroutine has not completed");
        if (e.panic)
            MC_CHECK(!r.success && r.value == "exception(\"leaf\")", "{} {} instead of the panic", r.success ? "value" : "panic", r.value);
        else
            MC_CHECK(r.success && r.value == std::to_string(e.value), "{} {} instead of {}", r.success ? "value" : "panic", r.value, e.value);
        if (state.notes != e.notes) {
            size_t i = 0;
            while (i < state.notes.size() && i < e.notes.size() && state.notes[i] == e.notes[i])
                ++i;
            fail("{} deferred calls instead of {}, the first difference is number {}", state.notes.size(), e.notes.size(), i);
        }
    }
    void check(tiro_handle_t arr, const Plan& plan, int64_t a) {
        check_n(arr, plan.size(), [&](size_t i) { return plan[i]; }, a);
    }
    template<typename F>
    void check_n(tiro_handle_t arr, size_t len, F&& fn, int64_t a) {
        state.notes.clear();
        H coro(vm_);
        start_plan(arr, a, coro);
        Run r = finish(coro);
        compare(r, expect(len, fn, a));
        R.transitions(len);
    }
    // Everything still works.
    void usable() {
        const Plan plan = {{Fn::User, Plain, 3}, {Fn::User, Catch, 1}, {Fn::User, Inv5, 1}, {Fn::LeafFn, Yield, 0}};
        H arr(vm_);
        set_plan(arr, plan);
        check(arr, plan, 5);
    }

private:
    void make_frame(tiro_handle_t name, int locals, int params, tiro_resumable_function_t func, tiro_handle_t r) {
        tiro_resumable_frame_desc_t d{};
        d.name = name;
        d.arg_count = size_t(params);
        d.local_count = size_t(locals);
        d.func = func;
        tiro_make_resumable_function(vm_, &d, r, Err());
    }
    static std::string id(const Fn& f) { return fmt::format("{}.{}.{}.{}", int(f.what), f.kind, f.size, f.spare); }

    Vm vm_;
    std::map<std::string, tiro_handle_t> have_;
    int modules_ = 0;
};

std::unique_ptr<Machine> shared;
Machine& machine(const std::vector<Fn>& fns) {
    if (!shared)
        shared = std::make_unique<Machine>();
    shared->need(fns);
    return *shared;
}

Fn user(int kind, int size, int spare = 0) {
    return {Fn::User, kind, size, spare};
}
Fn leaf(int l) {
    return {Fn::LeafFn, l, 0, 0};
}

std::vector<Fn> common_functions(int max_pad) {
    std::vector<Fn> r;
    for (int k = 0; k < Kinds; ++k)
        for (int size : {0, 1, 4})
            r.push_back(user(k, size));
    for (int i = 0; i <= max_pad; ++i)
        r.push_back(user(Plain, i));
    for (int l = 0; l < Leaves; ++l)
        r.push_back(leaf(l));
    return r;
}

void run_plans(const std::vector<Plan>& plans, const std::vector<Fn>& fns, const std::string& note, bool always) {
    if (!R.claim())
        return;
    R.exec_batch(plans.size(), [&](size_t i) { return note + show(plans[i]); }, [&](size_t b, size_t e) {
        Machine& m = machine(fns);
        gc::Guard guard;
        H arr(m.vm());
        for (size_t i = b; i < e; ++i) {
            R.sub(i);
            try {
                m.set_plan(arr, plans[i]);
                if (always)
                    gc::always();
                m.check(arr, plans[i], 3);
                gc::off();
                R.traces();
                R.nontrivial();
            } catch (const Failure& f) {
                gc::off();
                R.sub_fail(i, f.what);
                shared.reset();
                return;
            }
        }
        R.states(e - b);
    });
}

// Every alignment of the first growths x all pairs of calls x all things to do at the end.
void pairs() {
#ifdef MC_SAN
    const int max_pad = 40;
#else
    const int max_pad = R.thorough ? 200 : 72;
#endif
    const std::vector<Fn> fns = common_functions(max_pad);
    const std::vector<int> sizes = {0, 1, 4};
    for (bool always : {false, true})
        for (int k1 = 0; k1 < Kinds; ++k1)
            for (int s1 : sizes) {
#ifdef MC_SAN
                if (s1 == 4)
                    continue;
#else
                if (always && s1 == 4 && !R.thorough)
                    continue;
#endif
                std::vector<Plan> plans;
                for (int pad = 0; pad <= max_pad; ++pad)
                    for (int l = 0; l < Leaves; ++l)
                        plans.push_back({user(Plain, pad), user(k1, s1), leaf(l)});
                run_plans(plans, fns, always ? "collections " : "plan ", always);
                if (always)
                    continue;
                for (int k2 = 0; k2 < Kinds; ++k2)
                    for (int s2 : sizes) {
#ifdef MC_SAN
                        if (s2 != 1)
                            continue;
#endif
                        plans.clear();
                        for (int pad = 0; pad <= max_pad; ++pad)
                            for (int l = 0; l < Leaves; ++l)
                                plans.push_back({user(Plain, pad), user(k1, s1), user(k2, s2), leaf(l)});
                        run_plans(plans, fns, "plan ", false);
                    }
            }
}

// Long chains: all growths up to a depth, in every alignment.
void chains() {
#ifdef MC_SAN
    const size_t depth = 150;
    const int pads = 16;
#else
    const size_t depth = R.thorough ? 5000 : 600;
    const int pads = 40;
#endif
    const std::vector<Fn> fns = common_functions(72);
    for (int k = 0; k <= Kinds; ++k) // the last one: all kinds in turn
        for (int size : {0, 1, 4}) {
            struct Case {
                int pad, leaf;
            };
            std::vector<Case> cases;
            for (int pad = 0; pad < pads; ++pad)
                for (int l : {int(Ret), int(Panic), int(Yield), int(Collect), int(Args30)})
                    cases.push_back({pad, l});
            if (!R.claim())
                continue;
            auto key = [&](size_t i) { return fmt::format("chain of {} x {}/{} after {}, then {}", depth, k < Kinds ? kind_names[k] : "all kinds", size, cases[i].pad, leaf_names[cases[i].leaf]); };
            R.exec_batch(cases.size(), key, [&](size_t b, size_t e) {
                Machine& m = machine(fns);
                H arr(m.vm());
                for (size_t i = b; i < e; ++i) {
                    R.sub(i);
                    try {
                        auto fn = [&](size_t n) { return n == 0 ? user(Plain, cases[i].pad) : n == depth - 1 ? leaf(cases[i].leaf) : user(k < Kinds ? k : int(n % Kinds), size); };
                        Plan plan;
                        for (size_t n = 0; n < depth; ++n)
                            plan.push_back(fn(n));
                        m.set_plan(arr, plan);
                        m.check_n(arr, depth, fn, 3);
                        R.traces();
                        R.nontrivial();
                        R.states();
                    } catch (const Failure& f) {
                        R.sub_fail(i, f.what);
                        shared.reset();
                        return;
                    }
                }
            });
        }
}

// Wide frames: native frames of all sizes, user functions with many locals and parameters.
void wide() {
    std::vector<int> sizes;
#ifdef MC_SAN
    for (int i = 0; i <= 130; ++i)
        sizes.push_back(i);
    for (int p = 256; p <= 16384; p *= 4)
        for (int d : {-1, 0})
            sizes.push_back(p + d);
#else
    for (int i = 0; i <= (R.thorough ? 2100 : 530); ++i)
        sizes.push_back(i);
    for (int p = 1024; p <= 16384; p *= 2)
        for (int d : {-9, -2, -1, 0, 1, 2})
            if (p + d <= 16384)
                sizes.push_back(p + d);
#endif
    const std::vector<Fn> fns = common_functions(72);
    for (int size : sizes) {
        std::vector<Plan> plans;
        const Fn w{Fn::Native, 0, size};
        for (int l = 0; l < Leaves; ++l)
            plans.push_back({w, leaf(l)});
        for (int pad : {0, 1, 6, 40})
            plans.push_back({user(Plain, pad), w, leaf(Args7)});
        for (int k = 0; k < Kinds; ++k) {
            plans.push_back({user(k, 1), w, leaf(Ret)});
            plans.push_back({w, user(k, 1), leaf(Panic)});
            plans.push_back({w, user(k, 0), w, leaf(Yield)});
        }
        run_plans(plans, fns, "wide ", false);
    }
#ifdef MC_SAN
    const std::vector<int> user_sizes = {100, 300}, param_sizes = {1, 30, 100};
#else
    std::vector<int> user_sizes = {100, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1024, 2000}, param_sizes;
    for (int i = 0; i <= 70; ++i)
        param_sizes.push_back(i);
    for (int i : {100, 126, 127, 128, 129, 200, 255, 256, 257, 300, 500})
        param_sizes.push_back(i);
#endif
    auto around = [&](Fn w) {
        std::vector<Plan> plans;
        for (int l = 0; l < Leaves; ++l)
            plans.push_back({w, leaf(l)});
        for (int pad = 0; pad <= 40; ++pad)
            plans.push_back({user(Plain, pad), w, leaf(Args7)});
        for (int k = 0; k < Kinds; ++k) {
            plans.push_back({user(k, 1), w, leaf(Ret)});
            plans.push_back({w, user(k, 1), leaf(Panic)});
            plans.push_back({w, user(k, 0), w, leaf(Yield)});
        }
        run_plans(plans, fns, "wide ", false);
    };
    for (int size : user_sizes)
        around(user(Plain, size));
    for (int size : param_sizes)
        around({Fn::Params, 0, size});
}

// Arguments given by the host.
void host_arguments() {
    std::vector<size_t> sizes;
#ifdef MC_SAN
    for (size_t i = 0; i <= 140; ++i)
        sizes.push_back(i);
    for (size_t i : {1000, 16384, 65536})
        sizes.push_back(i);
#else
    for (size_t i = 0; i <= 1100; ++i)
        sizes.push_back(i);
    for (size_t p = 2048; p <= (size_t(1) << 22); p *= 2)
        for (int d : {-60, -8, -1, 0, 1})
            sizes.push_back(p + size_t(d));
#endif
    for (size_t n : sizes)
        R.run(fmt::format("{} arguments", n), [&] {
            Machine m;
            Vm& vm = m.vm();
            H func(vm), args(vm), v(vm), coro(vm);
            vm.get_export("k", "count", func);
            tiro_make_tuple(vm, n, args, Err());
            for (size_t i = 0; i < n; ++i) {
                tiro_make_integer(vm, int64_t(i), v, Err());
                tiro_tuple_set(vm, args, i, v, Err());
            }
            m.start(func, args, coro);
            Run r = m.finish(coro);
            MC_CHECK(failure.empty(), "{}", failure);
            if (r.error.ok() && r.completed && r.success)
                MC_CHECK(r.value == std::to_string(n), "{}", r.value);
            else
                MC_CHECK(n > 1000000, "{} {}", r.error.message, r.value);
            R.outcome(r.error.ok() ? "called" : "refused");
            R.transitions(1);
            m.usable();
            R.traces();
            R.nontrivial();
        });
}

// ---- The limit ----

// A plan of `limit` equal functions; position d can be a leaf.
class Deep {
public:
    Deep(Machine& m, Fn first, Fn f, size_t limit)
        : m_(m)
        , arr_(m.vm())
        , first_(first)
        , f_(f) {
        tiro_handle_t h = m_.fn(f), h0 = m_.fn(first);
        tiro_make_array(m_.vm(), limit, arr_, Err());
        tiro_array_push(m_.vm(), arr_, h0, Err());
        for (size_t i = 1; i < limit; ++i)
            tiro_array_push(m_.vm(), arr_, h, Err());
    }
    // True: returned as expected. False: refused.
    bool run(size_t d, int l, ApiError* error = nullptr) {
        tiro_array_set(m_.vm(), arr_, d, m_.fn(leaf(l)), Err());
        state.notes.clear();
        H coro(m_.vm());
        m_.start_plan(arr_, 3, coro);
        Run r = m_.finish(coro);
        tiro_array_set(m_.vm(), arr_, d, m_.fn(f_), Err());
        MC_CHECK(failure.empty(), "{}", failure);
        R.transitions(d);
        const bool refused = !r.error.ok() || (r.completed && !r.success && r.value != "exception(\"leaf\")");
        if (refused) {
            if (error)
                *error = r.error;
            MC_CHECK(r.error.details.find("ssert") == std::string::npos && r.error.message.find("ssert") == std::string::npos, "assertion: {} {}", r.error.message, r.error.details);
            MC_CHECK(r.error.code != TIRO_ERROR_ALLOC, "out of memory at depth {}", d);
            return false;
        }
        m_.compare(r, expect(d + 1, [&](size_t n) { return n == 0 ? first_ : n == d ? leaf(l) : f_; }, 3));
        return true;
    }
    // The largest possible depth.
    size_t search(size_t lo, size_t hi) {
        MC_CHECK(run(lo, Ret), "{} nested calls are refused", lo);
        MC_CHECK(!run(hi, Ret), "{} nested calls are not refused", hi);
        while (hi - lo > 1) {
            const size_t mid = lo + (hi - lo) / 2;
            (run(mid, Ret) ? lo : hi) = mid;
        }
        return lo;
    }

private:
    Machine& m_;
    H arr_;
    Fn first_, f_;
};

// Bounds of the depth for functions with this number of locals (each frame costs at most 80 words more).
size_t min_depth(int size) {
    return (size_t(1) << 20) / size_t(size + 80);
}
size_t max_depth(int size) {
    return (size_t(1) << 22) / size_t(size + 8);
}

void limits() {
    sparse_locals = true;
    std::vector<Fn> fs;
    for (int k = 0; k < Kinds; ++k)
        for (int size : {1, 0, 4})
            if (size == 1 || R.thorough)
                fs.push_back(user(k, size, size == 1 ? 200 : 0));
    fs.push_back(user(Plain, 1));
    fs.push_back({Fn::Native, 0, 100});
    if (R.thorough) {
        fs.push_back({Fn::Native, 0, 0});
        fs.push_back({Fn::Native, 0, 7});
    }
#ifdef MC_SAN
    fs.resize(0);
#endif
    for (const Fn& f : fs)
        R.run(fmt::format("limit of {}", f.show()), [&] {
            Machine m;
            size_t deepest = 0;
            {
                const size_t hi = max_depth(f.size + f.spare);
                Deep deep(m, user(Plain, 0), f, hi + 1);
                deepest = deep.search(min_depth(f.size + f.spare), hi);
                R.sample(fmt::format("{}: {} nested calls", f.show(), deepest));
                R.cov(f.show(), deepest);
                // other things to do at the end of the deepest chains
                for (int l : {int(Panic), int(Yield), int(Collect), int(Args30)}) {
                    MC_CHECK(deep.run(deepest - 20, l), "{} at depth {} is refused", leaf_names[l], deepest - 20);
                    for (size_t d = deepest - (R.thorough ? 8 : 2); d <= deepest + 1; ++d)
                        deep.run(d, l);
                }
                m.usable();
                // Refused again and again, in between everything works.
                for (int i = 0; i < (R.thorough ? 8 : 3); ++i) {
                    ApiError e;
                    MC_CHECK(!deep.run(deepest + 1, Ret, &e), "depth {} was refused before", deepest + 1);
                    m.usable();
                    MC_CHECK(deep.run(deepest, Ret), "depth {} was possible before", deepest);
                }
                // Other coroutines: one waits, one is ready before and one after the coroutine that reaches the limit.
                Vm& vm = m.vm();
                const Plan plan = {user(Plain, 3), user(Defer, 1), user(Inv5, 1), leaf(Yield)};
                H arr(vm), waiting(vm), before(vm), after(vm), bad(vm), big(vm);
                m.set_plan(arr, plan);
                const Expected e = expect(plan.size(), [&](size_t i) { return plan[i]; }, 5);
                state.notes.clear();
                m.start_plan(arr, 5, waiting);
                MC_CHECK(m.run_ready().ok(), "error");
                m.set_plan(big, {f});
                for (size_t i = 0; i < deepest + 100; ++i)
                    tiro_array_push(vm, big, m.fn(f), Err());
                m.start_plan(arr, 5, before);
                m.start_plan(big, 3, bad);
                m.start_plan(arr, 5, after);
                ApiError error = m.run_ready();
                MC_CHECK(state.pending.size() >= 2, "the coroutines before did not run");
                // The error may have interrupted the run.
                Run rest = m.finish(after);
                m.compare({rest.error, rest.completed, rest.success, rest.value}, {e.panic, e.value, state.notes});
                MC_CHECK(!tiro_coroutine_completed(vm, bad) || error.ok(), "the coroutine at the limit is completed and an error was reported");
                for (tiro_handle_t h : {tiro_handle_t(waiting), tiro_handle_t(before)}) {
                    MC_CHECK(tiro_coroutine_completed(vm, h), "another coroutine did not complete");
                    H res(vm), v(vm);
                    tiro_coroutine_result(vm, h, res, Err());
                    MC_CHECK(tiro_result_is_success(vm, res), "another coroutine failed");
                    tiro_result_value(vm, res, v, Err());
                    MC_CHECK(tiro_integer_value(vm, v) == e.value, "another coroutine returned another value");
                }
                MC_CHECK(!tiro_vm_has_ready(vm), "a coroutine is still ready");
            }
            R.traces();
            R.nontrivial();
            R.states();
        });
#ifdef MC_SAN
    return;
#endif
    // Starting at every alignment.
    for (int k = 0; k < Kinds; ++k)
        for (int size : {200, 201})
            for (int pad = 0; pad < (R.thorough ? 40 : size == 200 ? 5 : 0); ++pad)
                R.run(fmt::format("limit of {} after {}", user(k, 1, size).show(), pad), [&] {
                    Machine m;
                    Deep deep(m, user(Plain, pad), user(k, 1, size), max_depth(size) + 1);
                    const size_t deepest = deep.search(min_depth(size), max_depth(size));
                    for (int l : {int(Panic), int(Yield), int(Args30)})
                        for (size_t d = deepest - (R.thorough ? 6 : 1); d <= deepest + 1; ++d)
                            deep.run(d, l);
                    m.usable();
                    R.traces();
                    R.nontrivial();
                    R.states();
                });
    // Frames of the largest size.
    for (int size : {16384, 16383, 4000})
        if (size == 16384 || R.thorough)
            R.run(fmt::format("limit of frames of {}", size), [&] {
#ifndef MC_SAN
            Machine m;
            {
                Deep deep(m, user(Plain, 0), {Fn::Native, 0, size}, 1000);
                const size_t deepest = deep.search(40, 900);
                for (int i = 0; i < 3; ++i)
                    MC_CHECK(!deep.run(deepest + 1, Ret) && deep.run(deepest, Ret), "the limit changes");
            }
            m.usable();
            R.traces();
            R.nontrivial();
#endif
        });
}

// Calls leave nothing behind on the stack.
void balance() {
#ifdef MC_SAN
    return;
#endif
    for (int k = 0; k < Kinds; ++k)
        for (int l : {int(Ret), int(Panic), int(Collect), int(Args7), int(Array30)}) {
            if (l == Panic && k != Catch)
                continue;
            R.run(fmt::format("many calls {} of {}", kind_names[k], leaf_names[l]), [&] {
                Machine m;
                Vm& vm = m.vm();
                const int64_t count = l == Collect ? 400 : 30000;
                const int size = 200;
                const Plan plan = {user(Plain, 0), leaf(l)};
                H arr(vm), big(vm), args(vm), v(vm);
                m.set_plan(arr, plan);
                tiro_make_array(vm, 0, big, Err());
                tiro_handle_t f = m.fn(user(Plain, 1, size)), end = m.fn(leaf(Ret)), loop = m.fn({Fn::Loop, k, 0});
                for (size_t i = 0; i <= max_depth(size); ++i)
                    tiro_array_push(vm, big, f, Err());
                tiro_make_tuple(vm, 4, args, Err());
                tiro_tuple_set(vm, args, 0, arr, Err());
                tiro_tuple_set(vm, args, 1, big, Err());
                tiro_make_integer(vm, 3, v, Err());
                tiro_tuple_set(vm, args, 2, v, Err());
                auto run = [&](size_t depth, int64_t n) {
                    tiro_array_set(vm, big, depth, end, Err());
                    tiro_make_integer(vm, n, v, Err());
                    tiro_tuple_set(vm, args, 3, v, Err());
                    H coro(vm);
                    state.notes.clear();
                    m.start(loop, args, coro);
                    Run r = m.finish(coro);
                    tiro_array_set(vm, big, depth, f, Err());
                    R.transitions(depth + size_t(n));
                    MC_CHECK(failure.empty(), "{}", failure);
                    return r;
                };
                size_t lo = min_depth(size), hi = max_depth(size);
                MC_CHECK(run(lo, 1).success && !run(hi, 1).success, "the limit is not between {} and {}", lo, hi);
                while (hi - lo > 1) {
                    const size_t mid = lo + (hi - lo) / 2;
                    (run(mid, 1).success ? lo : hi) = mid;
                }
                Run r = run(lo, count);
                MC_CHECK(r.error.ok() && r.completed && r.success, "{} nested calls are refused after {} calls: {}", lo, count, r.error.message);
                r = run(hi, count);
                MC_CHECK(!r.success, "{} nested calls are possible after {} calls", hi, count);
                m.usable();
                R.traces();
                R.nontrivial();
                R.states();
            });
        }
}

} // namespace

void mc::enumerate() {
    pairs();
    chains();
    wide();
    host_arguments();
    limits();
    balance();
}
