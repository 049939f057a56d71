// C18: native functions of all kinds execute every sequence of frame operations in every calling context.
#include <algorithm>
#include <climits>
#include <memory>

#include "common/gc.hpp"
#include "common/host.hpp"

using namespace mc;

const char* const mc::check_id = "C18";

namespace {

const char* const program = R"(
import std; import g; import h;

func id(a) = a;
func two(a, b) = (a, b);
func none() = "none";
func panics(a) { std.panic("callee"); }
func yields(a) = (g.later("late"), a);
func yields2(a, b) = (g.later("late"), a);
func nested(a) = g.call(two, a);
export const callees = [id, panics, yields, nested, none, two, std.catch_panic];

export func plain0(f) = f();
export func plain1(f) = f("arg0");
export func plain2(f) = f("arg0", "arg1");
export func plain3(f) = f("arg0", "arg1", "arg2");
export func member0(f) { const r = (f: f, x: 1); return r.f(); }
export func member1(f) { const r = (f: f, x: 1); return r.f("arg0"); }
export func member2(f) { const r = (f: f, x: 1); return r.f("arg0", "arg1"); }
export func member3(f) { const r = (f: f, x: 1); return r.f("arg0", "arg1", "arg2"); }
export func pending0(f) = [1, (2, f(), 3), id(4)];
export func pending1(f) = [1, (2, f("arg0"), 3), id(4)];
export func pending2(f) = [1, (2, f("arg0", "arg1"), 3), id(4)];
export func pending3(f) = [1, (2, f("arg0", "arg1", "arg2"), 3), id(4)];
export func caught0(f) { const r = std.catch_panic(func() = f()); return if (r.is_success()) { (#ok, r.value()); } else { (#panic, r.error().message()); }; }
export func caught1(f) { const r = std.catch_panic(func() = f("arg0")); return if (r.is_success()) { (#ok, r.value()); } else { (#panic, r.error().message()); }; }
export func caught2(f) { const r = std.catch_panic(func() = f("arg0", "arg1")); return if (r.is_success()) { (#ok, r.value()); } else { (#panic, r.error().message()); }; }
export func caught3(f) { const r = std.catch_panic(func() = f("arg0", "arg1", "arg2")); return if (r.is_success()) { (#ok, r.value()); } else { (#panic, r.error().message()); }; }
export func deferred0(f) { defer h.t(#after); defer f(); return "result"; }
export func deferred1(f) { defer h.t(#after); defer f("arg0"); return "result"; }
export func deferred2(f) { defer h.t(#after); defer f("arg0", "arg1"); return "result"; }
export func deferred3(f) { defer h.t(#after); defer f("arg0", "arg1", "arg2"); return "result"; }
export func optional0(f) = f?();
export func optional1(f) = f?("arg0");
export func optional2(f) = f?("arg0", "arg1");
export func optional3(f) = f?("arg0", "arg1", "arg2");
export func native2(f) = g.call(f, "arg0");
export func loop1(f) { const r = []; for a in ["arg0", "arg0", "arg0"] { r.append(f(a)); } return r; }

// Old tokens
export func stale(f, mode) {
    h.t(std.catch_panic(f));
    if (mode == 0) {
        h.t(#waiting);
        const t = std.coroutine_token();
        g.keep(t);
        std.yield_coroutine();
        h.t(#woken);
    } else if (mode == 1) {
        h.t(g.later("other"));
    } else if (mode == 2) {
        h.t(std.catch_panic(f));
    } else if (mode == 3) {
        h.t(std.catch_panic(func() = g.later("other")));
    } else if (mode == 4) {
        h.t(g.call(yields2, 3));
    } else if (mode == 5) {
        std.dispatch();
        h.t(g.later("other"));
    }
    return "end";
}
export func wake() { const t = g.kept(); return t.resume(); }
)";

// ---- Frame operations ----

enum Op {
    ArgLast, ArgBad, ArgHuge, Count, Closure, RetA, RetB, PanicX, RetNull, PanicBad, NullResult,
    // asynchronous
    TokenGet, YieldNow, UseNow,
    // resumable
    SetLocal, GetLocal, BadLocal, InvokeId, InvokePanic, InvokeYield, InvokeNested, InvokeNone, InvokeWrong, InvokeCatch, InvokeBad, InvokeBadArgs, InvokeReturn, SetEnd, SetSame, SetNext
};
const char* const op_names[] = {"arg(last)", "arg(count)", "arg(huge)", "count", "closure", "return a", "return b", "panic", "return null handle", "panic with bad string", "arg into null handle", "token", "yield", "use token", "set local",
    "get local", "set bad local", "invoke id", "invoke panicking", "invoke yielding", "invoke nested", "invoke without arguments", "invoke with too few arguments", "invoke catch_panic", "invoke integer", "invoke with array", "invoke result", "end", "same state", "next state"};

enum Kind { Sync, Async, Resumable };
const char* const kind_names[] = {"sync", "async", "resumable"};

using Script = std::vector<std::vector<int>>; // one list for every invocation of a resumable function, otherwise one

std::string show(const Script& s) {
    std::string r;
    for (auto& v : s) {
        r += "[";
        for (size_t i = 0; i < v.size(); ++i)
            r += std::string(i ? ", " : "") + op_names[v[i]];
        r += "]";
    }
    return r;
}

// What the native function has to observe and what its caller gets, computed along with the execution.
struct Exec {
    XVm* vm = nullptr;
    Kind kind = Sync;
    Script script;
    int argc = 0;        // expected number of arguments
    bool same_args = false;
    int entered = 0;     // calls of the native function
    std::vector<std::string> errors;
    std::vector<tiro_async_token_t> tokens;
    tiro_handle_t callees = nullptr;
    // the current call
    int state = 0, index = 0;
    std::string local = "null", invoke_result = "null";
    enum Action { None, Return, Panics, Invoke, Yield } action = None;
    std::string value, callee_value;
    bool callee_panics = false;
    bool multiple = false; // the function is called several times in a row

    void bad(const std::string& s) {
        if (errors.size() < 20)
            errors.push_back(s);
    }
};
Exec* X = nullptr;

struct FrameApi {
    std::function<size_t()> count;
    std::function<void(size_t, tiro_handle_t, tiro_error_t*)> arg;
    std::function<void(tiro_handle_t, tiro_error_t*)> closure, ret;
    std::function<void(tiro_string_t, tiro_error_t*)> panic;
};

void common_op(tiro_vm_t vm, FrameApi& f, int op) {
    Exec& x = *X;
    tiro_error_t e = nullptr;
    auto expect = [&](tiro_errc_t code) {
        auto err = take_error(e);
        if (err.code != code)
            x.bad(fmt::format("{}: error {} ({}), expected {}", op_names[op], int(err.code), err.message, int(code)));
    };
    H v(vm);
    auto check = [&](const std::string& expected) {
        std::string got = x.vm->dump(v);
        if (got != expected)
            x.bad(fmt::format("{}: observed {}, expected {}", op_names[op], got, expected));
    };
    switch (op) {
    case ArgLast:
        for (int i = 0; i < x.argc; ++i) {
            f.arg(size_t(i), v, &e);
            expect(TIRO_OK);
            check(fmt::format("\"arg{}\"", x.same_args ? 0 : i));
        }
        break;
    case ArgBad:
    case ArgHuge: {
        H keep = make_str(vm, "unchanged");
        tiro_value_copy(vm, keep, v, Err());
        f.arg(op == ArgBad ? size_t(x.argc) : size_t(-1), v, &e);
        expect(TIRO_ERROR_OUT_OF_BOUNDS);
        check("\"unchanged\"");
        break;
    }
    case NullResult:
        f.arg(0, nullptr, &e);
        expect(TIRO_ERROR_BAD_ARG);
        f.closure(nullptr, &e);
        expect(TIRO_ERROR_BAD_ARG);
        break;
    case Count:
        if (f.count() != size_t(x.argc))
            x.bad(fmt::format("{} arguments, expected {}", f.count(), x.argc));
        break;
    case Closure:
        f.closure(v, &e);
        expect(TIRO_OK);
        check("[\"closure\"]");
        break;
    case RetA:
    case RetB: {
        H r = make_str(vm, op == RetA ? "a" : "b");
        f.ret(r, &e);
        expect(TIRO_OK);
        x.action = Exec::Return;
        x.value = op == RetA ? "\"a\"" : "\"b\"";
        x.state = -1;
        break;
    }
    case PanicX:
        f.panic(S("native panic"), &e);
        expect(TIRO_OK);
        x.action = Exec::Panics;
        x.value = "\"native panic\"";
        x.state = -1;
        break;
    case RetNull:
        f.ret(nullptr, &e);
        expect(TIRO_ERROR_BAD_ARG);
        break;
    case PanicBad: {
        tiro_string_t s{nullptr, 3};
        f.panic(s, &e);
        expect(TIRO_ERROR_BAD_ARG);
        break;
    }
    }
}

void proto_sync(tiro_vm_t vm, tiro_sync_frame_t frame) {
    Exec& x = *X;
    ++x.entered;
    x.action = Exec::None;
    FrameApi f{[&] { return tiro_sync_frame_arg_count(frame); }, [&](size_t i, tiro_handle_t h, tiro_error_t* e) { tiro_sync_frame_arg(frame, i, h, e); },
        [&](tiro_handle_t h, tiro_error_t* e) { tiro_sync_frame_closure(frame, h, e); }, [&](tiro_handle_t h, tiro_error_t* e) { tiro_sync_frame_return_value(frame, h, e); },
        [&](tiro_string_t s, tiro_error_t* e) { tiro_sync_frame_panic_msg(frame, s, e); }};
    for (int op : x.script[0])
        common_op(vm, f, op);
}

void proto_async(tiro_vm_t vm, tiro_async_frame_t frame) {
    Exec& x = *X;
    ++x.entered;
    x.action = Exec::None;
    FrameApi f{[&] { return tiro_async_frame_arg_count(frame); }, [&](size_t i, tiro_handle_t h, tiro_error_t* e) { tiro_async_frame_arg(frame, i, h, e); },
        [&](tiro_handle_t h, tiro_error_t* e) { tiro_async_frame_closure(frame, h, e); }, [&](tiro_handle_t h, tiro_error_t* e) { tiro_async_frame_return_value(frame, h, e); },
        [&](tiro_string_t s, tiro_error_t* e) { tiro_async_frame_panic_msg(frame, s, e); }};
    for (int op : x.script[0]) {
        tiro_error_t e = nullptr;
        switch (op) {
        case TokenGet: {
            auto t = tiro_async_frame_token(frame, &e);
            auto err = take_error(e);
            if (!err.ok() || !t)
                x.bad("no token: " + err.message);
            else
                x.tokens.push_back(t);
            break;
        }
        case YieldNow:
            tiro_async_frame_yield(frame, &e);
            if (auto err = take_error(e); !err.ok())
                x.bad("yield: " + err.message);
            x.action = Exec::Yield;
            break;
        case UseNow:
            // The call did not yield yet
            for (auto t : x.tokens) {
                H v = make_str(vm, "too early");
                tiro_async_token_return_value(t, v, &e);
                if (take_error(e).ok())
                    x.bad("token was used before the function returned");
                tiro_async_token_panic_msg(t, S("too early"), &e);
                if (take_error(e).ok())
                    x.bad("token was used before the function returned");
            }
            break;
        default:
            common_op(vm, f, op);
        }
    }
}

// Any number except START and END.
int state_number(int argc, size_t index) {
    return argc % 2 ? int(index) + 1 : argc ? INT_MAX - int(index) : INT_MIN + int(index);
}

void proto_resumable(tiro_vm_t vm, tiro_resumable_frame_t frame) {
    Exec& x = *X;
    ++x.entered;
    FrameApi f{[&] { return tiro_resumable_frame_arg_count(frame); }, [&](size_t i, tiro_handle_t h, tiro_error_t* e) { tiro_resumable_frame_arg(frame, i, h, e); },
        [&](tiro_handle_t h, tiro_error_t* e) { tiro_resumable_frame_closure(frame, h, e); }, [&](tiro_handle_t h, tiro_error_t* e) { tiro_resumable_frame_return_value(frame, h, e); },
        [&](tiro_string_t s, tiro_error_t* e) { tiro_resumable_frame_panic_msg(frame, s, e); }};
    const int real = tiro_resumable_frame_state(frame);
    if (real == 0 && x.multiple && (x.action == Exec::Return || x.action == Exec::Panics || x.state == -1)) {
        x.state = 0; // another call
        x.index = 0;
        x.local = x.invoke_result = "null";
        x.action = Exec::None;
    }
    if (x.action == Exec::Return || x.action == Exec::Panics)
        x.bad("called again after it returned");
    if (x.action == Exec::Invoke) {
        if (x.callee_panics)
            x.bad("called again although the invoked function panicked");
        x.invoke_result = x.callee_value;
    } else {
        x.invoke_result = "null";
    }
    x.action = Exec::None;
    if (real != x.state)
        x.bad(fmt::format("called in state {}, expected {}", real, x.state));
    if (tiro_resumable_frame_local_count(frame) != 2)
        x.bad("wrong number of locals");
    const std::vector<int> last = {Count, InvokeReturn, GetLocal, RetA};
    const size_t index = size_t(x.index++);
    const auto& ops = index < x.script.size() ? x.script[index] : last;
    const int arrived = x.state;
    for (int op : ops) {
        tiro_error_t e = nullptr;
        auto expect = [&](tiro_errc_t code) {
            auto err = take_error(e);
            if (err.code != code)
                x.bad(fmt::format("{}: error {} ({}), expected {}", op_names[op], int(err.code), err.message, int(code)));
        };
        auto invoke = [&](int callee, const char* arg, std::string value, bool panics) {
            H c(vm), args(vm);
            tiro_array_get(vm, x.callees, size_t(callee), c, Err());
            if (arg) {
                tiro_make_tuple(vm, 1, args, Err());
                H a = make_str(vm, arg);
                tiro_tuple_set(vm, args, 0, a, Err());
            }
            x.state = state_number(x.argc, index);
            tiro_resumable_frame_invoke(frame, x.state, c, arg ? args : (index % 2 ? tiro_handle_t(args) : nullptr), &e);
            expect(TIRO_OK);
            x.action = Exec::Invoke;
            x.callee_value = value;
            x.callee_panics = panics;
        };
        switch (op) {
        case SetLocal: {
            H v = make_int(vm, 70 + int(index));
            tiro_resumable_frame_set_local(frame, 1, v, &e);
            expect(TIRO_OK);
            x.local = std::to_string(70 + int(index));
            break;
        }
        case GetLocal: {
            H v(vm);
            tiro_resumable_frame_local(frame, 1, v, &e);
            expect(TIRO_OK);
            if (x.vm->dump(v) != x.local)
                x.bad(fmt::format("local is {}, expected {}", x.vm->dump(v), x.local));
            tiro_resumable_frame_local(frame, 0, v, &e);
            expect(TIRO_OK);
            if (x.vm->dump(v) != "null")
                x.bad("another local was modified: " + x.vm->dump(v));
            break;
        }
        case BadLocal: {
            H v = make_int(vm, 1);
            tiro_resumable_frame_set_local(frame, 2, v, &e);
            expect(TIRO_ERROR_OUT_OF_BOUNDS);
            tiro_resumable_frame_local(frame, size_t(-1), v, &e);
            expect(TIRO_ERROR_OUT_OF_BOUNDS);
            tiro_resumable_frame_set_local(frame, 0, nullptr, &e);
            expect(TIRO_ERROR_BAD_ARG);
            break;
        }
        case InvokeId: invoke(0, "x", "\"x\"", false); break;
        case InvokePanic: invoke(1, "x", "\"callee\"", true); break;
        case InvokeYield: invoke(2, "x", "(\"late\",\"x\")", false); break;
        case InvokeNested: invoke(3, "x", "(\"x\",\"x\",\"closure of call\",(\"x\",\"x\"))", false); break;
        case InvokeNone: invoke(4, nullptr, "\"none\"", false); break;
        case InvokeWrong: invoke(5, "x", "", true); break;
        case InvokeCatch: invoke(6, "x", "error(exception(\"cannot call objects of type String as a function\"))", false); break;
        case InvokeBad: {
            H i = make_int(vm, 1);
            tiro_resumable_frame_invoke(frame, 99, i, nullptr, &e);
            expect(TIRO_ERROR_BAD_TYPE);
            tiro_resumable_frame_invoke(frame, 99, nullptr, nullptr, &e);
            expect(TIRO_ERROR_BAD_ARG);
            break;
        }
        case InvokeBadArgs: {
            H c(vm), a(vm);
            tiro_array_get(vm, x.callees, 0, c, Err());
            tiro_make_array(vm, 0, a, Err());
            tiro_resumable_frame_invoke(frame, 99, c, a, &e);
            expect(TIRO_ERROR_BAD_TYPE);
            break;
        }
        case InvokeReturn: {
            H v(vm);
            tiro_resumable_frame_invoke_return(frame, v, &e);
            expect(TIRO_OK);
            if (x.vm->dump(v) != x.invoke_result)
                x.bad(fmt::format("result of the invoked function is {}, expected {}", x.vm->dump(v), x.invoke_result));
            tiro_resumable_frame_invoke_return(frame, nullptr, &e);
            expect(TIRO_ERROR_BAD_ARG);
            break;
        }
        case SetEnd:
        case SetSame:
        case SetNext:
            x.state = op == SetEnd ? -1 : op == SetSame ? arrived : state_number(x.argc, index);
            tiro_resumable_frame_set_state(frame, x.state, &e);
            expect(TIRO_OK);
            break;
        default:
            common_op(vm, f, op);
        }
        if (tiro_resumable_frame_state(frame) != x.state)
            x.bad(fmt::format("{}: state is {}, expected {}", op_names[op], tiro_resumable_frame_state(frame), x.state));
    }
}

// ---- Environment ----

struct Env {
    XVm vm;
    tiro_handle_t functions[3][4];
    tiro_handle_t callees;

    Env() {
        vm.load_source(program, "m");
        for (int k = 0; k < 3; ++k)
            for (int argc = 0; argc < 4; ++argc) {
                tiro_handle_t r = tiro_global_new(vm, Err());
                functions[k][argc] = r;
                H name = make_str(vm, "proto"), clo(vm), s = make_str(vm, "closure");
                tiro_make_array(vm, 0, clo, Err());
                tiro_array_push(vm, clo, s, Err());
                if (k == Sync)
                    tiro_make_sync_function(vm, name, proto_sync, size_t(argc), clo, r, Err());
                else if (k == Async)
                    tiro_make_async_function(vm, name, proto_async, size_t(argc), clo, r, Err());
                else {
                    tiro_resumable_frame_desc_t d{};
                    d.name = name;
                    d.arg_count = size_t(argc);
                    d.local_count = 2;
                    d.closure = clo;
                    d.func = proto_resumable;
                    tiro_make_resumable_function(vm, &d, r, Err());
                }
            }
        callees = tiro_global_new(vm, Err());
        MC_CHECK(vm.get_export("m", "callees", callees).ok(), "no callees");
    }
    ~Env() {
        for (auto& k : functions)
            for (auto f : k)
                tiro_global_free(f);
        tiro_global_free(callees);
    }
};

struct Call {
    Kind kind;
    std::string context; // name of the tiro function, "root"
    int argc, required;  // given and required arguments
    Script script;
    int delivery = 0; // 0: value, 1: panic, 2: value, then refused second use
    bool gc = false;
    std::string describe() const {
        return fmt::format("{} {}({} of {}) {}{}{}", kind_names[kind], context, argc, required, show(script), delivery == 1 ? " delivers a panic" : delivery == 2 ? " delivers twice" : "", gc ? " with collections" : "");
    }
};

// Result of f as seen by the context.
std::string in_context(const std::string& ctx, bool panics, const std::string& value, int argc) {
    auto panic = [&] { return "panic exception(" + value + ")"; };
    if (ctx == "plain" || ctx == "member" || ctx == "optional" || ctx == "root")
        return panics ? panic() : "value " + value;
    if (ctx == "pending")
        return panics ? panic() : "value [1,(2," + value + ",3),4]";
    if (ctx == "caught")
        return panics ? "value (<#panic>," + value + ")" : "value (<#ok>," + value + ")";
    if (ctx == "deferred")
        return panics ? panic() : "value \"result\"";
    if (ctx == "native")
        return panics ? panic() : "value (\"arg0\",\"arg0\",\"closure of call\"," + value + ")";
    if (ctx == "loop")
        return panics ? panic() : "value [" + value + "," + value + "," + value + "]";
    fail("unknown context");
}

void run_call(Env& env, const Call& c) {
    XVm& vm = env.vm;
    Exec x;
    X = &x;
    x.vm = &vm;
    x.kind = c.kind;
    x.script = c.script;
    x.argc = c.argc;
    x.same_args = c.context == "native";
    x.callees = env.callees;
    x.multiple = c.context == "loop";
    vm.log.clear();
    vm.native_errors.clear();
    gc::Guard guard;
    if (c.gc)
        gc::always();
    H fn(vm), coro(vm), args(vm);
    auto f = env.functions[c.kind][c.required];
    if (c.context == "root") {
        tiro_make_tuple(vm, size_t(c.argc), args, Err());
        for (int i = 0; i < c.argc; ++i) {
            H s = make_str(vm, fmt::format("arg{}", i));
            tiro_tuple_set(vm, args, size_t(i), s, Err());
        }
        tiro_make_coroutine(vm, f, args, coro, Err());
    } else {
        MC_CHECK(vm.get_export("m", c.context + std::to_string(c.argc), fn).ok(), "no context {}", c.context);
        tiro_make_tuple(vm, 1, args, Err());
        tiro_tuple_set(vm, args, 0, f, Err());
        tiro_make_coroutine(vm, fn, args, coro, Err());
    }
    tiro_coroutine_start(vm, coro, Err());
    bool panics = false;
    std::string value;
    bool forever = false;
    bool delivered_panic = false;
    for (int round = 0; round < 100; ++round) {
        tiro_error_t e = nullptr;
        tiro_vm_run_ready(vm, &e);
        if (auto err = take_error(e); !err.ok())
            fail("the virtual machine reported {} {}", err.message, err.details);
        if (tiro_coroutine_completed(vm, coro))
            break;
        if (vm.pending()) {
            MC_CHECK(vm.deliver().ok(), "delivery failed");
            continue;
        }
        if (c.kind == Async && x.action == Exec::Yield) {
            if (x.tokens.empty()) {
                forever = true;
                break;
            }
            // Any token of the call may be used, once.
            auto t = x.tokens.back();
            H v = make_str(vm, "delivered");
            tiro_async_token_return_value(t, nullptr, &e);
            MC_CHECK(take_error(e).code == TIRO_ERROR_BAD_ARG, "null value was accepted");
            tiro_string_t bad{nullptr, 1};
            tiro_async_token_panic_msg(t, bad, &e);
            MC_CHECK(take_error(e).code == TIRO_ERROR_BAD_ARG, "bad message was accepted");
            if (c.delivery == 1)
                tiro_async_token_panic_msg(t, S("delivered panic"), &e);
            else
                tiro_async_token_return_value(t, v, &e);
            auto err = take_error(e);
            MC_CHECK(err.ok(), "delivery was refused: {}", err.message);
            x.action = c.delivery == 1 ? Exec::Panics : Exec::Return;
            x.value = c.delivery == 1 ? "\"delivered panic\"" : "\"delivered\"";
            if (c.delivery == 2) {
                H w = make_str(vm, "second");
                for (auto u : x.tokens) {
                    tiro_async_token_return_value(u, w, &e);
                    MC_CHECK(!take_error(e).ok(), "second delivery was accepted");
                    tiro_async_token_panic_msg(u, S("second"), &e);
                    MC_CHECK(!take_error(e).ok(), "second delivery was accepted");
                }
            }
            for (auto u : x.tokens)
                if (c.delivery == 2)
                    tiro_async_token_free(u);
            if (c.delivery == 2)
                x.tokens.clear();
            continue;
        }
        fail("the coroutine waits forever");
    }
    (void) delivered_panic;
    for (auto& s : x.errors)
        fail("{}", s);
    MC_CHECK(vm.native_errors.empty(), "helper functions failed");
    R.transitions(uint64_t(x.entered));
    if (forever) {
        MC_CHECK(!tiro_coroutine_completed(vm, coro), "completed without a result");
        X = nullptr;
        return;
    }
    MC_CHECK(tiro_coroutine_completed(vm, coro), "not completed");
    if (c.argc < c.required) {
        MC_CHECK(x.entered == 0, "the function was entered with too few arguments");
        panics = true;
        value = fmt::format("\"insufficient number of function arguments (need {}, but have {})\"", c.required, c.argc);
    } else {
        MC_CHECK(x.entered > 0, "the function was not entered");
        switch (x.action) {
        case Exec::Return: value = x.value; break;
        case Exec::Panics:
            value = x.value;
            panics = true;
            break;
        case Exec::Invoke:
            if (x.callee_panics) {
                panics = true;
                value = x.callee_value;
            } else {
                MC_CHECK(x.state == -1, "not called again after invoking a function");
                value = "null";
            }
            break;
        default: value = "null";
        }
    }
    H res(vm);
    tiro_coroutine_result(vm, coro, res, Err());
    std::string got = vm.dump(res);
    std::string observed;
    if (got.rfind("success(", 0) == 0)
        observed = "value " + got.substr(8, got.size() - 9);
    else if (got.rfind("error(", 0) == 0)
        observed = "panic " + got.substr(6, got.size() - 7);
    else
        observed = got;
    if (panics && value.empty()) { // message not specified
        if (c.context == "caught")
            MC_CHECK(observed.rfind("value (<#panic>,", 0) == 0, "expected a caught panic, observed {}", observed);
        else
            MC_CHECK(observed.rfind("panic ", 0) == 0, "expected a panic, observed {}", observed);
    } else {
        std::string expected = in_context(c.context, panics, value, c.argc);
        MC_CHECK(observed == expected, "expected {}, observed {}", expected, observed);
    }
    if (c.context == "deferred")
        MC_CHECK(vm.log == std::vector<std::string>{"<#after>"}, "deferred statements were not executed once");
    // Tokens of finished calls are refused.
    for (auto t : x.tokens) {
        tiro_error_t e = nullptr;
        H v = make_str(vm, "too late");
        tiro_async_token_return_value(t, v, &e);
        MC_CHECK(!take_error(e).ok(), "a token was accepted after the call was finished");
        tiro_async_token_panic_msg(t, S("too late"), &e);
        MC_CHECK(!take_error(e).ok(), "a token was accepted after the call was finished");
        tiro_async_token_free(t);
        MC_CHECK(!tiro_vm_has_ready(vm), "something is ready");
    }
    R.outcome(observed);
    R.states(1);
    R.traces(1);
    R.evaluations(1);
    R.nontrivial(x.entered > 1 || panics);
    X = nullptr;
}

struct Feeder {
    size_t limit, count = 0;
    bool mine = false;
    std::vector<Call> items;
    explicit Feeder(size_t l = 300)
        : limit(l) {}
    ~Feeder() noexcept(false) {
        if (!std::uncaught_exceptions())
            flush();
    }
    void add(Call c) {
        if (count == 0)
            mine = R.claim();
        if (mine)
            items.push_back(std::move(c));
        if (++count >= limit)
            flush();
    }
    void flush() {
        count = 0;
        if (items.empty())
            return;
        auto work = std::move(items);
        items.clear();
        R.exec_batch(
            work.size(), [&](size_t i) { return work[i].describe(); },
            [&](size_t begin, size_t end) {
                auto env = std::make_unique<Env>();
                for (size_t i = begin; i < end; ++i) {
                    R.sub(i);
                    try {
                        run_call(*env, work[i]);
                        if (R.want_sample())
                            R.sample(work[i].describe());
                    } catch (const Failure& f) {
                        R.sub_fail(i, work[i].describe() + "\n" + f.what);
                        X = nullptr;
                        env = std::make_unique<Env>();
                    }
                }
            });
    }
};

std::vector<std::vector<int>> lists(const std::vector<int>& ops, size_t max, size_t min = 0) {
    std::vector<std::vector<int>> r;
    for (size_t n = min; n <= max; ++n)
        all_sequences(ops.size(), n, [&](const std::vector<int>& seq) {
            std::vector<int> s;
            for (int x : seq)
                s.push_back(ops[size_t(x)]);
            r.push_back(s);
        });
    return r;
}

struct Ctx {
    const char* name;
    std::vector<int> argcs;
};
const std::vector<Ctx> contexts = {{"plain", {0, 1, 2, 3}}, {"member", {0, 1, 2, 3}}, {"pending", {0, 1, 2, 3}}, {"caught", {0, 1, 2, 3}}, {"deferred", {0, 1, 2, 3}}, {"optional", {0, 1, 2, 3}}, {"native", {2}}, {"loop", {1}}, {"root", {0, 1, 2, 3}}};

void calls() {
    Feeder f;
    const size_t len = R.thorough ? 4 : 3;
    const std::vector<int> sync_ops = {ArgLast, ArgBad, ArgHuge, Count, Closure, RetA, RetB, PanicX, RetNull, PanicBad, NullResult};
    for (auto& l : lists(sync_ops, len))
        for (auto& ctx : contexts)
            for (int argc : ctx.argcs) {
                if (l.size() == len && argc != 1 && ctx.argcs.size() > 1)
                    continue;
                f.add({Sync, ctx.name, argc, std::max(0, argc - int(l.size() % 2)), {l}});
            }
    const std::vector<int> async_ops = {ArgLast, ArgBad, Closure, RetA, RetB, PanicX, RetNull, PanicBad, TokenGet, YieldNow, UseNow};
    for (auto& l : lists(async_ops, len))
        for (auto& ctx : contexts)
            for (int argc : ctx.argcs) {
                if (l.size() == len && argc != 1 && ctx.argcs.size() > 1)
                    continue;
                if (std::string(ctx.name) == "loop" && std::count(l.begin(), l.end(), int(YieldNow)))
                    continue; // tokens of several calls: see stale()
                for (int d = 0; d < 3; ++d)
                    if (!d || std::count(l.begin(), l.end(), int(YieldNow)))
                        f.add({Async, ctx.name, argc, argc, {l}, d});
            }
    // too few arguments
    for (int k = 0; k < 3; ++k)
        for (auto& ctx : contexts)
            for (int argc : ctx.argcs)
                for (int required = 0; required < 4; ++required)
                    f.add({Kind(k), ctx.name, argc, required, {{Count, ArgLast, ArgBad, RetA}}});
    // resumable functions
    const std::vector<int> all = {ArgLast, ArgBad, Closure, RetA, PanicX, SetLocal, GetLocal, BadLocal, InvokeId, InvokePanic, InvokeYield, InvokeNested, InvokeNone, InvokeWrong, InvokeCatch, InvokeBad, InvokeBadArgs, InvokeReturn, SetEnd, SetSame, SetNext};
    const std::vector<int> core = {RetA, PanicX, SetLocal, GetLocal, InvokeId, InvokeYield, InvokePanic, InvokeReturn, SetEnd, SetNext};
    auto effect = [](const std::vector<int>& l) { // otherwise the function is called forever
        for (int o : l)
            if (o != ArgLast)
                return true;
        return false;
    };
    (void) effect;
    for (auto& ctx : contexts)
        for (auto& a : lists(all, 2))
            for (auto& b : lists(all, 1))
                f.add({Resumable, ctx.name, ctx.argcs[ctx.argcs.size() > 1 ? 1 : 0], 1, {a, b}});
    for (auto& ctx : contexts)
        for (auto& a : lists(core, 1, 1))
            for (auto& b : lists(core, R.thorough ? 2 : 1, 1))
                for (auto& c : lists(core, 2, 1))
                    f.add({Resumable, ctx.name, ctx.argcs[ctx.argcs.size() > 1 ? 1 : 0], 1, {a, b, c}});
    if (R.thorough)
        for (auto& a : lists(core, 2, 1))
            for (auto& b : lists(core, 2, 1))
                for (auto& c : lists(core, 2, 1))
                    f.add({Resumable, "pending", 2, 2, {a, b, c}});
    // with a collection at every allocation
    for (auto& ctx : contexts)
        for (auto& a : lists(core, 2))
            for (auto& b : lists({InvokeReturn, GetLocal, InvokeId}, 1))
                f.add({Resumable, ctx.name, ctx.argcs[ctx.argcs.size() > 1 ? 1 : 0], 1, {a, b}, 0, true});
    for (auto& ctx : contexts)
        for (auto& a : lists({ArgLast, Closure, RetA, PanicX, TokenGet, YieldNow}, 3))
            if (std::string(ctx.name) != "loop" || !std::count(a.begin(), a.end(), int(YieldNow)))
                for (int d = 0; d < 3; ++d)
                    f.add({Async, ctx.name, ctx.argcs[ctx.argcs.size() > 1 ? 1 : 0], 1, {a}, d, true});
}

// ---- Tokens of calls that are over ----

enum Use { UseValue, UsePanic, UseNone };

void stale_tokens() {
    for (auto& l : lists({TokenGet, YieldNow, RetA, PanicX}, 4))
        for (int mode = 0; mode < 6; ++mode)
            for (int use = 0; use < 2; ++use)
                for (int when = 0; when < 3; ++when) { // free the token: at the end, immediately, never
                    if (!std::count(l.begin(), l.end(), int(TokenGet)))
                        continue;
                    if (!R.claim())
                        continue;
                    R.exec(fmt::format("stale token {} mode {} {} {}", show({l}), mode, use ? "panic" : "value", when), [&] {
                        Env env;
                        XVm& vm = env.vm;
                        Exec x;
                        X = &x;
                        x.vm = &vm;
                        x.kind = Async;
                        x.script = {l};
                        H fn(vm), args(vm), coro(vm);
                        MC_CHECK(vm.get_export("m", "stale", fn).ok(), "no function");
                        tiro_make_tuple(vm, 2, args, Err());
                        tiro_tuple_set(vm, args, 0, env.functions[Async][0], Err());
                        H m = make_int(vm, mode);
                        tiro_tuple_set(vm, args, 1, m, Err());
                        tiro_make_coroutine(vm, fn, args, coro, Err());
                        tiro_coroutine_start(vm, coro, Err());
                        tiro_error_t e = nullptr;
                        std::vector<std::string> expected;
                        auto run = [&] {
                            tiro_vm_run_ready(vm, &e);
                            if (auto err = take_error(e); !err.ok())
                                fail("the virtual machine reported {} {}", err.message, err.details);
                            R.transitions(1);
                        };
                        std::vector<tiro_async_token_t> old;
                        auto use_old = [&](const char* where) {
                            const bool ready = tiro_vm_has_ready(vm);
                            for (auto t : old) {
                                H v = make_str(vm, "stale");
                                if (use == 0)
                                    tiro_async_token_return_value(t, v, &e);
                                else
                                    tiro_async_token_panic_msg(t, S("stale"), &e);
                                MC_CHECK(!take_error(e).ok(), "an old token was accepted {}", where);
                                MC_CHECK(tiro_vm_has_ready(vm) == ready, "an old token resumed the coroutine {}", where);
                            }
                        };
                        // finishes a call of the function
                        auto finish = [&]() -> bool {
                            auto act = x.action;
                            std::string r = act == Exec::Return ? "success(" + x.value + ")" : act == Exec::Panics ? "error(exception(" + x.value + "))" : "success(null)";
                            if (act == Exec::Yield) {
                                MC_CHECK(!tiro_coroutine_completed(vm, coro), "completed");
                                use_old("while a later call waits");
                                if (x.tokens.empty())
                                    return false;
                                H v = make_str(vm, "delivered");
                                tiro_async_token_return_value(x.tokens.front(), v, &e);
                                auto err = take_error(e);
                                MC_CHECK(err.ok(), "delivery failed: {}", err.message);
                                x.action = Exec::None;
                                for (auto t : x.tokens)
                                    old.push_back(t);
                                x.tokens.clear();
                                expected.push_back("success(\"delivered\")");
                                run();
                            } else {
                                for (auto t : x.tokens)
                                    old.push_back(t);
                                x.tokens.clear();
                                expected.push_back(r);
                            }
                            return true;
                        };
                        run();
                        // The first call may be followed by the second one without a pause.
                        if (mode == 2 && x.entered == 2) {
                            auto r = x.action == Exec::Return ? "success(" + x.value + ")" : x.action == Exec::Panics ? "error(exception(" + x.value + "))" : std::string("success(null)");
                            expected = {r, r};
                            old = x.tokens;
                            x.tokens.clear();
                        } else {
                            if (!finish())
                                return;
                            if (mode == 0) {
                                expected.push_back("<#waiting>");
                                use_old("by a waiting coroutine");
                                run();
                                MC_CHECK(vm.log == expected, "continued: {}", fmt::join(vm.log, " "));
                                MC_CHECK(vm.call("m", "wake").value == "true", "could not be resumed");
                                expected.push_back("<#woken>");
                                run();
                            } else if (mode == 2) {
                                if (!finish())
                                    return;
                            } else {
                                MC_CHECK(vm.pending() == 1, "no pending call");
                                use_old("by a call that waits");
                                run();
                                MC_CHECK(vm.log == expected, "continued: {}", fmt::join(vm.log, " "));
                                MC_CHECK(vm.deliver().ok(), "delivery failed");
                                use_old("after delivery");
                                expected.push_back(mode == 3 ? "success(\"other\")" : mode == 4 ? "(3,3,\"closure of call\",(\"late\",3))" : "\"other\"");
                                run();
                            }
                        }
                        for (auto& s : x.errors)
                            fail("{}", s);
                        MC_CHECK(tiro_coroutine_completed(vm, coro), "not completed");
                        use_old("after completion");
                        H res(vm);
                        tiro_coroutine_result(vm, coro, res, Err());
                        MC_CHECK(vm.dump(res) == "success(\"end\")", "result {}", vm.dump(res));
                        MC_CHECK(vm.log == expected, "expected {}, observed {}", fmt::join(expected, " "), fmt::join(vm.log, " "));
                        if (when < 2)
                            for (auto t : old)
                                tiro_async_token_free(t);
                        R.outcome(fmt::format("{}", fmt::join(vm.log, " ")));
                        R.states(vm.log.size());
                        R.traces(1);
                        R.evaluations(1);
                        R.nontrivial(1);
                    });
                }
}

// ---- Several calls in progress, completed in every order ----

void orders() {
    const int max = R.thorough ? 5 : 4;
    for (int n = 1; n <= max; ++n) {
        std::vector<int> perm;
        for (int i = 0; i < n; ++i)
            perm.push_back(i);
        do {
            for (int panics = 0; panics < (1 << n); ++panics)
                for (int group = 0; group < 2; ++group) {
                    if (!R.claim())
                        continue;
                    R.exec(fmt::format("completion order {} panics {:b} {}", fmt::join(perm, " "), panics, group ? "together" : "one by one"), [&] {
                        Env env;
                        XVm& vm = env.vm;
                        Exec x;
                        X = &x;
                        x.vm = &vm;
                        x.kind = Async;
                        x.script = {{ArgLast, TokenGet, YieldNow}};
                        x.argc = 1;
                        std::vector<H> coros;
                        H fn(vm);
                        MC_CHECK(vm.get_export("m", "caught1", fn).ok(), "no function");
                        for (int i = 0; i < n; ++i) {
                            H args(vm);
                            tiro_make_tuple(vm, 1, args, Err());
                            tiro_tuple_set(vm, args, 0, env.functions[Async][1], Err());
                            coros.emplace_back(vm);
                            tiro_make_coroutine(vm, fn, args, coros.back(), Err());
                            tiro_coroutine_start(vm, coros.back(), Err());
                        }
                        tiro_vm_run_ready(vm, Err());
                        MC_CHECK(int(x.tokens.size()) == n, "{} calls, expected {}", x.tokens.size(), n);
                        auto check = [&](int i) {
                            H res(vm);
                            tiro_coroutine_result(vm, coros[size_t(i)], res, Err());
                            std::string want = panics >> i & 1 ? fmt::format("success((<#panic>,\"panic {}\"))", i) : fmt::format("success((<#ok>,{}))", i * 1000);
                            MC_CHECK(vm.dump(res) == want, "call {}: {}, expected {}", i, vm.dump(res), want);
                        };
                        for (int i : perm) {
                            if (panics >> i & 1)
                                tiro_async_token_panic_msg(x.tokens[size_t(i)], S(fmt::format("panic {}", i)), Err());
                            else {
                                H v = make_int(vm, i * 1000);
                                tiro_async_token_return_value(x.tokens[size_t(i)], v, Err());
                            }
                            tiro_async_token_free(x.tokens[size_t(i)]);
                            R.transitions(1);
                            if (!group) {
                                tiro_vm_run_ready(vm, Err());
                                check(i);
                                int done = 0;
                                for (auto& c : coros)
                                    done += tiro_coroutine_completed(vm, c);
                                MC_CHECK(done == int(std::find(perm.begin(), perm.end(), i) - perm.begin()) + 1, "{} coroutines are completed", done);
                            }
                        }
                        tiro_vm_run_ready(vm, Err());
                        for (int i = 0; i < n; ++i)
                            check(i);
                        for (auto& s : x.errors)
                            fail("{}", s);
                        R.states(uint64_t(n));
                        R.traces(1);
                        R.evaluations(1);
                        R.nontrivial(1);
                    });
                }
        } while (std::next_permutation(perm.begin(), perm.end()));
    }
}

} // namespace

void mc::enumerate() {
    stale_tokens();
    orders();
    calls();
}
