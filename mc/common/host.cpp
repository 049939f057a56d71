#include "common/host.hpp"

#include <cstring>

namespace mc {

namespace {
template<typename F>
struct ScopeGuard {
    F f;
    explicit ScopeGuard(F f_)
        : f(f_) {}
    ~ScopeGuard() { f(); }
};
} // namespace

std::map<int64_t, int> finalized;

static const tiro_native_type_t native_type = [] {
    tiro_native_type_t t{};
    t.name = S("Thing");
    t.alignment = alignof(NativeData);
    t.finalizer = [](void* data, size_t size) {
        auto* d = static_cast<NativeData*>(data);
        if (size != sizeof(NativeData) || d->check != ~uint64_t(d->id))
            finalized[INT64_MIN] += 1;
        else
            finalized[d->id] += 1;
    };
    return t;
}();

H make_native(tiro_vm_t vm, int64_t id, tiro_error_t* err) {
    H r(vm);
    tiro_make_native(vm, &native_type, sizeof(NativeData), r, err);
    if (!err || !*err) {
        auto* d = static_cast<NativeData*>(tiro_native_data(vm, r));
        MC_CHECK(d, "native object without data");
        d->id = id;
        d->check = ~uint64_t(id);
    }
    return r;
}

namespace {

// Collects the errors of a native function's calls.
struct NErr {
    tiro_vm_t vm;
    tiro_error_t e = nullptr;
    bool failed = false;
    explicit NErr(tiro_vm_t v)
        : vm(v) {}
    ~NErr() { flush(); }
    void flush() {
        if (e) {
            ApiError a = take_error(e);
            if (xvm(vm).native_errors.size() < 100)
                xvm(vm).native_errors.push_back(std::move(a));
            failed = true;
        }
    }
    operator tiro_error_t*() {
        flush();
        return &e;
    }
    bool bad() {
        flush();
        return failed;
    }
};

void g_native(tiro_vm_t vm, tiro_sync_frame_t f) {
    NErr err(vm);
    H a(vm);
    tiro_sync_frame_arg(f, 0, a, err);
    tiro_error_t e = nullptr;
    H r = make_native(vm, tiro_integer_value(vm, a), &e);
    err.e = e;
    if (!err.bad())
        tiro_sync_frame_return_value(f, r, err);
}

void g_nval(tiro_vm_t vm, tiro_sync_frame_t f) {
    NErr err(vm);
    H a(vm), r(vm);
    tiro_sync_frame_arg(f, 0, a, err);
    auto* d = static_cast<NativeData*>(tiro_native_data(vm, a));
    tiro_make_integer(vm, d && d->check == ~uint64_t(d->id) ? d->id : -1, r, err);
    tiro_sync_frame_return_value(f, r, err);
}

void closure_fn(tiro_vm_t vm, tiro_sync_frame_t f) {
    NErr err(vm);
    H a(vm), c(vm), r(vm);
    tiro_sync_frame_arg(f, 0, a, err);
    tiro_sync_frame_closure(f, c, err);
    tiro_make_tuple(vm, 2, r, err);
    if (err.bad())
        return;
    tiro_tuple_set(vm, r, 0, c, err);
    tiro_tuple_set(vm, r, 1, a, err);
    tiro_sync_frame_return_value(f, r, err);
}

void g_mkfn(tiro_vm_t vm, tiro_sync_frame_t f) {
    NErr err(vm);
    H a(vm), n(vm), r(vm);
    tiro_sync_frame_arg(f, 0, a, err);
    tiro_make_string(vm, S("made"), n, err);
    if (err.bad())
        return;
    tiro_make_sync_function(vm, n, closure_fn, 1, a, r, err);
    if (!err.bad())
        tiro_sync_frame_return_value(f, r, err);
}

template<bool Build>
void g_later(tiro_vm_t vm, tiro_async_frame_t f) {
    NErr err(vm);
    tiro_handle_t v = tiro_global_new(vm, err);
    if (err.bad())
        return;
    tiro_async_frame_arg(f, 0, v, err);
    tiro_async_token_t tok = tiro_async_frame_token(f, err);
    if (err.bad()) {
        tiro_global_free(v);
        return;
    }
    tiro_async_frame_yield(f, err);
    xvm(vm).pending_.push_back({tok, v, Build});
}

void g_call(tiro_vm_t vm, tiro_resumable_frame_t f) {
    NErr err(vm);
    switch (tiro_resumable_frame_state(f)) {
    case TIRO_RESUMABLE_STATE_START: {
        H fn(vm), a(vm), args(vm);
        tiro_resumable_frame_arg(f, 0, fn, err);
        tiro_resumable_frame_arg(f, 1, a, err);
        tiro_resumable_frame_set_local(f, 0, a, err);
        tiro_make_tuple(vm, 2, args, err);
        if (err.bad())
            return tiro_resumable_frame_set_state(f, TIRO_RESUMABLE_STATE_END, err);
        tiro_tuple_set(vm, args, 0, a, err);
        tiro_tuple_set(vm, args, 1, a, err);
        tiro_resumable_frame_invoke(f, 1, fn, args, err);
        if (err.bad())
            tiro_resumable_frame_set_state(f, TIRO_RESUMABLE_STATE_END, err);
        break;
    }
    case 1: {
        H r(vm), v(vm);
        tiro_make_tuple(vm, 4, r, err);
        if (err.bad())
            return tiro_resumable_frame_set_state(f, TIRO_RESUMABLE_STATE_END, err);
        tiro_resumable_frame_local(f, 0, v, err);
        tiro_tuple_set(vm, r, 0, v, err);
        tiro_resumable_frame_arg(f, 1, v, err);
        tiro_tuple_set(vm, r, 1, v, err);
        tiro_resumable_frame_closure(f, v, err);
        tiro_tuple_set(vm, r, 2, v, err);
        tiro_resumable_frame_invoke_return(f, v, err);
        tiro_tuple_set(vm, r, 3, v, err);
        tiro_resumable_frame_return_value(f, r, err);
        break;
    }
    }
}

void g_keep(tiro_vm_t vm, tiro_sync_frame_t f) {
    NErr err(vm);
    XVm& x = xvm(vm);
    if (!x.kept_)
        x.kept_ = tiro_global_new(vm, err);
    if (!err.bad())
        tiro_sync_frame_arg(f, 0, x.kept_, err);
}
void g_kept(tiro_vm_t vm, tiro_sync_frame_t f) {
    NErr err(vm);
    if (xvm(vm).kept_)
        tiro_sync_frame_return_value(f, xvm(vm).kept_, err);
}

void g_both(tiro_vm_t vm, tiro_sync_frame_t f) {
    NErr err(vm);
    H a(vm), b(vm), r(vm), arr(vm);
    tiro_make_tuple(vm, 3, r, err);
    if (err.bad())
        return;
    tiro_sync_frame_arg(f, 0, a, err);
    tiro_make_array(vm, 0, arr, err);
    tiro_array_push(vm, arr, a, err);
    tiro_tuple_set(vm, r, 0, a, err);
    tiro_sync_frame_arg(f, 1, b, err);
    tiro_array_push(vm, arr, b, err);
    tiro_tuple_set(vm, r, 1, b, err);
    tiro_tuple_set(vm, r, 2, arr, err);
    if (!err.bad())
        tiro_sync_frame_return_value(f, r, err);
}

void g_array(tiro_vm_t vm, tiro_sync_frame_t f) {
    NErr err(vm);
    H a(vm), r(vm);
    tiro_sync_frame_arg(f, 0, a, err);
    tiro_make_array(vm, size_t(tiro_integer_value(vm, a)), r, err);
    if (!err.bad())
        tiro_sync_frame_return_value(f, r, err);
}
void g_bytes(tiro_vm_t vm, tiro_sync_frame_t f) {
    NErr err(vm);
    H a(vm), b(vm), r(vm);
    tiro_sync_frame_arg(f, 0, a, err);
    tiro_sync_frame_arg(f, 1, b, err);
    size_t n = size_t(tiro_integer_value(vm, a));
    tiro_make_buffer(vm, n, r, err);
    if (err.bad())
        return;
    memset(tiro_buffer_data(vm, r), int(tiro_integer_value(vm, b)), n);
    tiro_sync_frame_return_value(f, r, err);
}
void g_tuple(tiro_vm_t vm, tiro_sync_frame_t f) {
    NErr err(vm);
    H a(vm), v(vm), r(vm);
    tiro_sync_frame_arg(f, 0, a, err);
    tiro_sync_frame_arg(f, 1, v, err);
    size_t n = size_t(tiro_integer_value(vm, a));
    tiro_make_tuple(vm, n, r, err);
    if (err.bad())
        return;
    for (size_t i = 0; i < n; ++i)
        tiro_tuple_set(vm, r, i, v, err);
    tiro_sync_frame_return_value(f, r, err);
}

} // namespace

XVm::XVm(VmOptions opts)
    : Vm(opts) {
    tiro_vm_t vm = get();
    struct Sync {
        const char* name;
        tiro_sync_function_t f;
        size_t argc;
    } syncs[] = {{"native", g_native, 1}, {"nval", g_nval, 1}, {"mkfn", g_mkfn, 1}, {"keep", g_keep, 1},
        {"kept", g_kept, 0}, {"both", g_both, 2}, {"array", g_array, 1}, {"bytes", g_bytes, 2},
        {"tuple", g_tuple, 2}};
    std::vector<H> fns;
    std::vector<tiro_module_member_t> members;
    auto add = [&](const char* name, auto&& make) {
        H n = make_str(vm, name);
        fns.emplace_back(vm);
        make(n, fns.back());
        members.push_back({S(name), fns.back()});
    };
    for (auto& s : syncs)
        add(s.name, [&](H& n, H& r) { tiro_make_sync_function(vm, n, s.f, s.argc, nullptr, r, Err()); });
    add("later", [&](H& n, H& r) { tiro_make_async_function(vm, n, g_later<false>, 1, nullptr, r, Err()); });
    add("later_new", [&](H& n, H& r) { tiro_make_async_function(vm, n, g_later<true>, 1, nullptr, r, Err()); });
    add("call", [&](H& n, H& r) {
        H c = make_str(vm, "closure of call");
        tiro_resumable_frame_desc_t d{};
        d.name = n;
        d.arg_count = 2;
        d.local_count = 2;
        d.closure = c;
        d.func = g_call;
        tiro_make_resumable_function(vm, &d, r, Err());
    });
    H mod(vm);
    tiro_make_module(vm, S("g"), members.data(), members.size(), mod, Err());
    tiro_vm_load_module(vm, mod, Err());
}

XVm::~XVm() {
    for (auto& p : pending_) {
        tiro_async_token_free(p.token);
        tiro_global_free(p.value);
    }
    if (kept_)
        tiro_global_free(kept_);
}

ApiError XVm::deliver() {
    Pending p = pending_.front();
    pending_.pop_front();
    tiro_error_t e = nullptr;
    ApiError r;
    if (p.build) {
        H t(*this), s(*this);
        tiro_make_tuple(*this, 2, t, &e);
        r = take_error(e);
        if (r.ok()) {
            tiro_make_string(*this, S("late"), s, &e);
            r = take_error(e);
            tiro_tuple_set(*this, t, 0, p.value, Err());
            tiro_tuple_set(*this, t, 1, s, Err());
            tiro_value_copy(*this, t, p.value, Err());
        }
    }
    if (r.ok()) {
        tiro_async_token_return_value(p.token, p.value, &e);
        r = take_error(e);
    }
    tiro_async_token_free(p.token);
    tiro_global_free(p.value);
    return r;
}

namespace {
struct Completion {
    int done = 0, cleaned = 0;
    bool detached = false;
};
} // namespace

Outcome XVm::run(std::string_view module, std::string_view function, tiro_handle_t args) {
    tiro_vm_t vm = get();
    Outcome out;
    run_error = {};
    H fn(vm), coro(vm);
    tiro_error_t e = nullptr;
    run_error = get_export(module, function, fn);
    if (run_error.ok()) {
        tiro_make_coroutine(vm, fn, args, coro, &e);
        run_error = take_error(e);
    }
    Completion* c = nullptr;
    ScopeGuard release([&] {
        if (c && c->cleaned)
            delete c;
        else if (c)
            c->detached = true;
    });
    if (run_error.ok()) {
        c = new Completion;
        tiro_coroutine_set_callback(
            vm, coro, [](tiro_vm_t, tiro_handle_t, void* p) { static_cast<Completion*>(p)->done += 1; },
            [](void* p) {
                auto* c = static_cast<Completion*>(p);
                c->cleaned += 1;
                if (c->detached)
                    delete c;
            },
            c, &e);
        run_error = take_error(e);
        MC_CHECK(c->cleaned == !run_error.ok(), "cleanup of the callback called {} times", c->cleaned);
    }
    if (run_error.ok()) {
        tiro_coroutine_start(vm, coro, &e);
        run_error = take_error(e);
    }
    while (run_error.ok()) {
        if (tiro_vm_has_ready(vm)) {
            tiro_vm_run_ready(vm, &e);
            run_error = take_error(e);
        } else if (!pending_.empty()) {
            run_error = deliver();
        } else {
            break;
        }
    }
    if (c && run_error.ok())
        MC_CHECK(c->done == c->cleaned && c->done == tiro_coroutine_completed(vm, coro), "callback called {} times, cleanup called {} times", c->done, c->cleaned);
    if (!run_error.ok()) {
        out.value = std::string("API error ") + tiro_errc_name(run_error.code);
        return out;
    }
    if (!tiro_coroutine_completed(vm, coro)) {
        out.value = "not completed";
        return out;
    }
    H res(vm), v(vm);
    tiro_coroutine_result(vm, coro, res, Err());
    if (tiro_result_is_success(vm, res)) {
        out.ok = true;
        tiro_result_value(vm, res, v, Err());
    } else {
        tiro_result_error(vm, res, v, Err());
    }
    out.value = dump(v);
    return out;
}

} // namespace mc
