#include "common/lang.hpp"

#include <algorithm>
#include <cmath>
#include <cstdlib>

#include "common/gc.hpp"

namespace mc {

ApiError take_error(tiro_error_t& err) {
    ApiError r;
    if (err) {
        r.code = tiro_error_errc(err);
        r.message = tiro_error_message(err) ? tiro_error_message(err) : "";
        r.details = tiro_error_details(err) ? tiro_error_details(err) : "";
        tiro_error_free(err);
        err = nullptr;
    }
    return r;
}

Err::~Err() noexcept(false) {
    if (err_) {
        ApiError e = take_error(err_);
        if (!std::uncaught_exceptions())
            fail("unexpected API error {}: {} {}", tiro_errc_name(e.code), e.message, e.details);
    }
}

ApiError Err::get() {
    return take_error(err_);
}

std::string CompileResult::describe() const {
    std::string r = fmt::format("{} {} {}", tiro_errc_name(error.code), error.message, error.details);
    for (auto& m : messages)
        r += fmt::format("\n  {}:{}: {}", m.line, m.column, m.text);
    return r;
}

CompileResult compile(std::string_view source, std::string_view module_name, int attachment) {
    CompileResult r;
    tiro_error_t err = nullptr;
    tiro_compiler_t c = tiro_compiler_new(S(module_name), &err);
    if (err) {
        r.error = take_error(err);
        return r;
    }
    struct Guard {
        tiro_compiler_t c;
        ~Guard() { tiro_compiler_free(c); }
    } guard{c};
    tiro_compiler_set_message_callback(
        c,
        [](const tiro_compiler_message_t* m, void* ud) {
            auto& msgs = static_cast<CompileResult*>(ud)->messages;
            if (msgs.size() < 1000)
                msgs.push_back({m->severity, std::string(V(m->file)), std::string(V(m->text)), m->line, m->column});
            return true;
        },
        &r, Err());
    tiro_compiler_add_file(c, S("test"), S(source), Err());
    if (attachment)
        tiro_compiler_request_attachment(c, tiro_attachment_t(attachment), Err());
    tiro_compiler_run(c, &err);
    r.error = take_error(err);
    if (attachment) {
        char* str = nullptr;
        tiro_compiler_get_attachment(c, tiro_attachment_t(attachment), &str, &err);
        take_error(err);
        if (str) {
            r.attachment = str;
            free(str);
        }
    }
    if (r.error.ok()) {
        tiro_compiler_take_module(c, &r.module, &err);
        r.error = take_error(err);
    }
    return r;
}

static void host_t(tiro_vm_t vm, tiro_sync_frame_t frame) {
    gc::NoFailures guard;
    Vm& self = vm_of(vm);
    H arg(vm);
    tiro_sync_frame_arg(frame, 0, arg, Err());
    std::string d = self.dump(arg);
    if (self.on_log)
        self.on_log(d);
    if (self.log.size() < 100000)
        self.log.push_back(std::move(d));
    tiro_sync_frame_return_value(frame, arg, Err());
}

Vm::Vm(VmOptions opts) {
    tiro_vm_settings_t st;
    tiro_vm_settings_init(&st);
    st.page_size = opts.page_size;
    st.max_heap_size = opts.max_heap;
    st.userdata = this;
    st.enable_panic_stack_trace = opts.stack_trace;
    st.print_stdout = [](tiro_string_t s, void* ud) {
        auto* self = static_cast<Vm*>(ud);
        if (self->out.size() < (1 << 20))
            self->out.append(s.data, s.length);
    };
    vm_ = tiro_vm_new(&st, Err());
    MC_CHECK(vm_, "no vm");
    if (opts.load_std)
        tiro_vm_load_std(vm_, Err());
    if (opts.host_module) {
        H name = make_str(vm_, "t");
        H fn(vm_), mod(vm_);
        tiro_make_sync_function(vm_, name, host_t, 1, nullptr, fn, Err());
        tiro_module_member_t m[1] = {{S("t"), fn}};
        tiro_make_module(vm_, S("h"), m, 1, mod, Err());
        tiro_vm_load_module(vm_, mod, Err());
    }
}

Vm::~Vm() {
    if (vm_)
        tiro_vm_free(vm_);
}

Vm& vm_of(tiro_vm_t vm) {
    return *static_cast<Vm*>(tiro_vm_userdata(vm));
}

ApiError Vm::load(tiro_module_t mod) {
    tiro_error_t err = nullptr;
    tiro_vm_load_bytecode(vm_, mod, &err);
    return take_error(err);
}

void Vm::load_source(std::string_view src, std::string_view name) {
    CompileResult r = compile(src, name);
    MC_CHECK(r.error.ok() && r.module, "program was not accepted: {}\n{}", r.describe(), src);
    ApiError e = load(r.module);
    MC_CHECK(e.ok(), "module did not load: {} {}\n{}", e.message, e.details, src);
}

ApiError Vm::get_export(std::string_view module, std::string_view name, tiro_handle_t result) {
    tiro_error_t err = nullptr;
    tiro_vm_get_export(vm_, S(module), S(name), result, &err);
    return take_error(err);
}

namespace {
struct CallState {
    bool done = false;
    Outcome out;
};
} // namespace

Outcome Vm::call(std::string_view module, std::string_view function, tiro_handle_t args) {
    H fn(vm_), coro(vm_);
    ApiError e = get_export(module, function, fn);
    MC_CHECK(e.ok(), "cannot get {}.{}: {} {}", module, function, e.message, e.details);
    tiro_make_coroutine(vm_, fn, args, coro, Err());
    CallState st;
    tiro_coroutine_set_callback(
        vm_, coro,
        [](tiro_vm_t vm, tiro_handle_t c, void* ud) {
            auto* st = static_cast<CallState*>(ud);
            Vm& self = vm_of(vm);
            H res(vm), v(vm);
            tiro_coroutine_result(vm, c, res, Err());
            if (tiro_result_is_success(vm, res)) {
                tiro_result_value(vm, res, v, Err());
                st->out.ok = true;
            } else {
                tiro_result_error(vm, res, v, Err());
            }
            st->out.value = self.dump(v);
            st->done = true;
        },
        nullptr, &st, Err());
    tiro_coroutine_start(vm_, coro, Err());
    tiro_error_t err = nullptr;
    for (int i = 0; i < 1000 && !st.done && tiro_vm_has_ready(vm_); ++i) {
        tiro_vm_run_ready(vm_, &err);
        ApiError re = take_error(err);
        MC_CHECK(re.ok(), "run_ready failed: {} {} {}", tiro_errc_name(re.code), re.message, re.details);
    }
    if (!st.done) {
        // detach the callback's state before it goes out of scope
        static CallState sink;
        fail("the coroutine did not complete");
    }
    return st.out;
}

std::string fmt_float(double d) {
    if (std::isnan(d))
        return "nan";
    return fmt::format("{:a}", d);
}

std::string Vm::dump(tiro_handle_t h, int depth) {
    if (depth > 6)
        return "...";
    gc::NoFailures guard;
    auto list = [&](size_t n, auto&& get) {
        std::string r;
        for (size_t i = 0; i < n; ++i) {
            H e(vm_);
            get(i, e);
            if (i)
                r += ",";
            r += dump(e, depth + 1);
        }
        return r;
    };
    switch (tiro_value_kind(vm_, h)) {
    case TIRO_KIND_NULL:
        return "null";
    case TIRO_KIND_BOOLEAN:
        return tiro_boolean_value(vm_, h) ? "true" : "false";
    case TIRO_KIND_INTEGER:
        return std::to_string(tiro_integer_value(vm_, h));
    case TIRO_KIND_FLOAT:
        return "f" + fmt_float(tiro_float_value(vm_, h));
    case TIRO_KIND_STRING: {
        tiro_string_t s;
        tiro_string_value(vm_, h, &s, Err());
        return quote(V(s));
    }
    case TIRO_KIND_BUFFER:
        return "buffer(" + quote(std::string_view((const char*) tiro_buffer_data(vm_, h), tiro_buffer_size(vm_, h)))
               + ")";
    case TIRO_KIND_FUNCTION:
        return "<function>";
    case TIRO_KIND_TUPLE:
        return "("
               + list(tiro_tuple_size(vm_, h), [&](size_t i, H& e) { tiro_tuple_get(vm_, h, i, e, Err()); }) + ")";
    case TIRO_KIND_RECORD: {
        H keys(vm_);
        tiro_record_keys(vm_, h, keys, Err());
        size_t n = tiro_array_size(vm_, keys);
        std::vector<std::string> fields; // the order of keys is not specified
        for (size_t i = 0; i < n; ++i) {
            H k(vm_), v(vm_);
            tiro_array_get(vm_, keys, i, k, Err());
            tiro_record_get(vm_, h, k, v, Err());
            fields.push_back(dump(k, depth + 1) + "=" + dump(v, depth + 1));
        }
        std::sort(fields.begin(), fields.end());
        std::string r = "(:";
        for (size_t i = 0; i < n; ++i)
            r += (i ? "," : "") + fields[i];
        return r + ")";
    }
    case TIRO_KIND_RECORD_SCHEMA:
        return "<schema>";
    case TIRO_KIND_ARRAY:
        return "["
               + list(tiro_array_size(vm_, h), [&](size_t i, H& e) { tiro_array_get(vm_, h, i, e, Err()); }) + "]";
    case TIRO_KIND_RESULT: {
        H v(vm_);
        if (tiro_result_is_success(vm_, h)) {
            tiro_result_value(vm_, h, v, Err());
            return "success(" + dump(v, depth + 1) + ")";
        }
        tiro_result_error(vm_, h, v, Err());
        return "error(" + dump(v, depth + 1) + ")";
    }
    case TIRO_KIND_EXCEPTION: {
        H m(vm_);
        tiro_exception_message(vm_, h, m, Err());
        return "exception(" + dump(m, depth + 1) + ")";
    }
    case TIRO_KIND_COROUTINE:
        return "<coroutine>";
    case TIRO_KIND_MODULE:
        return "<module>";
    case TIRO_KIND_TYPE: {
        H n(vm_);
        tiro_type_name(vm_, h, n, Err());
        return "type(" + dump(n, depth + 1) + ")";
    }
    case TIRO_KIND_NATIVE:
        return "<native>";
    case TIRO_KIND_INTERNAL: {
        H s(vm_);
        tiro_value_to_string(vm_, h, s, Err());
        tiro_string_t str;
        tiro_string_value(vm_, s, &str, Err());
        return "<" + std::string(V(str)) + ">";
    }
    case TIRO_KIND_INVALID:
        break;
    }
    return "<invalid>";
}

std::string Vm::take_log() {
    std::string r;
    for (auto& s : log) {
        if (!r.empty())
            r += " ";
        r += s;
    }
    log.clear();
    return r;
}

H::H(tiro_vm_t vm) {
    tiro_error_t err = nullptr;
    h_ = tiro_global_new(vm, &err);
    if (err)
        tiro_error_free(err);
    MC_CHECK(h_, "tiro_global_new failed");
}
H::~H() {
    if (h_)
        tiro_global_free(h_);
}

H make_int(tiro_vm_t vm, int64_t v) {
    H h(vm);
    tiro_make_integer(vm, v, h, Err());
    return h;
}
H make_float(tiro_vm_t vm, double v) {
    H h(vm);
    tiro_make_float(vm, v, h, Err());
    return h;
}
H make_str(tiro_vm_t vm, std::string_view v) {
    H h(vm);
    tiro_make_string(vm, S(v), h, Err());
    return h;
}
H make_bool(tiro_vm_t vm, bool v) {
    H h(vm);
    tiro_make_boolean(vm, v, h, Err());
    return h;
}

} // namespace mc
