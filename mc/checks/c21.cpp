// C21: every function of the C API with every kind of handle (null, equal, aliased with the result) and boundary numbers.
#include <algorithm>
#include <climits>
#include <cmath>
#include <cstring>
#include <memory>
#include <optional>

#include "common/gc.hpp"
#include "common/host.hpp"

using namespace mc;

const char* const mc::check_id = "C21";

namespace {

constexpr int any_error = -1, any_result = -2;

const char* const program = R"(
import std; import g; import h;
func closure() { var n = 0; return func(a, b) { n += 1; return (a, b, n); }; }
func builder() { const b = std.new_string_builder(); b.append("ab"); return b; }
export func internals() = [
    #sym, map{1: 2}, set{3}, "xaby".slice(1, 2), map{1: 2}.keys(), builder(), std.coroutine_token()
];
export func functions() = [func(a) = a, closure(), [1].append, std.catch_panic, std.Tuple.size, std.sqrt, g.mkfn(5)];
export func types() = [std.Array, std.Null];
export func failing() { std.panic("message"); }
export func fine() = 17;
export func waiting() { std.coroutine_token(); std.yield_coroutine(); }
export func health() { const r = []; for i in [1, 2, 3] { r.append((i, "$i", map{i: [i]}[i])); } return r; }
)";

// ---- Values ----

struct Item {
    std::string name;
    tiro_handle_t h = nullptr;
    tiro_kind_t kind = TIRO_KIND_INVALID;
    bool truthy = true;
    std::vector<tiro_handle_t> elems;                            // tuples and arrays
    std::vector<std::pair<std::string, tiro_handle_t>> fields;   // records
    bool success = false;                                        // results
    tiro_handle_t payload = nullptr;                             // results, exceptions
    tiro_handle_t trace = nullptr;
    int64_t i = 0;
    double f = 0;
    bool number_known = true; // conversion is specified
    std::string text;
    size_t size = 0;
    bool started = false, completed = false;
    bool keys_ok = false, keys_unspecified = false; // usable as keys of a schema
    std::vector<std::string> schema;
    const tiro_native_type_t* descriptor = nullptr;
    std::vector<std::pair<std::string, tiro_handle_t>> exports;
    std::string type_name;
};

tiro_native_type_t native_type{S("pooled"), 8, nullptr};

class Pool {
public:
    XVm& vm;
    std::vector<std::unique_ptr<H>> owned;
    std::vector<std::unique_ptr<Item>> items;
    std::string snapshot;

    explicit Pool(XVm& vm_)
        : vm(vm_) {}

    tiro_handle_t fresh() {
        owned.push_back(std::make_unique<H>(vm));
        return *owned.back();
    }
    tiro_handle_t str(std::string_view s) {
        auto h = fresh();
        tiro_make_string(vm, S(s), h, Err());
        return h;
    }
    tiro_handle_t num(int64_t n) {
        auto h = fresh();
        tiro_make_integer(vm, n, h, Err());
        return h;
    }
    Item& add(std::string name, tiro_kind_t kind, std::string type_name, tiro_handle_t h = nullptr) {
        items.push_back(std::make_unique<Item>());
        Item& it = *items.back();
        it.name = std::move(name);
        it.kind = kind;
        it.type_name = std::move(type_name);
        it.h = h ? h : fresh();
        return it;
    }
    Item& find(std::string_view name) {
        for (auto& i : items)
            if (i->name == name)
                return *i;
        fail("no such value {}", name);
    }
    void arr(std::string name, std::vector<tiro_handle_t> elems) {
        Item& it = add(std::move(name), TIRO_KIND_ARRAY, "Array");
        tiro_make_array(vm, elems.size(), it.h, Err());
        it.keys_ok = true;
        for (auto e : elems) {
            tiro_array_push(vm, it.h, e, Err());
            it.elems.push_back(e);
            if (tiro_value_kind(vm, e) != TIRO_KIND_STRING)
                it.keys_ok = false;
            else {
                tiro_string_t s;
                tiro_string_value(vm, e, &s, Err());
                for (auto& k : it.schema)
                    if (k == V(s))
                        it.keys_unspecified = true;
                it.schema.push_back(std::string(V(s)));
            }
        }
        it.size = elems.size();
    }
    void tup(std::string name, std::vector<tiro_handle_t> elems) {
        Item& it = add(std::move(name), TIRO_KIND_TUPLE, "Tuple");
        tiro_make_tuple(vm, elems.size(), it.h, Err());
        for (size_t i = 0; i < elems.size(); ++i)
            tiro_tuple_set(vm, it.h, i, elems[i], Err());
        it.elems = elems;
        it.size = elems.size();
    }
    void from_array(tiro_handle_t array, std::vector<std::string> names, tiro_kind_t kind, const std::vector<std::string>& types) {
        MC_CHECK(tiro_array_size(vm, array) == names.size(), "harness: wrong number of values");
        for (size_t i = 0; i < names.size(); ++i) {
            Item& it = add(names[i], kind, types[types.size() == 1 ? 0 : i]);
            tiro_array_get(vm, array, i, it.h, Err());
        }
    }
    tiro_handle_t call(const char* name) {
        H f(vm), c(vm);
        tiro_vm_get_export(vm, S("p"), S(name), f, Err());
        tiro_make_coroutine(vm, f, nullptr, c, Err());
        tiro_coroutine_start(vm, c, Err());
        tiro_vm_run_ready(vm, Err());
        auto r = fresh();
        if (!tiro_coroutine_completed(vm, c)) {
            tiro_value_copy(vm, c, r, Err());
            return r;
        }
        H res(vm);
        tiro_coroutine_result(vm, c, res, Err());
        if (tiro_result_is_success(vm, res))
            tiro_result_value(vm, res, r, Err());
        else
            tiro_value_copy(vm, c, r, Err());
        return r;
    }

    void build() {
        owned.clear();
        items.clear();
        add("null", TIRO_KIND_NULL, "Null").truthy = false;
        for (bool b : {false, true}) {
            Item& it = add(b ? "true" : "false", TIRO_KIND_BOOLEAN, "Boolean");
            tiro_make_boolean(vm, b, it.h, Err());
            it.truthy = b;
        }
        for (int64_t n : {int64_t(0), int64_t(1), int64_t(-7), INT64_MAX, INT64_MIN}) {
            Item& it = add("int" + std::to_string(n), TIRO_KIND_INTEGER, "Integer");
            tiro_make_integer(vm, n, it.h, Err());
            it.i = n;
            it.f = double(n);
        }
        for (double d : {0.0, -1.75, 1e300, double(NAN)}) {
            Item& it = add("float" + fmt_float(d), TIRO_KIND_FLOAT, "Float");
            tiro_make_float(vm, d, it.h, Err());
            it.f = d;
            it.number_known = std::fabs(d) < 1e18;
            it.i = it.number_known ? int64_t(d) : 0;
        }
        for (const char* s : {"", "a", "text with \xc3\xa9"}) {
            Item& it = add(std::string("string ") + s, TIRO_KIND_STRING, "String");
            tiro_make_string(vm, S(s), it.h, Err());
            it.text = s;
        }
        for (size_t n : {0, 3}) {
            Item& it = add(n ? "buffer" : "empty buffer", TIRO_KIND_BUFFER, "Buffer");
            tiro_make_buffer(vm, n, it.h, Err());
            it.size = n;
        }
        auto one = num(1001), two = num(1002), a = str("a"), b = str("b"), nothing = fresh();
        tup("empty tuple", {});
        tup("tuple", {one, a, nothing});
        arr("empty array", {});
        arr("array", {one, two});
        arr("keys", {a, b});
        arr("equal keys", {a, b, str("a")});
        arr("mixed keys", {a, one});
        {
            Item& it = add("schema", TIRO_KIND_RECORD_SCHEMA, "RecordSchema");
            tiro_make_record_schema(vm, find("keys").h, it.h, Err());
            it.schema = {"a", "b"};
            Item& e = add("empty schema", TIRO_KIND_RECORD_SCHEMA, "RecordSchema");
            tiro_make_record_schema(vm, find("empty array").h, e.h, Err());
        }
        {
            Item& it = add("record", TIRO_KIND_RECORD, "Record");
            tiro_make_record(vm, find("schema").h, it.h, Err());
            tiro_record_set(vm, it.h, a, one, Err());
            it.fields = {{"a", one}, {"b", nothing}};
            Item& e = add("empty record", TIRO_KIND_RECORD, "Record");
            tiro_make_record(vm, find("empty schema").h, e.h, Err());
        }
        {
            Item& it = add("success", TIRO_KIND_RESULT, "Result");
            tiro_make_success(vm, one, it.h, Err());
            it.success = true;
            it.payload = one;
            Item& e = add("error", TIRO_KIND_RESULT, "Result");
            tiro_make_error(vm, two, e.h, Err());
            e.payload = two;
        }
        {
            Item& failed = add("failed coroutine", TIRO_KIND_COROUTINE, "Coroutine", call("failing"));
            failed.started = failed.completed = true;
            failed.payload = fresh();
            tiro_coroutine_result(vm, failed.h, failed.payload, Err());
            Item& e = add("exception", TIRO_KIND_EXCEPTION, "Exception");
            tiro_result_error(vm, failed.payload, e.h, Err());
            e.payload = str("message");
            Item& waiting = add("waiting coroutine", TIRO_KIND_COROUTINE, "Coroutine", call("waiting"));
            waiting.started = true;
            Item& fresh_coro = add("new coroutine", TIRO_KIND_COROUTINE, "Coroutine");
            H f(vm);
            tiro_vm_get_export(vm, S("p"), S("fine"), f, Err());
            tiro_make_coroutine(vm, f, nullptr, fresh_coro.h, Err());
            Item& done = add("done coroutine", TIRO_KIND_COROUTINE, "Coroutine");
            tiro_make_coroutine(vm, f, nullptr, done.h, Err());
            tiro_coroutine_start(vm, done.h, Err());
            tiro_vm_run_ready(vm, Err());
            done.started = done.completed = true;
            done.payload = fresh();
            tiro_coroutine_result(vm, done.h, done.payload, Err());
        }
        {
            Item& m = add("module", TIRO_KIND_MODULE, "Module");
            tiro_module_member_t members[2] = {{S("a"), one}, {S("b"), two}};
            tiro_make_module(vm, S("pooled"), members, 2, m.h, Err());
            m.exports = {{"a", one}, {"b", two}};
            Item& e = add("empty module", TIRO_KIND_MODULE, "Module");
            tiro_make_module(vm, S("pooled.empty"), nullptr, 0, e.h, Err());
        }
        {
            Item& n = add("native", TIRO_KIND_NATIVE, "NativeObject");
            tiro_make_native(vm, &native_type, 24, n.h, Err());
            n.size = 24;
            n.descriptor = &native_type;
            memset(tiro_native_data(vm, n.h), 0x5a, 24);
        }
        from_array(call("types"), {"type Array", "type Null"}, TIRO_KIND_TYPE, {"Type"});
        find("type Array").text = "Array";
        find("type Null").text = "Null";
        from_array(call("functions"), {"function", "closure function", "bound method", "catch_panic", "unbound method", "builtin function", "native function"},
            TIRO_KIND_FUNCTION, {"Function"});
        from_array(call("internals"), {"symbol", "map", "set", "slice", "view", "builder", "token"}, TIRO_KIND_INTERNAL,
            {"Symbol", "Map", "Set", "StringSlice", "MapKeyView", "StringBuilder", "CoroutineToken"});
        snapshot = snap();
    }

    std::string snap() {
        std::string r;
        for (auto& i : items) {
            if (i->kind == TIRO_KIND_INTERNAL || i->kind == TIRO_KIND_FUNCTION || i->kind == TIRO_KIND_TYPE)
                continue; // cannot be modified through the API
            r += vm.dump(i->h);
            if (i->kind == TIRO_KIND_COROUTINE)
                r += std::string(tiro_coroutine_started(vm, i->h) ? "s" : "") + (tiro_coroutine_completed(vm, i->h) ? "c" : "");
            if (i->kind == TIRO_KIND_NATIVE)
                r += std::string((const char*) tiro_native_data(vm, i->h), tiro_native_size(vm, i->h));
            r += "\n";
        }
        return r;
    }
};

// ---- Cases ----

struct Args {
    tiro_vm_t vm = nullptr;
    Item* in[3] = {};          // null: null handle
    tiro_handle_t h[3] = {};
    tiro_handle_t out = nullptr;
    size_t n = 0;
    std::optional<std::string> s[2]; // nullopt: invalid string
    tiro_string_t str[2] = {};
    int variant = 0;
    // filled by the call
    std::string ret;
};

struct Expect {
    int code = TIRO_OK;
    std::string ret;                                 // of functions without errors
    std::function<std::string(tiro_handle_t)> out = nullptr;   // checks the result, returns a problem
};

struct Fn {
    std::string name;
    std::vector<std::vector<std::string>> ins; // names of the values; empty: all
    bool out = false, err = true;
    std::vector<size_t> sizes = {0};
    std::vector<std::vector<std::optional<std::string>>> strings = {};
    int variants = 1;
    bool optional_last = false; // the last handle may be null
    bool mutates = false;
    std::function<void(Args&, tiro_error_t*)> call;
    std::function<Expect(const Args&)> expect;
};

struct World {
    XVm vm;
    Pool pool{vm};
    H t0{vm}, t1{vm}, t2{vm}, out{vm}, sentinel{vm}, foreign_null{vm};
    tiro_handle_t temp[3];
    World() {
        vm.load_source(program, "p");
        temp[0] = t0;
        temp[1] = t1;
        temp[2] = t2;
        tiro_make_string(vm, S("sentinel"), sentinel, Err());
        pool.build();
    }
    // Handles first
    ~World() { pool.owned.clear(); }
};
World* W = nullptr;

std::string same(tiro_handle_t out, tiro_handle_t expected) {
    if (tiro_value_same(W->vm, out, expected))
        return "";
    return "the result is " + W->vm.dump(out) + " instead of " + W->vm.dump(expected);
}
std::string is_dump(tiro_handle_t out, const std::string& expected) {
    std::string d = W->vm.dump(out);
    return d == expected ? "" : "the result is " + d + " instead of " + expected;
}
std::string is_kind(tiro_handle_t out, tiro_kind_t kind) {
    auto k = tiro_value_kind(W->vm, out);
    return k == kind ? "" : std::string("the result is of kind ") + tiro_kind_str(k);
}

Expect code(int c) { return {c, "", nullptr}; }
Expect ret(std::string s) { return {TIRO_OK, std::move(s), nullptr}; }
Expect gives(std::function<std::string(tiro_handle_t)> f) { return {TIRO_OK, "", std::move(f)}; }

const std::vector<std::string> few = {"null", "int1", "string a", "array", "record", "map"};
const std::vector<size_t> indices = {0, 1, 2, 3, size_t(1) << 31, size_t(1) << 32, (size_t(1) << 32) + 1, (size_t(1) << 63), SIZE_MAX};
const std::vector<size_t> sizes = {0, 1, 2, 1000, size_t(1) << 16, size_t(1) << 27, (size_t(1) << 31) - 1, size_t(1) << 31, size_t(1) << 32, (size_t(1) << 32) + 1, size_t(1) << 40,
    (size_t(1) << 59), size_t(1) << 60, (size_t(1) << 60) + 1, size_t(1) << 61, size_t(1) << 62, size_t(1) << 63, SIZE_MAX - 64, SIZE_MAX - 16, SIZE_MAX - 8, SIZE_MAX - 1, SIZE_MAX};

// Sizes of allocations: 64 MiB heap
int size_code(size_t n, size_t unit) {
    if (n <= (size_t(1) << 22) / unit)
        return TIRO_OK;
    if (n >= (size_t(1) << 27) / unit)
        return TIRO_ERROR_ALLOC;
    return any_result;
}

using Str = std::optional<std::string>;
const std::vector<Str> strings = {std::nullopt, "", "a", "b", "pooled", "none", std::string("a\0b", 3)};

std::vector<Fn> make_functions() {
    std::vector<Fn> v;
    auto add = [&](Fn f) { v.push_back(std::move(f)); };
    const std::vector<std::string> all;

    // -- Values without errors
    auto getter = [&](std::string name, std::function<std::string(Args&)> call, std::function<std::string(const Args&)> expect) {
        Fn f;
        f.name = std::move(name);
        f.ins = {all};
        f.err = false;
        f.call = [call](Args& a, tiro_error_t*) { a.ret = call(a); };
        f.expect = [expect](const Args& a) { return ret(expect(a)); };
        add(std::move(f));
    };
    getter("tiro_value_kind", [](Args& a) { return std::to_string(tiro_value_kind(a.vm, a.h[0])); },
        [](const Args& a) { return std::to_string(a.vm && a.in[0] ? a.in[0]->kind : TIRO_KIND_INVALID); });
    getter("tiro_boolean_value", [](Args& a) { return std::to_string(tiro_boolean_value(a.vm, a.h[0])); },
        [](const Args& a) { return std::to_string(a.vm && a.in[0] ? a.in[0]->truthy : false); });
    getter("tiro_integer_value", [](Args& a) {
            auto n = tiro_integer_value(a.vm, a.h[0]);
            return a.in[0] && !a.in[0]->number_known ? std::string("unspecified") : std::to_string(n); },
        [](const Args& a) { return a.in[0] && !a.in[0]->number_known ? std::string("unspecified") : std::to_string(a.vm && a.in[0] ? a.in[0]->i : 0); });
    getter("tiro_float_value", [](Args& a) { return fmt_float(tiro_float_value(a.vm, a.h[0])); },
        [](const Args& a) { return fmt_float(a.vm && a.in[0] ? a.in[0]->f : 0); });
    getter("tiro_buffer_is_pinned", [](Args& a) { return std::to_string(tiro_buffer_is_pinned(a.vm, a.h[0])); },
        [](const Args& a) { return std::to_string(a.vm && a.in[0] && a.in[0]->kind == TIRO_KIND_BUFFER); });
    auto size_of = [&](const char* name, size_t (*fn)(tiro_vm_t, tiro_handle_t), tiro_kind_t kind) {
        getter(name, [fn](Args& a) { return std::to_string(fn(a.vm, a.h[0])); },
            [kind](const Args& a) { return std::to_string(a.vm && a.in[0] && a.in[0]->kind == kind ? a.in[0]->size : 0); });
    };
    size_of("tiro_buffer_size", tiro_buffer_size, TIRO_KIND_BUFFER);
    size_of("tiro_tuple_size", tiro_tuple_size, TIRO_KIND_TUPLE);
    size_of("tiro_array_size", tiro_array_size, TIRO_KIND_ARRAY);
    size_of("tiro_native_size", tiro_native_size, TIRO_KIND_NATIVE);
    getter("tiro_buffer_data", [](Args& a) { return std::to_string(tiro_buffer_data(a.vm, a.h[0]) != nullptr); },
        [](const Args& a) { return std::to_string(a.vm && a.in[0] && a.in[0]->kind == TIRO_KIND_BUFFER); });
    getter("tiro_native_data", [](Args& a) { return std::to_string(tiro_native_data(a.vm, a.h[0]) != nullptr); },
        [](const Args& a) { return std::to_string(a.vm && a.in[0] && a.in[0]->kind == TIRO_KIND_NATIVE); });
    getter("tiro_native_type_descriptor", [](Args& a) { return std::to_string(tiro_native_type_descriptor(a.vm, a.h[0]) == &native_type) + std::to_string(tiro_native_type_descriptor(a.vm, a.h[0]) == nullptr); },
        [](const Args& a) { return a.vm && a.in[0] && a.in[0]->kind == TIRO_KIND_NATIVE ? "10" : "01"; });
    getter("tiro_result_is_success", [](Args& a) { return std::to_string(tiro_result_is_success(a.vm, a.h[0])); },
        [](const Args& a) { return std::to_string(a.vm && a.in[0] && a.in[0]->kind == TIRO_KIND_RESULT && a.in[0]->success); });
    getter("tiro_result_is_error", [](Args& a) { return std::to_string(tiro_result_is_error(a.vm, a.h[0])); },
        [](const Args& a) { return std::to_string(a.vm && a.in[0] && a.in[0]->kind == TIRO_KIND_RESULT && !a.in[0]->success); });
    getter("tiro_coroutine_started", [](Args& a) { return std::to_string(tiro_coroutine_started(a.vm, a.h[0])); },
        [](const Args& a) { return std::to_string(a.vm && a.in[0] && a.in[0]->started); });
    getter("tiro_coroutine_completed", [](Args& a) { return std::to_string(tiro_coroutine_completed(a.vm, a.h[0])); },
        [](const Args& a) { return std::to_string(a.vm && a.in[0] && a.in[0]->completed); });
    {
        Fn f;
        f.name = "tiro_value_same";
        f.ins = {all, all};
        f.err = false;
        f.call = [](Args& a, tiro_error_t*) { a.ret = std::to_string(tiro_value_same(a.vm, a.h[0], a.h[1])); };
        f.expect = [](const Args& a) {
            // Numbers and other values without identity are the same value if they are equal
            return ret(std::to_string(a.in[0] == a.in[1]));
        };
        add(f);
    }

    // -- Functions of a value with a result
    auto unary = [&](std::string name, void (*fn)(tiro_vm_t, tiro_handle_t, tiro_handle_t, tiro_error_t*), std::function<Expect(const Args&)> expect) {
        Fn f;
        f.name = std::move(name);
        f.ins = {all};
        f.out = true;
        f.call = [fn](Args& a, tiro_error_t* e) { fn(a.vm, a.h[0], a.out, e); };
        f.expect = [expect](const Args& a) { return !a.vm || !a.in[0] || !a.out ? code(TIRO_ERROR_BAD_ARG) : expect(a); };
        add(std::move(f));
    };
    unary("tiro_value_to_string", tiro_value_to_string, [](const Args& a) {
        Item* it = a.in[0];
        return gives([it](tiro_handle_t out) -> std::string {
            switch (it->kind) {
            case TIRO_KIND_NULL: return is_dump(out, "\"null\"");
            case TIRO_KIND_BOOLEAN: return is_dump(out, it->truthy ? "\"true\"" : "\"false\"");
            case TIRO_KIND_INTEGER: return is_dump(out, quote(std::to_string(it->i)));
            case TIRO_KIND_STRING: return is_dump(out, quote(it->text));
            default: return is_kind(out, TIRO_KIND_STRING);
            }
        });
    });
    unary("tiro_value_copy", tiro_value_copy, [](const Args& a) { Item* it = a.in[0]; return gives([it](tiro_handle_t out) { return same(out, it->h); }); });
    unary("tiro_value_type", tiro_value_type, [](const Args& a) {
        Item* it = a.in[0];
        return gives([it](tiro_handle_t out) { return is_dump(out, "type(\"" + it->type_name + "\")"); });
    });
    unary("tiro_make_record_schema", tiro_make_record_schema, [](const Args& a) {
        Item* it = a.in[0];
        if (it->kind != TIRO_KIND_ARRAY || !it->keys_ok)
            return code(TIRO_ERROR_BAD_TYPE);
        if (it->keys_unspecified)
            return code(any_error);
        return gives([it](tiro_handle_t out) -> std::string {
            if (auto p = is_kind(out, TIRO_KIND_RECORD_SCHEMA); !p.empty())
                return p;
            H rec(W->vm);
            tiro_make_record(W->vm, out, rec, Err());
            std::string e = "(:";
            for (auto& k : it->schema)
                e += (e.size() > 2 ? "," : "") + quote(k) + "=null";
            return is_dump(rec, e + ")");
        });
    });
    unary("tiro_make_record", tiro_make_record, [](const Args& a) {
        Item* it = a.in[0];
        if (it->kind != TIRO_KIND_RECORD_SCHEMA)
            return code(TIRO_ERROR_BAD_TYPE);
        std::string e = "(:";
        for (auto& k : it->schema)
            e += (e.size() > 2 ? "," : "") + quote(k) + "=null";
        return gives([e](tiro_handle_t out) { return is_dump(out, e + ")"); });
    });
    unary("tiro_record_keys", tiro_record_keys, [](const Args& a) {
        Item* it = a.in[0];
        if (it->kind != TIRO_KIND_RECORD)
            return code(TIRO_ERROR_BAD_TYPE);
        return gives([it](tiro_handle_t out) -> std::string {
            std::string d = W->vm.dump(out);
            if (it->fields.empty())
                return d == "[]" ? "" : "the result is " + d;
            return d == "[\"a\",\"b\"]" || d == "[\"b\",\"a\"]" ? "" : "the result is " + d;
        });
    });
    for (bool success : {true, false})
        unary(success ? "tiro_make_success" : "tiro_make_error", success ? tiro_make_success : tiro_make_error, [success](const Args& a) {
            Item* it = a.in[0];
            return gives([it, success](tiro_handle_t out) -> std::string {
                if (tiro_result_is_success(W->vm, out) != success || tiro_result_is_error(W->vm, out) == success)
                    return "the result is " + W->vm.dump(out);
                H p(W->vm);
                (success ? tiro_result_value : tiro_result_error)(W->vm, out, p, Err());
                return same(p, it->h);
            });
        });
    for (bool success : {true, false})
        unary(success ? "tiro_result_value" : "tiro_result_error", success ? tiro_result_value : tiro_result_error, [success](const Args& a) {
            Item* it = a.in[0];
            if (it->kind != TIRO_KIND_RESULT)
                return code(TIRO_ERROR_BAD_TYPE);
            if (it->success != success)
                return code(TIRO_ERROR_BAD_STATE);
            return gives([it](tiro_handle_t out) { return same(out, it->payload); });
        });
    unary("tiro_exception_message", tiro_exception_message, [](const Args& a) {
        if (a.in[0]->kind != TIRO_KIND_EXCEPTION)
            return code(TIRO_ERROR_BAD_TYPE);
        return gives([](tiro_handle_t out) { return is_dump(out, "\"message\""); });
    });
    unary("tiro_exception_trace", tiro_exception_trace, [](const Args& a) {
        if (a.in[0]->kind != TIRO_KIND_EXCEPTION)
            return code(TIRO_ERROR_BAD_TYPE);
        return gives([](tiro_handle_t out) { return is_dump(out, "null"); });
    });
    unary("tiro_coroutine_result", tiro_coroutine_result, [](const Args& a) {
        Item* it = a.in[0];
        if (it->kind != TIRO_KIND_COROUTINE)
            return code(TIRO_ERROR_BAD_TYPE);
        if (!it->completed)
            return code(TIRO_ERROR_BAD_STATE);
        return gives([it](tiro_handle_t out) -> std::string {
            if (auto p = same(out, it->payload); !p.empty())
                return p;
            return is_dump(out, it->name == "done coroutine" ? "success(17)" : "error(exception(\"message\"))");
        });
    });
    unary("tiro_type_name", tiro_type_name, [](const Args& a) {
        Item* it = a.in[0];
        if (it->kind != TIRO_KIND_TYPE)
            return code(TIRO_ERROR_BAD_TYPE);
        return gives([it](tiro_handle_t out) { return is_dump(out, quote(it->text)); });
    });

    // -- Strings
    for (bool cstr : {false, true}) {
        Fn f;
        f.name = cstr ? "tiro_string_cstr" : "tiro_string_value";
        f.ins = {all};
        f.variants = 2;
        f.call = [cstr](Args& a, tiro_error_t* e) {
            if (cstr) {
                char* p = reinterpret_cast<char*>(&a);
                tiro_string_cstr(a.vm, a.h[0], a.variant ? nullptr : &p, e);
                if (p == reinterpret_cast<char*>(&a))
                    a.ret = "unchanged";
                else {
                    a.ret = p ? p : "null";
                    free(p);
                }
            } else {
                tiro_string_t s{reinterpret_cast<char*>(&a), 77};
                tiro_string_value(a.vm, a.h[0], a.variant ? nullptr : &s, e);
                a.ret = s.data == reinterpret_cast<char*>(&a) && s.length == 77 ? "unchanged" : std::string(V(s));
            }
        };
        f.expect = [](const Args& a) -> Expect {
            if (!a.vm || !a.in[0] || a.variant)
                return {TIRO_ERROR_BAD_ARG, "unchanged", nullptr};
            if (a.in[0]->kind != TIRO_KIND_STRING)
                return {TIRO_ERROR_BAD_TYPE, "unchanged", nullptr};
            return {TIRO_OK, a.in[0]->text, nullptr};
        };
        add(f);
    }

    // -- Constructors
    auto make = [&](std::string name, std::vector<size_t> ns, std::function<void(Args&, tiro_error_t*)> call, std::function<Expect(const Args&)> expect) {
        Fn f;
        f.name = std::move(name);
        f.out = true;
        f.sizes = std::move(ns);
        f.call = std::move(call);
        f.expect = [expect](const Args& a) { return !a.vm || !a.out ? code(TIRO_ERROR_BAD_ARG) : expect(a); };
        add(std::move(f));
    };
    {
        Fn f;
        f.name = "tiro_make_null";
        f.out = true;
        f.err = false;
        f.call = [](Args& a, tiro_error_t*) { tiro_make_null(a.vm, a.out); };
        f.expect = [](const Args& a) { return a.vm && a.out ? gives([](tiro_handle_t o) { return is_dump(o, "null"); }) : code(TIRO_ERROR_BAD_ARG); };
        add(f);
    }
    make("tiro_make_boolean", {0, 1}, [](Args& a, tiro_error_t* e) { tiro_make_boolean(a.vm, a.n != 0, a.out, e); },
        [](const Args& a) { bool b = a.n; return gives([b](tiro_handle_t o) { return is_dump(o, b ? "true" : "false"); }); });
    make("tiro_make_integer", {0, 1, size_t(-1), size_t(INT64_MAX), size_t(INT64_MIN), size_t(1) << 61, size_t(1) << 62}, [](Args& a, tiro_error_t* e) { tiro_make_integer(a.vm, int64_t(a.n), a.out, e); },
        [](const Args& a) { auto n = int64_t(a.n); return gives([n](tiro_handle_t o) { return is_dump(o, std::to_string(n)); }); });
    make("tiro_make_float", {0, 1, 2, 3, 4}, [](Args& a, tiro_error_t* e) { const double d[] = {0.0, -0.0, 1.5, double(INFINITY), double(NAN)}; tiro_make_float(a.vm, d[a.n], a.out, e); },
        [](const Args& a) { const double d[] = {0.0, -0.0, 1.5, double(INFINITY), double(NAN)}; auto x = d[a.n]; return gives([x](tiro_handle_t o) { return is_dump(o, "f" + fmt_float(x)); }); });
    make("tiro_make_buffer", sizes, [](Args& a, tiro_error_t* e) { tiro_make_buffer(a.vm, a.n, a.out, e); }, [](const Args& a) {
        size_t n = a.n;
        int c = size_code(n, 1);
        if (c != TIRO_OK)
            return code(c);
        return gives([n](tiro_handle_t o) -> std::string {
            if (auto p = is_kind(o, TIRO_KIND_BUFFER); !p.empty())
                return p;
            if (tiro_buffer_size(W->vm, o) != n)
                return "the buffer has the wrong size";
            for (size_t i = 0; i < n; ++i)
                if (tiro_buffer_data(W->vm, o)[i])
                    return "the buffer is not initialized";
            if (n)
                tiro_buffer_data(W->vm, o)[n - 1] = 1;
            return "";
        });
    });
    make("tiro_make_tuple", sizes, [](Args& a, tiro_error_t* e) { tiro_make_tuple(a.vm, a.n, a.out, e); }, [](const Args& a) {
        size_t n = a.n;
        int c = size_code(n, 8);
        if (c != TIRO_OK)
            return code(c);
        return gives([n](tiro_handle_t o) -> std::string {
            if (auto p = is_kind(o, TIRO_KIND_TUPLE); !p.empty())
                return p;
            if (tiro_tuple_size(W->vm, o) != n)
                return "the tuple has the wrong size";
            H e(W->vm);
            for (size_t i = 0; i < n; ++i) {
                tiro_tuple_get(W->vm, o, i, e, Err());
                if (tiro_value_kind(W->vm, e) != TIRO_KIND_NULL)
                    return "the tuple is not initialized";
            }
            return "";
        });
    });
    make("tiro_make_array", sizes, [](Args& a, tiro_error_t* e) { tiro_make_array(a.vm, a.n, a.out, e); }, [](const Args& a) {
        int c = size_code(a.n, 8);
        if (c != TIRO_OK)
            return code(c);
        return gives([](tiro_handle_t o) -> std::string {
            tiro_array_push(W->vm, o, W->sentinel, Err());
            return is_dump(o, "[\"sentinel\"]");
        });
    });
    static const std::vector<size_t> kinds = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 999, 1000, 1001, 1002, size_t(unsigned(-1)), INT_MAX};
    make("tiro_kind_type", kinds, [](Args& a, tiro_error_t* e) { tiro_kind_type(a.vm, tiro_kind_t(unsigned(a.n)), a.out, e); }, [](const Args& a) {
        if (a.n > TIRO_KIND_NATIVE)
            return code(TIRO_ERROR_BAD_ARG);
        std::string name;
        for (auto& i : W->pool.items)
            if (i->kind == tiro_kind_t(a.n))
                name = i->type_name;
        MC_CHECK(!name.empty(), "harness: no value of kind {}", a.n);
        return gives([name](tiro_handle_t o) { return is_dump(o, "type(\"" + name + "\")"); });
    });
    {
        Fn f;
        f.name = "tiro_make_string";
        f.out = true;
        f.strings = {strings};
        f.call = [](Args& a, tiro_error_t* e) { tiro_make_string(a.vm, a.str[0], a.out, e); };
        f.expect = [](const Args& a) {
            if (!a.vm || !a.out || !a.s[0])
                return code(TIRO_ERROR_BAD_ARG);
            auto s = *a.s[0];
            return gives([s](tiro_handle_t o) { return is_dump(o, quote(s)); });
        };
        add(f);
    }
    {
        // alignments by variant
        static const std::vector<size_t> aligns = {0, 1, 2, 3, 4, 8, 12, 16, 32, 64, 4096, size_t(1) << 63, SIZE_MAX};
        static std::vector<tiro_native_type_t> types;
        types.clear();
        for (auto al : aligns)
            types.push_back({S("t"), al, nullptr});
        types.push_back({tiro_string_t{nullptr, 3}, 8, nullptr}); // invalid name
        Fn f;
        f.name = "tiro_make_native";
        f.out = true;
        f.sizes = sizes;
        f.variants = int(types.size()) + 1;
        f.call = [](Args& a, tiro_error_t* e) { tiro_make_native(a.vm, size_t(a.variant) < types.size() ? &types[size_t(a.variant)] : nullptr, a.n, a.out, e); };
        f.expect = [](const Args& a) {
            if (!a.vm || !a.out || a.n == 0 || size_t(a.variant) >= aligns.size())
                return code(TIRO_ERROR_BAD_ARG);
            size_t al = aligns[size_t(a.variant)];
            if (al == 0 || (al & (al - 1)))
                return code(TIRO_ERROR_BAD_ARG);
            int c = size_code(a.n, 1);
            if (c != TIRO_OK)
                return code(c);
            size_t n = a.n;
            auto type = &types[size_t(a.variant)];
            Expect x = gives([n, al, type](tiro_handle_t o) -> std::string {
                if (auto p = is_kind(o, TIRO_KIND_NATIVE); !p.empty())
                    return p;
                if (tiro_native_size(W->vm, o) != n || tiro_native_type_descriptor(W->vm, o) != type)
                    return "wrong size or type";
                auto d = tiro_native_data(W->vm, o);
                if (uintptr_t(d) % al)
                    return "the data is not aligned";
                memset(d, 0xff, n);
                return "";
            });
            if (al > alignof(std::max_align_t)) // documented to be limited
                return code(any_result);
            return x;
        };
        add(f);
    }

    // -- Tuples, arrays and records
    for (bool array : {false, true}) {
        tiro_kind_t kind = array ? TIRO_KIND_ARRAY : TIRO_KIND_TUPLE;
        Fn g;
        g.name = array ? "tiro_array_get" : "tiro_tuple_get";
        g.ins = {all};
        g.out = true;
        g.sizes = indices;
        g.call = [array](Args& a, tiro_error_t* e) { (array ? tiro_array_get : tiro_tuple_get)(a.vm, a.h[0], a.n, a.out, e); };
        g.expect = [kind](const Args& a) {
            if (!a.vm || !a.in[0] || !a.out)
                return code(TIRO_ERROR_BAD_ARG);
            if (a.in[0]->kind != kind)
                return code(TIRO_ERROR_BAD_TYPE);
            if (a.n >= a.in[0]->size)
                return code(TIRO_ERROR_OUT_OF_BOUNDS);
            auto e = a.in[0]->elems[a.n];
            return gives([e](tiro_handle_t o) { return same(o, e); });
        };
        add(g);
        Fn s;
        s.name = array ? "tiro_array_set" : "tiro_tuple_set";
        s.ins = {all, few};
        s.sizes = indices;
        s.mutates = true;
        s.call = [array](Args& a, tiro_error_t* e) { (array ? tiro_array_set : tiro_tuple_set)(a.vm, a.h[0], a.n, a.h[1], e); };
        s.expect = [kind, array](const Args& a) {
            if (!a.vm || !a.in[0] || !a.in[1])
                return code(TIRO_ERROR_BAD_ARG);
            if (a.in[0]->kind != kind)
                return code(TIRO_ERROR_BAD_TYPE);
            if (a.n >= a.in[0]->size)
                return code(TIRO_ERROR_OUT_OF_BOUNDS);
            Item *t = a.in[0], *x = a.in[1];
            size_t n = a.n;
            return gives([=](tiro_handle_t) -> std::string {
                H e(W->vm);
                if ((array ? tiro_array_size : tiro_tuple_size)(W->vm, t->h) != t->size)
                    return "the size has changed";
                for (size_t i = 0; i < t->size; ++i) {
                    (array ? tiro_array_get : tiro_tuple_get)(W->vm, t->h, i, e, Err());
                    if (auto p = same(e, i == n ? x->h : t->elems[i]); !p.empty())
                        return p;
                }
                return "";
            });
        };
        add(s);
    }
    for (int op = 0; op < 3; ++op) {
        Fn f;
        f.name = op == 0 ? "tiro_array_push" : op == 1 ? "tiro_array_pop" : "tiro_array_clear";
        f.ins = {all};
        if (op == 0)
            f.ins.push_back(few);
        f.mutates = true;
        f.call = [op](Args& a, tiro_error_t* e) {
            if (op == 0)
                tiro_array_push(a.vm, a.h[0], a.h[1], e);
            else
                (op == 1 ? tiro_array_pop : tiro_array_clear)(a.vm, a.h[0], e);
        };
        f.expect = [op](const Args& a) {
            if (!a.vm || !a.in[0] || (op == 0 && !a.in[1]))
                return code(TIRO_ERROR_BAD_ARG);
            Item* t = a.in[0];
            if (t->kind != TIRO_KIND_ARRAY)
                return code(TIRO_ERROR_BAD_TYPE);
            if (op == 1 && t->size == 0)
                return code(any_result); // the documentation contradicts itself
            std::vector<tiro_handle_t> e = t->elems;
            if (op == 0)
                e.push_back(a.in[1]->h);
            else if (op == 1)
                e.pop_back();
            else
                e.clear();
            return gives([t, e](tiro_handle_t) -> std::string {
                if (tiro_array_size(W->vm, t->h) != e.size())
                    return "wrong size";
                H x(W->vm);
                for (size_t i = 0; i < e.size(); ++i) {
                    tiro_array_get(W->vm, t->h, i, x, Err());
                    if (auto p = same(x, e[i]); !p.empty())
                        return p;
                }
                return "";
            });
        };
        add(f);
    }
    {
        Fn g;
        g.name = "tiro_record_get";
        g.ins = {all, all};
        g.out = true;
        g.call = [](Args& a, tiro_error_t* e) { tiro_record_get(a.vm, a.h[0], a.h[1], a.out, e); };
        g.expect = [](const Args& a) {
            if (!a.vm || !a.in[0] || !a.in[1] || !a.out)
                return code(TIRO_ERROR_BAD_ARG);
            if (a.in[0]->kind != TIRO_KIND_RECORD || a.in[1]->kind != TIRO_KIND_STRING)
                return code(TIRO_ERROR_BAD_TYPE);
            for (auto& [k, h] : a.in[0]->fields)
                if (k == a.in[1]->text) {
                    auto x = h;
                    return gives([x](tiro_handle_t o) { return same(o, x); });
                }
            return code(TIRO_ERROR_BAD_KEY);
        };
        add(g);
        Fn s;
        s.name = "tiro_record_set";
        s.ins = {all, all, few};
        s.mutates = true;
        s.call = [](Args& a, tiro_error_t* e) { tiro_record_set(a.vm, a.h[0], a.h[1], a.h[2], e); };
        s.expect = [](const Args& a) {
            if (!a.vm || !a.in[0] || !a.in[1] || !a.in[2])
                return code(TIRO_ERROR_BAD_ARG);
            if (a.in[0]->kind != TIRO_KIND_RECORD || a.in[1]->kind != TIRO_KIND_STRING)
                return code(TIRO_ERROR_BAD_TYPE);
            Item *t = a.in[0], *x = a.in[2];
            std::string key = a.in[1]->text;
            for (auto& [k, h] : t->fields)
                if (k == key)
                    return gives([=](tiro_handle_t) -> std::string {
                        for (auto& [k2, h2] : t->fields) {
                            H e(W->vm), ks = make_str(W->vm, k2);
                            tiro_record_get(W->vm, t->h, ks, e, Err());
                            if (auto p = same(e, k2 == key ? x->h : h2); !p.empty())
                                return p;
                        }
                        return "";
                    });
            return code(TIRO_ERROR_BAD_KEY);
        };
        add(s);
    }

    // -- Coroutines
    {
        Fn f;
        f.name = "tiro_make_coroutine";
        f.ins = {all, all};
        f.out = true;
        f.optional_last = true;
        f.call = [](Args& a, tiro_error_t* e) { tiro_make_coroutine(a.vm, a.h[0], a.h[1], a.out, e); };
        f.expect = [](const Args& a) {
            if (!a.vm || !a.in[0] || !a.out)
                return code(TIRO_ERROR_BAD_ARG);
            if (a.in[0]->kind != TIRO_KIND_FUNCTION)
                return code(TIRO_ERROR_BAD_TYPE);
            if (a.in[1] && a.in[1]->kind != TIRO_KIND_NULL && a.in[1]->kind != TIRO_KIND_TUPLE)
                return code(TIRO_ERROR_BAD_TYPE);
            bool runs = a.in[0]->name == "function";
            Item* args = a.in[1];
            return gives([runs, args](tiro_handle_t o) -> std::string {
                if (auto p = is_kind(o, TIRO_KIND_COROUTINE); !p.empty())
                    return p;
                if (tiro_coroutine_started(W->vm, o) || tiro_coroutine_completed(W->vm, o))
                    return "the coroutine is already started";
                if (!runs)
                    return "";
                H c(W->vm), r(W->vm);
                tiro_value_copy(W->vm, o, c, Err());
                tiro_coroutine_start(W->vm, c, Err());
                if (!tiro_coroutine_started(W->vm, c) || tiro_coroutine_completed(W->vm, c))
                    return "wrong state after the start";
                tiro_vm_run_ready(W->vm, Err());
                if (!tiro_coroutine_completed(W->vm, c))
                    return "not completed";
                tiro_coroutine_result(W->vm, c, r, Err());
                // the function takes one argument
                size_t n = args ? args->size : 0;
                return tiro_result_is_success(W->vm, r) == (n == 1) ? "" : "the outcome is " + W->vm.dump(r);
            });
        };
        add(f);
        Fn s;
        s.name = "tiro_coroutine_start";
        s.ins = {all};
        s.mutates = true;
        s.call = [](Args& a, tiro_error_t* e) { tiro_coroutine_start(a.vm, a.h[0], e); };
        s.expect = [](const Args& a) {
            if (!a.vm || !a.in[0])
                return code(TIRO_ERROR_BAD_ARG);
            Item* it = a.in[0];
            if (it->kind != TIRO_KIND_COROUTINE)
                return code(TIRO_ERROR_BAD_TYPE);
            if (it->started)
                return code(TIRO_ERROR_BAD_STATE);
            return gives([it](tiro_handle_t) -> std::string {
                if (!tiro_coroutine_started(W->vm, it->h) || tiro_coroutine_completed(W->vm, it->h) || !tiro_vm_has_ready(W->vm))
                    return "wrong state";
                tiro_vm_run_ready(W->vm, Err());
                if (!tiro_coroutine_completed(W->vm, it->h) || tiro_vm_has_ready(W->vm))
                    return "not completed";
                H r(W->vm);
                tiro_coroutine_result(W->vm, it->h, r, Err());
                return is_dump(r, "success(17)");
            });
        };
        add(s);
        static int cleaned, called;
        Fn c;
        c.name = "tiro_coroutine_set_callback";
        c.ins = {all};
        c.mutates = true;
        c.variants = 4; // callback, cleanup
        c.call = [](Args& a, tiro_error_t* e) {
            cleaned = called = 0;
            tiro_coroutine_set_callback(
                a.vm, a.h[0], a.variant & 1 ? nullptr : [](tiro_vm_t, tiro_handle_t, void* ud) { called += ud == &called; },
                a.variant & 2 ? nullptr : [](void* ud) { cleaned += ud == &called; }, &called, e);
            a.ret = std::to_string(cleaned) + std::to_string(called);
        };
        c.expect = [](const Args& a) -> Expect {
            std::string failed = a.variant & 2 ? "00" : "10";
            if (!a.vm || !a.in[0] || (a.variant & 1))
                return {TIRO_ERROR_BAD_ARG, failed, nullptr};
            Item* it = a.in[0];
            if (it->kind != TIRO_KIND_COROUTINE)
                return {TIRO_ERROR_BAD_TYPE, failed, nullptr};
            bool cleanup = !(a.variant & 2);
            return {TIRO_OK, "00", [it, cleanup](tiro_handle_t) -> std::string {
                if (!it->started)
                    tiro_coroutine_start(W->vm, it->h, Err());
                tiro_vm_run_ready(W->vm, Err());
                if (it->started ? called != 0 || cleaned != 0 : called != 1 || cleaned != cleanup)
                    return fmt::format("the callback was called {} times, the cleanup {} times", called, cleaned);
                return "";
            }};
        };
        add(c);
    }

    // -- Modules
    {
        Fn f;
        f.name = "tiro_module_get_export";
        f.ins = {all};
        f.out = true;
        f.strings = {strings};
        f.call = [](Args& a, tiro_error_t* e) { tiro_module_get_export(a.vm, a.h[0], a.str[0], a.out, e); };
        f.expect = [](const Args& a) {
            if (!a.vm || !a.in[0] || !a.s[0] || a.s[0]->empty() || !a.out)
                return code(TIRO_ERROR_BAD_ARG);
            if (a.in[0]->kind != TIRO_KIND_MODULE)
                return code(TIRO_ERROR_BAD_TYPE);
            for (auto& [k, h] : a.in[0]->exports)
                if (k == *a.s[0]) {
                    auto x = h;
                    return gives([x](tiro_handle_t o) { return same(o, x); });
                }
            return code(TIRO_ERROR_EXPORT_NOT_FOUND);
        };
        add(f);
        Fn m;
        m.name = "tiro_make_module";
        m.ins = {all};
        m.out = true;
        m.strings = {strings, strings};
        m.variants = 4; // 0: one member, 1: no members, 2: null with a length, 3: a valid member first
        m.call = [](Args& a, tiro_error_t* e) {
            tiro_module_member_t members[2] = {{a.str[1], a.h[0]}, {S("z"), W->sentinel}};
            if (a.variant == 3)
                std::swap(members[0], members[1]);
            tiro_make_module(a.vm, a.str[0], a.variant == 1 || a.variant == 2 ? nullptr : members, a.variant == 1 ? 0 : a.variant == 3 ? 2 : 1, a.out, e);
        };
        m.expect = [](const Args& a) {
            if (!a.vm || !a.out || !a.s[0] || a.s[0]->empty() || a.variant == 2)
                return code(TIRO_ERROR_BAD_ARG);
            if (a.variant != 1 && (!a.s[1] || a.s[1]->empty() || !a.in[0]))
                return code(TIRO_ERROR_BAD_ARG);
            std::string member = a.variant == 1 ? "" : *a.s[1];
            Item* it = a.in[0];
            int variant = a.variant;
            return gives([=](tiro_handle_t o) -> std::string {
                if (auto p = is_kind(o, TIRO_KIND_MODULE); !p.empty())
                    return p;
                H x(W->vm);
                Err none;
                tiro_module_get_export(W->vm, o, S("other"), x, none);
                if (none.get().code != TIRO_ERROR_EXPORT_NOT_FOUND)
                    return "a missing export was found";
                if (variant == 1)
                    return "";
                tiro_module_get_export(W->vm, o, S(member), x, Err());
                if (auto p = same(x, it->h); !p.empty())
                    return p;
                if (variant == 3) {
                    tiro_module_get_export(W->vm, o, S("z"), x, Err());
                    return same(x, W->sentinel);
                }
                return "";
            });
        };
        add(m);
        Fn g;
        g.name = "tiro_vm_get_export";
        g.out = true;
        g.strings = {{std::nullopt, "", "p", "std", "a", "pooled", std::string("p\0", 2)}, {std::nullopt, "", "fine", "closure", "print", "p", std::string("fine\0", 5)}};
        g.call = [](Args& a, tiro_error_t* e) { tiro_vm_get_export(a.vm, a.str[0], a.str[1], a.out, e); };
        g.expect = [](const Args& a) {
            if (!a.vm || !a.out || !a.s[0] || a.s[0]->empty() || !a.s[1] || a.s[1]->empty())
                return code(TIRO_ERROR_BAD_ARG);
            if (*a.s[0] != "p" && *a.s[0] != "std")
                return code(TIRO_ERROR_MODULE_NOT_FOUND);
            if (!(*a.s[0] == "p" && *a.s[1] == "fine") && !(*a.s[0] == "std" && *a.s[1] == "print"))
                return code(TIRO_ERROR_EXPORT_NOT_FOUND);
            return gives([](tiro_handle_t o) { return is_kind(o, TIRO_KIND_FUNCTION); });
        };
        add(g);
        Fn l;
        l.name = "tiro_vm_load_module";
        l.ins = {all};
        l.variants = 2;
        l.call = [](Args& a, tiro_error_t* e) {
            // modules get a fresh name first
            static int counter = 0;
            H m(W->vm);
            std::string name = "loaded" + std::to_string(counter++);
            tiro_module_member_t members[1] = {{S("x"), W->sentinel}};
            tiro_make_module(W->vm, S(name), members, 1, m, Err());
            bool is_module = a.in[0] && a.in[0]->kind == TIRO_KIND_MODULE && a.vm;
            if (!is_module) {
                tiro_vm_load_module(a.vm, a.h[0], e);
                return;
            }
            H x(W->vm);
            if (a.variant == 1) { // the second time
                tiro_vm_load_module(a.vm, m, Err());
                H again(W->vm);
                tiro_make_module(W->vm, S(name), nullptr, 0, again, Err());
                tiro_vm_load_module(a.vm, again, e);
            } else {
                tiro_vm_load_module(a.vm, m, e);
            }
            tiro_vm_get_export(a.vm, S(name), S("x"), x, Err());
            a.ret = same(x, W->sentinel);
        };
        l.expect = [](const Args& a) -> Expect {
            if (!a.vm || !a.in[0])
                return code(TIRO_ERROR_BAD_ARG);
            if (a.in[0]->kind != TIRO_KIND_MODULE)
                return code(TIRO_ERROR_BAD_TYPE);
            return code(a.variant == 1 ? TIRO_ERROR_MODULE_EXISTS : TIRO_OK);
        };
        add(l);
    }

    // -- Native functions
    static const std::vector<size_t> argcs = {0, 1, 1023, 1024, 1025, size_t(1) << 32, (size_t(1) << 32) + 1, SIZE_MAX};
    for (int kind = 0; kind < 2; ++kind) {
        Fn f;
        f.name = kind ? "tiro_make_async_function" : "tiro_make_sync_function";
        f.ins = {all, few};
        f.out = true;
        f.optional_last = true;
        f.sizes = argcs;
        f.variants = 2;
        f.call = [kind](Args& a, tiro_error_t* e) {
            if (kind)
                tiro_make_async_function(a.vm, a.h[0], a.variant ? nullptr : [](tiro_vm_t, tiro_async_frame_t fr) { H x(W->vm); tiro_async_frame_closure(fr, x, Err()); tiro_async_frame_return_value(fr, x, Err()); },
                    a.n, a.h[1], a.out, e);
            else
                tiro_make_sync_function(a.vm, a.h[0], a.variant ? nullptr : [](tiro_vm_t, tiro_sync_frame_t fr) { H x(W->vm); tiro_sync_frame_closure(fr, x, Err()); tiro_sync_frame_return_value(fr, x, Err()); },
                    a.n, a.h[1], a.out, e);
        };
        f.expect = [](const Args& a) {
            bool bad = !a.vm || !a.in[0] || a.variant || !a.out;
            bool bad_type = a.in[0] && a.in[0]->kind != TIRO_KIND_STRING;
            if (!bad && bad_type && a.n > 1024)
                return code(any_error);
            if (bad || a.n > 1024)
                return code(TIRO_ERROR_BAD_ARG);
            if (bad_type)
                return code(TIRO_ERROR_BAD_TYPE);
            Item* cl = a.in[1];
            size_t n = a.n;
            return gives([cl, n](tiro_handle_t o) -> std::string {
                if (auto p = is_kind(o, TIRO_KIND_FUNCTION); !p.empty())
                    return p;
                H c(W->vm), r(W->vm), args(W->vm), x(W->vm);
                for (size_t count : {n, n - 1}) {
                    if (count == SIZE_MAX)
                        continue;
                    tiro_make_tuple(W->vm, count, args, Err());
                    tiro_make_coroutine(W->vm, o, args, c, Err());
                    tiro_coroutine_start(W->vm, c, Err());
                    tiro_vm_run_ready(W->vm, Err());
                    tiro_coroutine_result(W->vm, c, r, Err());
                    if (count != n) {
                        if (tiro_result_is_success(W->vm, r))
                            return "a call with missing arguments succeeds";
                        continue;
                    }
                    if (!tiro_result_is_success(W->vm, r))
                        return "the call fails: " + W->vm.dump(r);
                    tiro_result_value(W->vm, r, x, Err());
                    if (auto p = cl ? same(x, cl->h) : is_dump(x, "null"); !p.empty())
                        return p;
                }
                return "";
            });
        };
        add(f);
    }
    {
        static const size_t locals[] = {0, 1, 3, 1 << 14, (1 << 14) + 1, size_t(1) << 32, (size_t(1) << 32) + 1, SIZE_MAX};
        Fn f;
        f.name = "tiro_make_resumable_function";
        f.ins = {all, few};
        f.out = true;
        f.optional_last = true;
        f.sizes = argcs;
        f.variants = 10; // locals; no function; no description
        f.call = [](Args& a, tiro_error_t* e) {
            tiro_resumable_frame_desc_t d{};
            d.name = a.h[0];
            d.closure = a.h[1];
            d.arg_count = a.n;
            d.local_count = locals[a.variant < 8 ? a.variant : 0];
            d.func = a.variant == 8 ? nullptr : [](tiro_vm_t, tiro_resumable_frame_t fr) {
                H x(W->vm);
                size_t n = tiro_resumable_frame_local_count(fr);
                if (n) {
                    tiro_resumable_frame_closure(fr, x, Err());
                    tiro_resumable_frame_set_local(fr, n - 1, x, Err());
                    tiro_make_null(W->vm, x);
                    tiro_resumable_frame_local(fr, n - 1, x, Err());
                } else {
                    tiro_resumable_frame_closure(fr, x, Err());
                }
                tiro_resumable_frame_return_value(fr, x, Err());
            };
            tiro_make_resumable_function(a.vm, a.variant == 9 ? nullptr : &d, a.out, e);
        };
        f.expect = [](const Args& a) {
            bool bad = !a.vm || a.variant >= 8 || !a.in[0] || !a.out;
            bool range = a.n > 1024 || (a.variant < 8 && locals[a.variant] > (1 << 14));
            bool bad_type = a.in[0] && a.in[0]->kind != TIRO_KIND_STRING;
            if (!bad && bad_type && range)
                return code(any_error);
            if (bad || range)
                return code(TIRO_ERROR_BAD_ARG);
            if (bad_type)
                return code(TIRO_ERROR_BAD_TYPE);
            Item* cl = a.in[1];
            size_t n = a.n;
            return gives([cl, n](tiro_handle_t o) -> std::string {
                if (auto p = is_kind(o, TIRO_KIND_FUNCTION); !p.empty())
                    return p;
                H c(W->vm), r(W->vm), args(W->vm), x(W->vm);
                tiro_make_tuple(W->vm, n, args, Err());
                tiro_make_coroutine(W->vm, o, args, c, Err());
                tiro_coroutine_start(W->vm, c, Err());
                tiro_vm_run_ready(W->vm, Err());
                tiro_coroutine_result(W->vm, c, r, Err());
                if (!tiro_result_is_success(W->vm, r))
                    return "the call fails: " + W->vm.dump(r);
                tiro_result_value(W->vm, r, x, Err());
                return cl ? same(x, cl->h) : is_dump(x, "null");
            });
        };
        add(f);
    }
    return v;
}

// ---- Functions of frames: executed within a native function ----

enum FrameKind { Sync, Async, Resumable };
struct FrameCtx {
    FrameKind kind;
    tiro_sync_frame_t sync = nullptr;
    tiro_async_frame_t async = nullptr;
    tiro_resumable_frame_t res = nullptr;
    tiro_async_token_t token = nullptr;
};
std::function<void(const FrameCtx&)> in_frame;

std::vector<Fn> frame_functions(FrameKind kind, const FrameCtx& cx) {
    // `variant` 1: null frame
    std::vector<Fn> v;
    const std::vector<std::string> all;
    auto add = [&](const char* name, auto setup) {
        Fn f;
        f.name = std::string(kind == Sync ? "tiro_sync_frame_" : kind == Async ? "tiro_async_frame_" : "tiro_resumable_frame_") + name;
        f.variants = 2;
        setup(f);
        v.push_back(f);
    };
    FrameCtx none{kind};
    auto pick = [cx, none](const Args& a) { return a.variant ? none : cx; };
    add("arg_count", [&](Fn& f) {
        f.err = false;
        f.call = [=](Args& a, tiro_error_t*) {
            auto c = pick(a);
            a.ret = std::to_string(kind == Sync ? tiro_sync_frame_arg_count(c.sync) : kind == Async ? tiro_async_frame_arg_count(c.async) : tiro_resumable_frame_arg_count(c.res));
        };
        f.expect = [](const Args& a) { return ret(a.variant ? "0" : "2"); };
    });
    add("arg", [&](Fn& f) {
        f.out = true;
        f.sizes = indices;
        f.call = [=](Args& a, tiro_error_t* e) {
            auto c = pick(a);
            if (kind == Sync)
                tiro_sync_frame_arg(c.sync, a.n, a.out, e);
            else if (kind == Async)
                tiro_async_frame_arg(c.async, a.n, a.out, e);
            else
                tiro_resumable_frame_arg(c.res, a.n, a.out, e);
        };
        f.expect = [](const Args& a) {
            if (a.variant || !a.out)
                return code(TIRO_ERROR_BAD_ARG);
            if (a.n >= 2)
                return code(TIRO_ERROR_OUT_OF_BOUNDS);
            auto h = W->pool.find("tuple").elems[a.n];
            return gives([h](tiro_handle_t o) { return same(o, h); });
        };
    });
    add("closure", [&](Fn& f) {
        f.out = true;
        f.call = [=](Args& a, tiro_error_t* e) {
            auto c = pick(a);
            if (kind == Sync)
                tiro_sync_frame_closure(c.sync, a.out, e);
            else if (kind == Async)
                tiro_async_frame_closure(c.async, a.out, e);
            else
                tiro_resumable_frame_closure(c.res, a.out, e);
        };
        f.expect = [](const Args& a) {
            if (a.variant || !a.out)
                return code(TIRO_ERROR_BAD_ARG);
            return gives([](tiro_handle_t o) { return same(o, W->pool.find("array").h); });
        };
    });
    if (kind == Resumable) {
        add("local_count", [&](Fn& f) {
            f.err = false;
            f.call = [=](Args& a, tiro_error_t*) { a.ret = std::to_string(tiro_resumable_frame_local_count(pick(a).res)); };
            f.expect = [](const Args& a) { return ret(a.variant ? "0" : "3"); };
        });
        add("state", [&](Fn& f) {
            f.err = false;
            f.call = [=](Args& a, tiro_error_t*) { a.ret = std::to_string(tiro_resumable_frame_state(pick(a).res)); };
            f.expect = [](const Args&) { return ret("0"); };
        });
        add("local", [&](Fn& f) {
            f.out = true;
            f.sizes = indices;
            f.call = [=](Args& a, tiro_error_t* e) { tiro_resumable_frame_local(pick(a).res, a.n, a.out, e); };
            f.expect = [](const Args& a) {
                if (a.variant || !a.out)
                    return code(TIRO_ERROR_BAD_ARG);
                if (a.n >= 3)
                    return code(TIRO_ERROR_OUT_OF_BOUNDS);
                return gives([](tiro_handle_t o) { return is_kind(o, TIRO_KIND_NULL); });
            };
        });
        add("set_local", [&](Fn& f) {
            f.ins = {all};
            f.sizes = indices;
            f.call = [=](Args& a, tiro_error_t* e) {
                auto r = pick(a).res;
                tiro_resumable_frame_set_local(r, a.n, a.h[0], e);
                H x(W->vm);
                for (size_t i = 0; i < 3; ++i) {
                    tiro_resumable_frame_local(cx.res, i, x, Err());
                    bool set = !a.variant && a.h[0] && i == a.n;
                    a.ret += set ? same(x, a.h[0]) : is_kind(x, TIRO_KIND_NULL);
                    tiro_make_null(W->vm, x);
                    tiro_resumable_frame_set_local(cx.res, i, x, Err());
                }
            };
            f.expect = [](const Args& a) {
                if (a.variant || !a.in[0])
                    return code(TIRO_ERROR_BAD_ARG);
                return code(a.n >= 3 ? TIRO_ERROR_OUT_OF_BOUNDS : TIRO_OK);
            };
        });
    }
    return v;
}
// Operations that decide the result of the call: executed once per call. Returns the expected result of the call, or
// "panic" / "any".
std::vector<Fn> final_functions(FrameKind kind, const FrameCtx& cx) {
    std::vector<Fn> v;
    const std::vector<std::string> all;
    FrameCtx none{kind};
    auto pick = [cx, none](const Args& a) { return a.variant ? none : cx; };
    {
        Fn f;
        f.name = "return_value";
        f.ins = {all};
        f.variants = 2;
        f.call = [=](Args& a, tiro_error_t* e) {
            auto c = pick(a);
            if (kind == Sync)
                tiro_sync_frame_return_value(c.sync, a.h[0], e);
            else if (kind == Async)
                tiro_async_frame_return_value(c.async, a.h[0], e);
            else
                tiro_resumable_frame_return_value(c.res, a.h[0], e);
        };
        f.expect = [](const Args& a) { return code(a.variant || !a.in[0] ? TIRO_ERROR_BAD_ARG : TIRO_OK); };
        v.push_back(f);
    }
    {
        Fn f;
        f.name = "panic_msg";
        f.strings = {strings};
        f.variants = 2;
        f.call = [=](Args& a, tiro_error_t* e) {
            auto c = pick(a);
            if (kind == Sync)
                tiro_sync_frame_panic_msg(c.sync, a.str[0], e);
            else if (kind == Async)
                tiro_async_frame_panic_msg(c.async, a.str[0], e);
            else
                tiro_resumable_frame_panic_msg(c.res, a.str[0], e);
        };
        f.expect = [](const Args& a) { return code(a.variant || !a.s[0] ? TIRO_ERROR_BAD_ARG : TIRO_OK); };
        v.push_back(f);
    }
    if (kind == Resumable) {
        Fn f;
        f.name = "invoke";
        f.ins = {all, all};
        f.optional_last = true;
        f.variants = 2;
        f.call = [=](Args& a, tiro_error_t* e) { tiro_resumable_frame_invoke(pick(a).res, 5, a.h[0], a.h[1], e); };
        f.expect = [](const Args& a) {
            if (a.variant || !a.in[0])
                return code(TIRO_ERROR_BAD_ARG);
            if (a.in[0]->kind != TIRO_KIND_FUNCTION || (a.in[1] && a.in[1]->kind != TIRO_KIND_NULL && a.in[1]->kind != TIRO_KIND_TUPLE))
                return code(TIRO_ERROR_BAD_TYPE);
            return code(TIRO_OK);
        };
        v.push_back(f);
    }
    if (kind == Async) {
        Fn f;
        f.name = "token_return_value";
        f.ins = {all};
        f.variants = 2;
        f.call = [=](Args& a, tiro_error_t* e) { tiro_async_token_return_value(pick(a).token, a.h[0], e); };
        f.expect = [](const Args& a) { return code(a.variant || !a.in[0] ? TIRO_ERROR_BAD_ARG : TIRO_OK); };
        v.push_back(f);
        Fn p;
        p.name = "token_panic_msg";
        p.strings = {strings};
        p.variants = 2;
        p.call = [=](Args& a, tiro_error_t* e) { tiro_async_token_panic_msg(pick(a).token, a.str[0], e); };
        p.expect = [](const Args& a) { return code(a.variant || !a.s[0] ? TIRO_ERROR_BAD_ARG : TIRO_OK); };
        v.push_back(p);
    }
    return v;
}

// ---- Execution of one case ----

const char* const null_text = "<null handle>";

std::string show(const Fn& f, const Args& a, int alias, int mode) {
    std::string r = f.name + "(";
    if (!a.vm)
        r += "null vm, ";
    for (size_t i = 0; i < f.ins.size(); ++i)
        r += (a.in[i] ? a.in[i]->name : null_text) + std::string(", ");
    for (size_t i = 0; i < f.strings.size(); ++i)
        r += (a.s[i] ? quote(*a.s[i]) : std::string("invalid string")) + ", ";
    if (f.sizes.size() > 1)
        r += std::to_string(a.n) + ", ";
    if (f.variants > 1)
        r += "variant " + std::to_string(a.variant) + ", ";
    if (f.out)
        r += alias == -1 ? "result" : alias == -2 ? null_text : fmt::format("result = argument {}", alias);
    r += ")";
    if (mode == 0)
        r += " without error";
    if (mode == 2)
        r += " with an existing error";
    return r;
}

// Calls the function and compares. Returns the observed code.
int run_case(const Fn& f, Args& a, int alias, int mode, bool shared_handles) {
    auto& vm = W->vm;
    // Arguments are passed in handles of their own, or in the same one if they are equal.
    for (size_t i = 0; i < f.ins.size(); ++i) {
        if (!a.in[i]) {
            a.h[i] = nullptr;
            continue;
        }
        a.h[i] = W->temp[i];
        if (shared_handles)
            for (size_t j = 0; j < i; ++j)
                if (a.in[j] == a.in[i])
                    a.h[i] = a.h[j];
        tiro_value_copy(vm, a.in[i]->h, a.h[i], Err());
    }
    tiro_value_copy(vm, W->sentinel, W->out, Err());
    a.out = !f.out || alias == -2 ? nullptr : alias == -1 ? tiro_handle_t(W->out) : a.h[alias];
    Expect x = f.expect(a);
    tiro_error_t err = nullptr, before = nullptr;
    if (mode == 2) {
        tiro_make_tuple(nullptr, 0, nullptr, &err); // an error to begin with
        before = err;
    }
    a.ret.clear();
    f.call(a, mode == 0 ? nullptr : &err);
    int got = -100;
    if (mode == 1) {
        ApiError e = take_error(err);
        got = e.code;
        if (!f.err)
            got = x.code;
        if (x.code == any_error)
            MC_CHECK(!e.ok(), "no error is reported");
        else if (x.code == any_result)
            MC_CHECK(e.code != TIRO_ERROR_INTERNAL, "internal error: {}", e.details);
        else
            MC_CHECK(got == x.code, "reports {} instead of {}: {}", tiro_errc_name(e.code), tiro_errc_name(tiro_errc_t(x.code)), e.details);
    } else if (mode == 2) {
        bool unchanged = err == before && tiro_error_errc(err) == TIRO_ERROR_BAD_ARG;
        tiro_error_t e = err;
        tiro_error_free(e);
        MC_CHECK(unchanged, "the existing error was replaced");
    }
    MC_CHECK(a.ret == x.ret, "returns {} instead of {}", quote(a.ret), quote(x.ret));
    bool success = x.code == TIRO_OK;
    bool unspecified = x.code == any_result;
    // Other arguments are unchanged
    for (size_t i = 0; i < f.ins.size(); ++i)
        if (a.h[i] && !(a.h[i] == a.out && (success || unspecified)))
            MC_CHECK(tiro_value_same(vm, a.h[i], a.in[i]->h), "argument {} was modified: {}", i, vm.dump(a.h[i]));
    if (!(a.out == tiro_handle_t(W->out) && (success || unspecified)))
        MC_CHECK(tiro_value_same(vm, W->out, W->sentinel), "the result was modified: {}", vm.dump(W->out));
    if (success && x.out) {
        std::string p = x.out(a.out);
        MC_CHECK(p.empty(), "{}", p);
    }
    if (!(f.mutates && success)) {
        std::string now = W->pool.snap();
        if (now != W->pool.snapshot) {
            W->pool.build();
            fail("other values were modified");
        }
    } else {
        W->pool.build();
    }
    return success ? 0 : x.code;
}

// Enumerates the arguments of a function.
void each(const Fn& f, const std::function<void(Args&, int alias, int mode, bool shared)>& body, bool vm_arg = true) {
    // Positions in the pool (which may be rebuilt), -1 is the null handle.
    std::vector<std::vector<int>> choices;
    for (auto& names : f.ins) {
        std::vector<int> r{-1};
        for (size_t i = 0; i < W->pool.items.size(); ++i)
            if (names.empty() || std::find(names.begin(), names.end(), W->pool.items[i]->name) != names.end())
                r.push_back(int(i));
        MC_CHECK(names.empty() || r.size() == names.size() + 1, "harness: unknown name");
        choices.push_back(r);
    }
    std::vector<size_t> idx(f.ins.size());
    while (true) {
        bool has_equal = false;
        for (size_t si = 0; si < (f.strings.size() > 0 ? f.strings[0].size() : 1); ++si)
            for (size_t sj = 0; sj < (f.strings.size() > 1 ? f.strings[1].size() : 1); ++sj)
                for (size_t n : f.sizes)
                    for (int variant = 0; variant < f.variants; ++variant)
                        for (int alias = f.out ? -2 : -1; alias < (f.out ? int(f.ins.size()) : 0); ++alias)
                            for (int mode = f.err ? 0 : 1; mode < (f.err ? 3 : 2); ++mode)
                                for (int nullvm = 0; nullvm < (vm_arg ? 2 : 1); ++nullvm)
                                    for (int shared = 0; shared < 2; ++shared) {
                                        if (nullvm && (alias != (f.out ? -1 : -1) || shared))
                                            continue;
                                        Args a;
                                        a.vm = nullvm ? nullptr : W->vm.get();
                                        for (size_t i = 0; i < f.ins.size(); ++i)
                                            a.in[i] = choices[i][idx[i]] < 0 ? nullptr : W->pool.items[size_t(choices[i][idx[i]])].get();
                                        has_equal = false;
                                        for (size_t i = 0; i < f.ins.size(); ++i)
                                            for (size_t j = 0; j < i; ++j)
                                                if (a.in[i] && a.in[i] == a.in[j])
                                                    has_equal = true;
                                        if (shared && !has_equal)
                                            continue;
                                        if (alias >= 0 && !a.in[alias])
                                            continue;
                                        a.n = n;
                                        a.variant = variant;
                                        for (size_t s = 0; s < f.strings.size(); ++s) {
                                            a.s[s] = f.strings[s][s == 0 ? si : sj];
                                            a.str[s] = a.s[s] ? S(*a.s[s]) : tiro_string_t{nullptr, 3};
                                            if (a.s[s] && a.s[s]->empty())
                                                a.str[s].data = nullptr; // explicitly allowed
                                        }
                                        body(a, alias, mode, shared != 0);
                                    }
        size_t i = 0;
        while (i < idx.size() && ++idx[i] == choices[i].size())
            idx[i++] = 0;
        if (i == idx.size())
            return;
    }
}

void health() {
    auto o = W->vm.call("p", "health");
    MC_CHECK(o.str() == "value [(1,\"1\",[1]),(2,\"2\",[2]),(3,\"3\",[3])]", "a program does not run as usual: {}", o.str());
}

void direct() {
    static std::vector<Fn> fns = make_functions();
    // One case per function and value of the first argument
    for (auto& f : fns) {
        size_t first_count = f.ins.empty() ? 1 : f.ins[0].empty() ? W->pool.items.size() + 1 : f.ins[0].size() + 1;
        for (size_t first = 0; first < first_count; ++first) {
            std::string name = f.ins.empty() ? "" : first == 0 ? null_text : f.ins[0].empty() ? W->pool.items[first - 1]->name : f.ins[0][first - 1];
            if (!R.claim())
                continue;
            R.exec("call " + f.name + " with " + name, [&] {
                W->pool.build();
                Fn g = f;
                bool null_first = !f.ins.empty() && first == 0;
                if (!f.ins.empty() && !null_first)
                    g.ins[0] = {name};
                uint64_t n = 0, failed = 0;
                std::string last;
                try {
                    each(g, [&](Args& a, int alias, int mode, bool shared) {
                        if (!f.ins.empty() && (a.in[0] == nullptr) != null_first)
                            return;
                        // the pool may have been rebuilt
                        last = show(f, a, alias, mode);
                        int c = run_case(f, a, alias, mode, shared);
                        ++n;
                        failed += c != 0;
                        if (R.want_sample() && n == 5)
                            R.sample(last);
                    });
                } catch (const Failure& e) {
                    fail("{}: {}", last, e.what);
                }
                health();
                R.evaluations(n);
                R.states(n);
                R.transitions(n);
                R.traces();
                R.cov("calls refused", failed);
                R.cov("calls accepted", n - failed);
                R.outcome(f.name + name + std::to_string(failed));
                if (failed != n)
                    R.nontrivial();
            });
        }
    }
}

void frames() {
    for (FrameKind kind : {Sync, Async, Resumable})
        for (int final = 0; final < 2; ++final) {
            std::string kname = kind == Sync ? "sync" : kind == Async ? "async" : "resumable";
            auto make = [&](tiro_handle_t out) {
                H name = make_str(W->vm, "f");
                tiro_handle_t cl = W->pool.find("array").h;
                if (kind == Sync) {
                    tiro_make_sync_function(W->vm, name, [](tiro_vm_t, tiro_sync_frame_t fr) { FrameCtx c{Sync}; c.sync = fr; in_frame(c); }, 2, cl, out, Err());
                } else if (kind == Async) {
                    tiro_make_async_function(W->vm, name, [](tiro_vm_t, tiro_async_frame_t fr) { FrameCtx c{Async}; c.async = fr; in_frame(c); }, 2, cl, out, Err());
                } else {
                    tiro_resumable_frame_desc_t d{};
                    d.name = name;
                    d.arg_count = 2;
                    d.local_count = 3;
                    d.closure = cl;
                    d.func = [](tiro_vm_t, tiro_resumable_frame_t fr) { FrameCtx c{Resumable}; c.res = fr; in_frame(c); };
                    tiro_make_resumable_function(W->vm, &d, out, Err());
                }
            };
            // Runs the function with the two arguments and returns its outcome.
            auto run = [&](std::function<void(const FrameCtx&)> body, std::function<void(const FrameCtx&)> later = nullptr) {
                H f(W->vm), args(W->vm), c(W->vm), r(W->vm);
                make(f);
                auto& e = W->pool.find("tuple").elems;
                tiro_make_tuple(W->vm, 2, args, Err());
                tiro_tuple_set(W->vm, args, 0, e[0], Err());
                tiro_tuple_set(W->vm, args, 1, e[1], Err());
                std::string problem;
                int entered = 0;
                tiro_async_token_t token = nullptr;
                in_frame = [&](const FrameCtx& cx) {
                    if (entered++) { // after the invoked function
                        H x(W->vm);
                        tiro_resumable_frame_invoke_return(cx.res, x, Err());
                        tiro_resumable_frame_return_value(cx.res, x, Err());
                        return;
                    }
                    FrameCtx c2 = cx;
                    if (kind == Async) {
                        c2.token = token = tiro_async_frame_token(cx.async, Err());
                    }
                    try {
                        body(c2);
                    } catch (const Failure& f) {
                        problem = f.what;
                    }
                };
                tiro_make_coroutine(W->vm, f, args, c, Err());
                tiro_coroutine_start(W->vm, c, Err());
                tiro_vm_run_ready(W->vm, Err());
                if (later && problem.empty()) {
                    FrameCtx c2{kind};
                    c2.token = token;
                    try {
                        MC_CHECK(!tiro_coroutine_completed(W->vm, c), "completed too early");
                        later(c2);
                        tiro_vm_run_ready(W->vm, Err());
                    } catch (const Failure& f) {
                        problem = f.what;
                    }
                }
                if (problem.empty() && !tiro_coroutine_completed(W->vm, c))
                    problem = "the coroutine is not completed";
                std::string out;
                if (problem.empty()) {
                    tiro_coroutine_result(W->vm, c, r, Err());
                    out = W->vm.dump(r);
                }
                if (token)
                    tiro_async_token_free(token);
                MC_CHECK(problem.empty(), "{}", problem);
                MC_CHECK(entered == 1 || kind == Resumable, "the function is called {} times", entered);
                return out;
            };
            auto none = final ? final_functions(kind, FrameCtx{kind}) : frame_functions(kind, FrameCtx{kind});
            for (size_t k = 0; k < none.size(); ++k)
              for (size_t first = 0; first < (final && none[k].ins.size() == 2 ? W->pool.items.size() + 1 : 1); ++first) {
                if (!R.claim())
                    continue;
                bool split = final && none[k].ins.size() == 2;
                Fn chosen = none[k];
                if (split && first)
                    chosen.ins[0] = {W->pool.items[first - 1]->name};
                R.exec("frame " + kname + " " + none[k].name + (split ? " with " + (first ? W->pool.items[first - 1]->name : std::string(null_text)) : ""), [&] {
                    W->pool.build();
                    uint64_t n = 0;
                    std::string last;
                    auto guarded = [&](auto&& f2) {
                        try {
                            f2();
                        } catch (const Failure& e) {
                            fail("{}: {}", last, e.what);
                        }
                    };
                    if (!final) {
                        guarded([&] {
                            run([&](const FrameCtx& cx) {
                                auto fn = frame_functions(kind, cx)[k];
                                each(fn, [&](Args& a, int alias, int mode, bool shared) {
                                    last = show(fn, a, alias, mode);
                                    run_case(fn, a, alias, mode, shared);
                                    ++n;
                                }, false);
                                if (kind == Resumable) {
                                    H x = make_int(W->vm, 3);
                                    tiro_resumable_frame_return_value(cx.res, x, Err());
                                }
                            });
                        });
                    } else {
                        each(chosen, [&](Args& a0, int alias, int mode, bool shared) {
                            if (split && (a0.in[0] == nullptr) != (first == 0))
                                return;
                            last = show(none[k], a0, alias, mode);
                            guarded([&] {
                                int c = 0;
                                bool valid = false;
                                bool later = none[k].name.compare(0, 5, "token") == 0;
                                auto perform = [&](const FrameCtx& cx) {
                                    auto fn = final_functions(kind, cx)[k];
                                    Args a = a0;
                                    bool token = later;
                                    c = run_case(fn, a, alias, mode, shared);
                                    valid = c == 0;
                                    if (!valid && token) {
                                        H x = make_int(W->vm, 3);
                                        tiro_async_token_return_value(cx.token, x, Err());
                                    } else if (!valid && kind == Resumable) {
                                        H x = make_int(W->vm, 3);
                                        tiro_resumable_frame_return_value(cx.res, x, Err());
                                    }
                                };
                                std::string out = later ? run([&](const FrameCtx& cx) { tiro_async_frame_yield(cx.async, Err()); }, perform) : run(perform);
                                std::string expected;
                                bool token = none[k].name.compare(0, 5, "token") == 0;
                                if (!valid)
                                    expected = token || kind == Resumable ? "success(3)" : "success(null)";
                                else if (none[k].ins.size() == 1)
                                    expected = "success(" + W->vm.dump(a0.in[0]->h, 1) + ")";
                                else if (!none[k].strings.empty())
                                    expected = "error(exception(" + quote(*a0.s[0]) + "))";
                                if (!expected.empty())
                                    MC_CHECK(out == expected, "the result of the call is {} instead of {}", out, expected);
                                ++n;
                            });
                        }, false);
                    }
                    health();
                    R.evaluations(n);
                    R.states(n);
                    R.transitions(n);
                    R.traces();
                    R.nontrivial();
                    R.outcome(none[k].name + std::to_string(n));
                });
            }
        }
}

// ---- The compiler: all sequences of calls ----

struct CModel {
    bool started = false, ran = false, success = false, module = false;
    std::vector<std::string> contents;
    bool cb = false, cb_stops = false;
    int requested = 0; // bits
};
enum COp { AddGood, AddBad, AddWarn, AddNullName, AddInvalid, AddEmptyContent, Callback, CallbackStop, CallbackNull, ReqBytecode, ReqCst, ReqInvalid, Run, Has, Take, TakeNull, GetBytecode, GetCst, GetInvalid, GetNull, CopCount };
const char* const cop_names[] = {"add good", "add broken", "add with warning", "add without name", "add invalid string", "add empty", "callback", "stopping callback", "no callback", "request bytecode", "request cst", "request invalid",
    "run", "has module", "take module", "take into null", "get bytecode", "get cst", "get invalid", "get into null"};

void compiler_sequence(const std::vector<int>& seq) {
    tiro_compiler_t c = tiro_compiler_new(S("m"), Err());
    struct G {
        tiro_compiler_t c;
        ~G() { tiro_compiler_free(c); }
    } guard{c};
    static int messages;
    messages = 0;
    CModel m;
    // keep the default callback from writing to the output of this program
    tiro_compiler_set_message_callback(c, [](const tiro_compiler_message_t*, void*) { return true; }, nullptr, Err());
    int files = 0;
    for (int op : seq) {
        Err e;
        int want = TIRO_OK;
        std::string problem;
        auto file = [&](const char* content, tiro_string_t name) {
            tiro_compiler_add_file(c, name, S(content), e);
        };
        std::string fname = "f" + std::to_string(files);
        switch (op) {
        case AddGood: case AddBad: case AddWarn: case AddEmptyContent: {
            std::string src = op == AddGood ? fmt::format("export func f{}() = 1;", files) : op == AddBad ? "func (" : op == AddWarn ? fmt::format("export func g{}() {{ return 1 / 0; }}", files) : "";
            file(src.c_str(), S(fname));
            if (m.started)
                want = TIRO_ERROR_BAD_STATE;
            else {
                m.contents.push_back(op == AddBad ? "bad" : op == AddWarn ? "warn" : "good");
                ++files;
            }
            break;
        }
        case AddNullName:
            file("", S(""));
            want = m.started ? any_error : TIRO_ERROR_BAD_ARG;
            break;
        case AddInvalid:
            tiro_compiler_add_file(c, S(fname), tiro_string_t{nullptr, 1}, e);
            want = m.started ? any_error : TIRO_ERROR_BAD_ARG;
            break;
        case Callback: case CallbackStop:
            tiro_compiler_set_message_callback(c, op == Callback ? [](const tiro_compiler_message_t* msg, void* ud) { messages += ud == &messages && msg->text.length > 0; return true; }
                                                   : [](const tiro_compiler_message_t*, void* ud) { messages += ud == &messages; return false; }, &messages, e);
            m.cb = true;
            m.cb_stops = op == CallbackStop;
            break;
        case CallbackNull: {
            // the default prints: only without messages
            bool quiet = true;
            for (auto& x : m.contents)
                quiet &= x == "good";
            for (int o : seq)
                quiet &= o != AddBad && o != AddWarn && o != AddNullName;
            if (!quiet)
                break;
            tiro_compiler_set_message_callback(c, nullptr, &messages, e);
            m.cb = m.cb_stops = false;
            break;
        }
        case ReqBytecode: case ReqCst:
            tiro_compiler_request_attachment(c, op == ReqBytecode ? TIRO_ATTACHMENT_BYTECODE : TIRO_ATTACHMENT_CST, e);
            if (m.started)
                want = TIRO_ERROR_BAD_STATE;
            else
                m.requested |= op == ReqBytecode ? 1 : 2;
            break;
        case ReqInvalid:
            tiro_compiler_request_attachment(c, tiro_attachment_t(0), e);
            want = m.started ? any_error : TIRO_ERROR_BAD_ARG;
            break;
        case Run: {
            messages = 0;
            tiro_compiler_run(c, e);
            if (m.started) {
                want = TIRO_ERROR_BAD_STATE;
                break;
            }
            m.started = true;
            bool bad = false, warn = false;
            for (auto& x : m.contents) {
                bad |= x == "bad";
                warn |= x == "warn";
            }
            if (m.contents.empty()) {
                ApiError r = e.get(); // requires at least one source file
                MC_CHECK(!r.ok(), "run: compiles nothing");
                return;
            }
            m.ran = true;
            bool message = bad || warn;
            if (message && m.cb_stops)
                want = any_error;
            else if (bad)
                want = TIRO_ERROR_BAD_SOURCE;
            m.success = !bad;
            m.module = !bad && !(message && m.cb_stops);
            if (m.cb && !m.cb_stops)
                problem = (messages > 0) == message ? "" : fmt::format("{} messages", messages);
            if (m.cb && m.cb_stops)
                problem = messages == (message ? 1 : 0) ? "" : fmt::format("{} messages to a callback that stops", messages);
            break;
        }
        case Has: {
            bool has = tiro_compiler_has_module(c);
            if (has != m.module && !(m.success && m.cb_stops && !m.module))
                problem = has ? "has a module" : "has no module";
            break;
        }
        case Take: {
            tiro_module_t mod = reinterpret_cast<tiro_module_t>(&m);
            tiro_compiler_take_module(c, &mod, e);
            ApiError r = e.get();
            if (!m.module && m.success && m.cb_stops) {
                if (r.ok())
                    tiro_module_free(mod); // not specified
                break;
            }
            if (m.module) {
                MC_CHECK(r.ok(), "take fails: {}", tiro_errc_name(r.code));
                MC_CHECK(mod && mod != reinterpret_cast<tiro_module_t>(&m), "no module");
                XVm* vm = &W->vm;
                (void) vm;
                tiro_module_free(mod);
            } else {
                MC_CHECK(r.code == TIRO_ERROR_BAD_STATE, "take reports {}", tiro_errc_name(r.code));
                MC_CHECK(mod == reinterpret_cast<tiro_module_t>(&m), "the output was modified");
            }
            m.module = false;
            break;
        }
        case TakeNull:
            tiro_compiler_take_module(c, nullptr, e);
            want = TIRO_ERROR_BAD_ARG;
            break;
        case GetBytecode: case GetCst: {
            char* s = reinterpret_cast<char*>(&m);
            tiro_compiler_get_attachment(c, op == GetBytecode ? TIRO_ATTACHMENT_BYTECODE : TIRO_ATTACHMENT_CST, &s, e);
            ApiError r = e.get();
            bool asked = m.requested & (op == GetBytecode ? 1 : 2);
            bool unspecified = asked && m.started && !m.success; // "may not be available if the compilation failed"
            bool got = s != reinterpret_cast<char*>(&m);
            std::string text = got && s ? s : "";
            if (got)
                free(s);
            MC_CHECK(got == r.ok(), "the output does not match the error {}", tiro_errc_name(r.code));
            if (!unspecified) {
                bool want_ok = asked && m.ran && m.success;
                MC_CHECK(r.ok() == want_ok, "attachment: {}", tiro_errc_name(r.code));
                MC_CHECK(!want_ok || !text.empty(), "empty attachment");
            }
            if (!r.ok())
                MC_CHECK(r.code == TIRO_ERROR_BAD_STATE, "attachment: {}", tiro_errc_name(r.code));
            break;
        }
        case GetInvalid: {
            char* s = nullptr;
            tiro_compiler_get_attachment(c, tiro_attachment_t(77), &s, e);
            want = any_error;
            break;
        }
        case GetNull:
            tiro_compiler_get_attachment(c, TIRO_ATTACHMENT_BYTECODE, nullptr, e);
            want = TIRO_ERROR_BAD_ARG;
            break;
        }
        ApiError r = e.get();
        if (want == any_error)
            MC_CHECK(!r.ok(), "{}: no error", cop_names[op]);
        else
            MC_CHECK(r.code == want, "{}: {} instead of {}", cop_names[op], tiro_errc_name(r.code), tiro_errc_name(tiro_errc_t(want)));
        MC_CHECK(problem.empty(), "{}: {}", cop_names[op], problem);
    }
}

void compilers() {
    const int depth = R.thorough ? 5 : 4;
    for (int len = 1; len <= depth; ++len) {
        // blocks with a common prefix
        int fixed = std::min(len, 2);
        all_sequences(CopCount, size_t(fixed), [&](const std::vector<int>& prefix) {
            if (!R.claim())
                return;
            std::string key = "compiler length " + std::to_string(len) + ":";
            for (int o : prefix)
                key += std::string(" ") + cop_names[o] + ";";
            R.exec(key, [&] {
                uint64_t n = 0;
                all_sequences(CopCount, size_t(len - fixed), [&](const std::vector<int>& rest) {
                    std::vector<int> seq = prefix;
                    seq.insert(seq.end(), rest.begin(), rest.end());
                    try {
                        compiler_sequence(seq);
                    } catch (const Failure& f) {
                        std::string s;
                        for (int o : seq)
                            s += std::string(cop_names[o]) + "; ";
                        fail("{}-> {}", s, f.what);
                    }
                    ++n;
                });
                R.states(n);
                R.transitions(n * uint64_t(len));
                R.traces(n);
                R.evaluations(n * uint64_t(len));
                R.nontrivial();
            });
        });
    }
    R.run("compiler null arguments", [] {
        Err e;
        auto expect = [&](int c, const char* what) {
            auto r = e.get();
            MC_CHECK(r.code == c, "{}: {}", what, tiro_errc_name(r.code));
        };
        for (tiro_string_t name : {S(""), tiro_string_t{nullptr, 0}, tiro_string_t{nullptr, 4}}) {
            MC_CHECK(tiro_compiler_new(name, e) == nullptr, "a compiler without a name");
            expect(TIRO_ERROR_BAD_ARG, "new");
            MC_CHECK(tiro_compiler_new(name, nullptr) == nullptr, "a compiler without a name");
        }
        tiro_compiler_free(nullptr);
        tiro_module_free(nullptr);
        tiro_compiler_add_file(nullptr, S("a"), S("b"), e);
        expect(TIRO_ERROR_BAD_ARG, "add_file");
        tiro_compiler_set_message_callback(nullptr, nullptr, nullptr, e);
        expect(TIRO_ERROR_BAD_ARG, "set_message_callback");
        tiro_compiler_request_attachment(nullptr, TIRO_ATTACHMENT_CST, e);
        expect(TIRO_ERROR_BAD_ARG, "request_attachment");
        tiro_compiler_run(nullptr, e);
        expect(TIRO_ERROR_BAD_ARG, "run");
        MC_CHECK(!tiro_compiler_has_module(nullptr), "null has a module");
        tiro_module_t m = nullptr;
        tiro_compiler_take_module(nullptr, &m, e);
        expect(TIRO_ERROR_BAD_ARG, "take_module");
        char* s = nullptr;
        tiro_compiler_get_attachment(nullptr, TIRO_ATTACHMENT_CST, &s, e);
        expect(TIRO_ERROR_BAD_ARG, "get_attachment");
        MC_CHECK(!m && !s, "outputs were modified");
        R.evaluations(12);
        R.states(12);
        R.nontrivial();
    });
}

// ---- Virtual machines and errors ----

void machines() {
    std::vector<size_t> pages = {0, 1, 2, 3};
    for (int k = 8; k <= 26; ++k)
        for (int d = -1; d <= 1; ++d)
            pages.push_back((size_t(1) << k) + size_t(d));
    for (size_t p : {size_t(1) << 32, (size_t(1) << 32) + (1 << 16), size_t(1) << 62, size_t(1) << 63, SIZE_MAX})
        pages.push_back(p);
    for (size_t page : pages)
        R.run("vm page size " + std::to_string(page), [&] {
            for (size_t heap : {size_t(0), size_t(1), size_t(64) << 20, SIZE_MAX})
                for (int ud = 0; ud < 2; ++ud) {
                    tiro_vm_settings_t s;
                    memset(&s, 0xff, sizeof(s));
                    tiro_vm_settings_init(&s);
                    MC_CHECK(s.page_size == 0 && s.max_heap_size == 0 && !s.userdata && !s.print_stdout && !s.enable_panic_stack_trace, "wrong defaults");
                    s.page_size = page;
                    s.max_heap_size = heap;
                    s.userdata = ud ? &s : nullptr;
                    bool valid = page == 0 || (page >= (1 << 16) && page <= (1 << 24) && (page & (page - 1)) == 0);
                    Err e;
                    tiro_vm_t vm = tiro_vm_new(&s, e);
                    ApiError r = e.get();
                    MC_CHECK((vm == nullptr) == !r.ok(), "the result does not match the error");
                    if (!valid)
                        MC_CHECK(!vm, "an invalid page size is accepted");
                    else if (heap != 1)
                        MC_CHECK(vm, "no machine: {} {}", tiro_errc_name(r.code), r.details);
                    if (!vm)
                        continue;
                    struct G {
                        tiro_vm_t v;
                        ~G() { tiro_vm_free(v); }
                    } g{vm};
                    MC_CHECK(tiro_vm_userdata(vm) == s.userdata, "wrong userdata");
                    MC_CHECK(page ? tiro_vm_page_size(vm) == page : tiro_vm_page_size(vm) > 0, "wrong page size {}", tiro_vm_page_size(vm));
                    MC_CHECK(heap ? tiro_vm_max_heap_size(vm) == heap : tiro_vm_max_heap_size(vm) > 0, "wrong heap size {}", tiro_vm_max_heap_size(vm));
                    MC_CHECK(!tiro_vm_has_ready(vm), "a new machine has something to run");
                    tiro_vm_run_ready(vm, Err());
                    if (heap == 1)
                        continue;
                    tiro_vm_load_std(vm, Err());
                    tiro_vm_load_std(vm, e);
                    MC_CHECK(e.get().code == TIRO_ERROR_MODULE_EXISTS, "the standard library is loaded twice");
                    H x(vm);
                    tiro_vm_get_export(vm, S("std"), S("print"), x, Err());
                    R.evaluations();
                    R.states();
                    R.nontrivial();
                }
        });
    R.run("vm null arguments", [] {
        Err e;
        auto expect = [&](int c, const char* what) {
            auto r = e.get();
            MC_CHECK(r.code == c, "{}: {}", what, tiro_errc_name(r.code));
        };
        tiro_vm_settings_init(nullptr);
        tiro_vm_t vm = tiro_vm_new(nullptr, e);
        MC_CHECK(vm, "no machine with default settings");
        struct G {
            tiro_vm_t v;
            ~G() { tiro_vm_free(v); }
        } g{vm};
        tiro_vm_free(nullptr);
        MC_CHECK(tiro_vm_userdata(vm) == nullptr && tiro_vm_userdata(nullptr) == nullptr, "userdata");
        MC_CHECK(tiro_vm_page_size(nullptr) == 0 && tiro_vm_max_heap_size(nullptr) == 0, "sizes");
        tiro_vm_load_std(nullptr, e);
        expect(TIRO_ERROR_BAD_ARG, "load_std");
        tiro_vm_load_bytecode(nullptr, nullptr, e);
        expect(TIRO_ERROR_BAD_ARG, "load_bytecode");
        tiro_vm_load_bytecode(vm, nullptr, e);
        expect(TIRO_ERROR_BAD_ARG, "load_bytecode");
        {
            auto c = compile("export func f() = 1;", "m");
            tiro_vm_load_bytecode(nullptr, c.module, e);
            expect(TIRO_ERROR_BAD_ARG, "load_bytecode");
            tiro_vm_load_bytecode(vm, c.module, e);
            expect(TIRO_OK, "load_bytecode");
            tiro_vm_load_bytecode(vm, c.module, e); // not consumed
            expect(TIRO_ERROR_MODULE_EXISTS, "load_bytecode again");
        }
        tiro_vm_run_ready(nullptr, e);
        expect(TIRO_ERROR_BAD_ARG, "run_ready");
        MC_CHECK(!tiro_vm_has_ready(nullptr), "null has something to run");
        MC_CHECK(tiro_global_new(nullptr, e) == nullptr, "a handle without a machine");
        expect(TIRO_ERROR_BAD_ARG, "global_new");
        tiro_global_free(nullptr);
        MC_CHECK(tiro_global_get_vm(nullptr) == nullptr, "get_vm");
        tiro_handle_t h = tiro_global_new(vm, e);
        expect(TIRO_OK, "global_new");
        MC_CHECK(tiro_global_get_vm(h) == vm, "get_vm");
        MC_CHECK(tiro_value_kind(vm, h) == TIRO_KIND_NULL, "a handle is not initialized");
        tiro_global_free(h);
        MC_CHECK(tiro_async_frame_token(nullptr, e) == nullptr, "token");
        expect(TIRO_ERROR_BAD_ARG, "frame_token");
        tiro_async_frame_yield(nullptr, e);
        expect(TIRO_ERROR_BAD_ARG, "frame_yield");
        tiro_async_token_free(nullptr);
        tiro_resumable_frame_set_state(nullptr, 1, e);
        expect(TIRO_ERROR_BAD_ARG, "set_state");
        tiro_handle_t out = tiro_global_new(vm, e);
        tiro_resumable_frame_invoke_return(nullptr, out, e);
        expect(TIRO_ERROR_BAD_ARG, "invoke_return");
        tiro_global_free(out);
        R.evaluations(25);
        R.states(25);
        R.nontrivial();
    });
    R.run("names of errors and kinds", [] {
        std::map<std::string, int> names, messages, kinds;
        std::vector<int> codes = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 1000};
        for (int c = -2; c <= 1002; ++c) {
            const char *n = tiro_errc_name(tiro_errc_t(c)), *m = tiro_errc_message(tiro_errc_t(c));
            MC_CHECK(n && *n && m && *m, "no name for {}", c);
            bool known = std::find(codes.begin(), codes.end(), c) != codes.end();
            if (known) {
                MC_CHECK(names.insert({n, c}).second, "name {} is used twice", n);
                MC_CHECK(messages.insert({m, c}).second, "message {} is used twice", m);
            }
        }
        const char* expected[] = {"OK", "ERROR_BAD_STATE", "ERROR_BAD_ARG", "ERROR_BAD_SOURCE", "ERROR_BAD_TYPE", "ERROR_BAD_KEY", "ERROR_MODULE_EXISTS", "ERROR_MODULE_NOT_FOUND", "ERROR_EXPORT_NOT_FOUND", "ERROR_OUT_OF_BOUNDS", "ERROR_ALLOC"};
        for (int c = 0; c <= 10; ++c)
            MC_CHECK(std::string(tiro_errc_name(tiro_errc_t(c))) == expected[c], "wrong name of {}", c);
        for (int k = -2; k <= 1002; ++k) {
            const char* n = tiro_kind_str(tiro_kind_t(k));
            MC_CHECK(n && *n, "no name for kind {}", k);
            if ((k >= 0 && k <= 16) || k == 1000 || k == 1001)
                MC_CHECK(kinds.insert({n, k}).second, "kind {} is used twice", n);
        }
        for (int s = -1; s < 5; ++s)
            MC_CHECK(tiro_severity_str(tiro_severity_t(s)) != nullptr, "no severity");
        MC_CHECK(std::string(tiro_severity_str(TIRO_SEVERITY_ERROR)) != tiro_severity_str(TIRO_SEVERITY_WARNING), "severities");
        tiro_error_free(nullptr);
        MC_CHECK(tiro_error_errc(nullptr) == TIRO_OK, "null error");
        MC_CHECK(std::string(tiro_error_name(nullptr)) == "OK" && tiro_error_message(nullptr) && tiro_error_details(nullptr), "null error");
        R.evaluations(2000);
        R.states(2000);
        R.nontrivial();
    });
}

} // namespace

void mc::enumerate() {
    World world;
    W = &world;
    direct();
    frames();
    compilers();
    machines();
    W = nullptr;
}
