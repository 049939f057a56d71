// C08: arrays, tuples, records and buffers against model sequences and records.
#include <algorithm>
#include <cstring>
#include <map>
#include <memory>

#include "common/driver.hpp"

using namespace mc;

const char* const mc::check_id = "C08";

namespace {

// ---- Model ----

struct Obj;
struct Val {
    enum Kind { Null, Int, Str, Ref } kind = Null;
    int64_t i = 0;
    Obj* o = nullptr;
    std::string s;
};

struct Obj {
    enum Kind { Array, Tuple, Record, Buffer } kind;
    std::vector<Val> items;
    std::vector<std::string> keys; // Record
};

Val I(int64_t i) {
    Val v;
    v.kind = Val::Int;
    v.i = i;
    return v;
}
Val R_(Obj* o) {
    Val v;
    v.kind = Val::Ref;
    v.o = o;
    return v;
}

std::string dump(const Val& v, int depth = 0) {
    if (depth > 6)
        return "...";
    switch (v.kind) {
    case Val::Null:
        return "null";
    case Val::Int:
        return std::to_string(v.i);
    case Val::Str:
        return quote(v.s);
    case Val::Ref:
        break;
    }
    std::string r;
    auto& o = *v.o;
    if (o.kind == Obj::Buffer) {
        std::string bytes;
        for (auto& b : o.items)
            bytes += char(b.i);
        return "buffer(" + quote(bytes) + ")";
    }
    if (o.kind == Obj::Record) {
        std::vector<std::string> fields;
        for (size_t i = 0; i < o.items.size(); ++i)
            fields.push_back((depth + 1 > 6 ? "..." : quote(o.keys[i])) + "=" + dump(o.items[i], depth + 1));
        std::sort(fields.begin(), fields.end());
        for (auto& f : fields)
            r += (r.empty() ? "" : ",") + f;
        return "(:" + r + ")";
    }
    for (size_t i = 0; i < o.items.size(); ++i)
        r += (i ? "," : "") + dump(o.items[i], depth + 1);
    return o.kind == Obj::Array ? "[" + r + "]" : "(" + r + ")";
}

const char* const program = R"(
import std;
import h;

export func append(a, v) { return a.append(v); }
export func clear(a) { return a.clear(); }
export func size(a) { return a.size(); }
export func get(a, i) { return a[i]; }
export func opt(a, i) { return a?[i]; }
export func put(a, i, v) { return a[i] = v; }
export func inc(a, i) { return a[i] += 1; }
export func set_x(r, v) { return r.x = v; }
export func set_y(r, v) { return r.y = v; }
export func get_x(r) { return r.x; }
export func get_z(r) { return r.z; }
export func set_z(r, v) { return r.z = v; }
export func opt_z(r) { return r?.z; }
export func inc_x(r) { return r.x += 1; }
export func swap(a, i, j) { (a[i], a[j]) = (a[j], a[i]); }
export func same(a, b) { return a == b; }
export func find(a, v) { var n = 0; for x in a { if (x == v) { return n; } n += 1; } return -1; }
export func each(a) { const r = []; for x in a { r.append(x); } return r; }
export func fields(t) { return [t.0, t.1]; }
export func put0(t, v) { return t.0 = v; }
export func put1(t, v) { return t.1 = v; }
export func put2(t, v) { return t.2 = v; }
export func get2(t) { return t.2; }
export func buffer(n) { return std.new_buffer(n); }
export func many(a, n, first) { for var i = 0; i < n; i += 1 { a.append(first + i); } }
export func sum(a) { var s = 0; for var i = 0; i < a.size(); i += 1 { s = (s * 31 + a[i]) % 1000003; } return s; }
export func fill(n) { const a = []; for var i = 0; i < n; i += 1 { a.append(i); } return a; }
)";

struct Bench {
    Vm vm;
    Bench()
        : vm() {
        vm.load_source(program, "p");
    }
    template<typename... A>
    Outcome call(std::string_view f, A&&... a) {
        tiro_handle_t hs[] = {nullptr, static_cast<tiro_handle_t>(a)...};
        H args(vm);
        tiro_make_tuple(vm, sizeof...(a), args, Err());
        for (size_t i = 0; i < sizeof...(a); ++i)
            tiro_tuple_set(vm, args, i, hs[i + 1], Err());
        return vm.call("p", f, args);
    }
};

void expect(const std::string& what, const Outcome& got, const std::string& value) {
    MC_CHECK(got.ok && got.value == value, "{}: expected value {}, observed {}", what, value, got.str());
}
void expect_panic(const std::string& what, const Outcome& got) {
    MC_CHECK(!got.ok, "{}: expected a panic, observed {}", what, got.str());
}
void expect_code(const std::string& what, Err& e, tiro_errc_t code) {
    auto r = e.get();
    MC_CHECK(r.code == code, "{}: expected error {}, observed {} {}", what, int(code), int(r.code), r.message);
}

// ---- Sequences of operations on several objects that may contain each other ----

struct World {
    Bench& b;
    std::unique_ptr<Obj> objs[4]; // two arrays, a tuple and a record
    std::vector<H> hs;
    int64_t fresh = 10;
    World(Bench& bench)
        : b(bench) {
        for (int i = 0; i < 4; ++i)
            hs.emplace_back(b.vm);
        tiro_make_array(b.vm, 0, hs[0], Err());
        tiro_make_array(b.vm, 3, hs[1], Err());
        tiro_make_tuple(b.vm, 2, hs[2], Err());
        H keys(b.vm), k(b.vm);
        tiro_make_array(b.vm, 0, keys, Err());
        for (auto n : {"x", "y"}) {
            tiro_make_string(b.vm, S(n), k, Err());
            tiro_array_push(b.vm, keys, k, Err());
        }
        tiro_make_record_schema(b.vm, keys, k, Err());
        tiro_make_record(b.vm, k, hs[3], Err());
        objs[0].reset(new Obj{Obj::Array, {}, {}});
        objs[1].reset(new Obj{Obj::Array, {}, {}});
        objs[2].reset(new Obj{Obj::Tuple, {{}, {}}, {}});
        objs[3].reset(new Obj{Obj::Record, {{}, {}}, {"x", "y"}});
    }
    std::string state() const {
        std::string r;
        for (auto& o : objs)
            r += dump(R_(o.get())) + " ";
        return r;
    }
    std::string observed() {
        std::string r;
        for (auto& h : hs)
            r += b.vm.dump(h) + " ";
        return r;
    }
};

using Op = std::pair<std::string, std::function<void(World&)>>;

std::vector<Op> operations() {
    std::vector<Op> r;
    auto add = [&](std::string name, std::function<void(World&)> f) { r.emplace_back(name, [name, f](World& w) { f(w); }); };
    for (int x = 0; x < 2; ++x) {
        const std::string X = x ? "B" : "A";
        add(X + ".append(n)", [x](World& w) {
            auto v = ++w.fresh;
            expect("append", w.b.call("append", w.hs[size_t(x)], make_int(w.b.vm, v)), "null");
            w.objs[x]->items.push_back(I(v));
        });
        for (int y : {0, 1, 2})
            add(X + ".append(" + "ABT"[y] + ")", [x, y](World& w) {
                expect("append", w.b.call("append", w.hs[size_t(x)], w.hs[size_t(y)]), "null");
                w.objs[x]->items.push_back(R_(w.objs[y].get()));
            });
        add("push(" + X + ")", [x](World& w) {
            auto v = ++w.fresh;
            tiro_array_push(w.b.vm, w.hs[size_t(x)], make_int(w.b.vm, v), Err());
            w.objs[x]->items.push_back(I(v));
        });
        add("pop(" + X + ")", [x](World& w) {
            Err e;
            tiro_array_pop(w.b.vm, w.hs[size_t(x)], e);
            auto r = e.get();
            auto& items = w.objs[x]->items;
            if (items.empty()) {
                MC_CHECK(r.ok() || r.code == TIRO_ERROR_OUT_OF_BOUNDS, "pop of an empty array: {}", r.message);
            } else {
                MC_CHECK(r.ok(), "pop: {}", r.message);
                items.pop_back();
            }
        });
        add(X + ".clear()", [x](World& w) {
            expect("clear", w.b.call("clear", w.hs[size_t(x)]), "null");
            w.objs[x]->items.clear();
        });
        for (int at : {0, 1, -1, -2}) { // -1: last, -2: size
            auto index = [x, at](World& w) { return at >= 0 ? int64_t(at) : int64_t(w.objs[x]->items.size()) - (at == -1); };
            const std::string n = at == -1 ? "last" : at == -2 ? "size" : std::to_string(at);
            auto in = [x, index](World& w) { return index(w) >= 0 && index(w) < int64_t(w.objs[x]->items.size()); };
            add(X + "[" + n + "] = n", [=](World& w) {
                auto v = ++w.fresh;
                auto got = w.b.call("put", w.hs[size_t(x)], make_int(w.b.vm, index(w)), make_int(w.b.vm, v));
                if (!in(w))
                    return expect_panic("assignment", got);
                expect("assignment", got, std::to_string(v));
                w.objs[x]->items[size_t(index(w))] = I(v);
            });
            if (at == 1)
                continue;
            add(X + "[" + n + "] += 1", [=](World& w) {
                auto got = w.b.call("inc", w.hs[size_t(x)], make_int(w.b.vm, index(w)));
                if (!in(w) || w.objs[x]->items[size_t(index(w))].kind != Val::Int)
                    return expect_panic("increment", got);
                auto& v = w.objs[x]->items[size_t(index(w))];
                v.i++;
                expect("increment", got, std::to_string(v.i));
            });
            add("set(" + X + ", " + n + ", other)", [=](World& w) {
                Err e;
                tiro_array_set(w.b.vm, w.hs[size_t(x)], size_t(index(w)), w.hs[size_t(!x)], e);
                if (!in(w))
                    return expect_code("set", e, TIRO_ERROR_OUT_OF_BOUNDS);
                expect_code("set", e, TIRO_OK);
                w.objs[x]->items[size_t(index(w))] = R_(w.objs[!x].get());
            });
        }
        add("swap(" + X + ", 0, 1)", [x](World& w) {
            auto got = w.b.call("swap", w.hs[size_t(x)], make_int(w.b.vm, 0), make_int(w.b.vm, 1));
            auto& items = w.objs[x]->items;
            if (items.size() < 2)
                return expect_panic("swap", got);
            expect("swap", got, "null");
            std::swap(items[0], items[1]);
        });
    }
    for (int at : {0, 1, 2}) {
        add("T[" + std::to_string(at) + "] = A", [at](World& w) {
            auto got = w.b.call("put", w.hs[2], make_int(w.b.vm, at), w.hs[0]);
            if (at == 2)
                return expect_panic("assignment", got);
            MC_CHECK(got.ok, "assignment: {}", got.str());
            w.objs[2]->items[size_t(at)] = R_(w.objs[0].get());
        });
        add("T." + std::to_string(at) + " = n", [at](World& w) {
            auto v = ++w.fresh;
            auto got = w.b.call("put" + std::to_string(at), w.hs[2], make_int(w.b.vm, v));
            if (at == 2)
                return expect_panic("assignment", got);
            expect("assignment", got, std::to_string(v));
            w.objs[2]->items[size_t(at)] = I(v);
        });
        add("set(T, " + std::to_string(at) + ", R)", [at](World& w) {
            Err e;
            tiro_tuple_set(w.b.vm, w.hs[2], size_t(at), w.hs[3], e);
            expect_code("set", e, at == 2 ? TIRO_ERROR_OUT_OF_BOUNDS : TIRO_OK);
            if (at < 2)
                w.objs[2]->items[size_t(at)] = R_(w.objs[3].get());
        });
        const std::string key(1, "xyz"[at]);
        add("R." + key + " = n", [at, key](World& w) {
            auto v = ++w.fresh;
            auto got = w.b.call("set_" + key, w.hs[3], make_int(w.b.vm, v));
            if (at == 2)
                return expect_panic("assignment", got);
            expect("assignment", got, std::to_string(v));
            w.objs[3]->items[size_t(at)] = I(v);
        });
        add("set(R, " + key + ", B)", [at, key](World& w) {
            Err e;
            tiro_record_set(w.b.vm, w.hs[3], make_str(w.b.vm, key), w.hs[1], e);
            expect_code("set", e, at == 2 ? TIRO_ERROR_BAD_KEY : TIRO_OK);
            if (at < 2)
                w.objs[3]->items[size_t(at)] = R_(w.objs[1].get());
        });
    }
    add("R.x += 1", [](World& w) {
        auto got = w.b.call("inc_x", w.hs[3]);
        auto& v = w.objs[3]->items[0];
        if (v.kind != Val::Int)
            return expect_panic("increment", got);
        v.i++;
        expect("increment", got, std::to_string(v.i));
    });
    return r;
}

// Reads everything in all ways.
void observe(World& w) {
    auto& vm = w.b.vm;
    MC_CHECK(w.observed() == w.state(), "expected {}\nobserved {}", w.state(), w.observed());
    for (int x = 0; x < 3; ++x) {
        auto& h = w.hs[size_t(x)];
        auto& items = w.objs[x]->items;
        expect("size", w.b.call("size", h), std::to_string(items.size()));
        const size_t api = x < 2 ? tiro_array_size(vm, h) : tiro_tuple_size(vm, h);
        MC_CHECK(api == items.size(), "size: expected {}, observed {}", items.size(), api);
        for (int64_t i = -1; i <= int64_t(items.size()); ++i) {
            const bool in = i >= 0 && i < int64_t(items.size());
            auto got = w.b.call("get", h, make_int(vm, i));
            if (!in)
                expect_panic("get", got);
            else
                expect("get", got, dump(items[size_t(i)]));
            H out = make_str(vm, "before");
            Err e;
            x < 2 ? tiro_array_get(vm, h, size_t(i), out, e) : tiro_tuple_get(vm, h, size_t(i), out, e);
            expect_code("get", e, in ? TIRO_OK : TIRO_ERROR_OUT_OF_BOUNDS);
            MC_CHECK(vm.dump(out) == (in ? dump(items[size_t(i)]) : "\"before\""), "get({}): {}", i, vm.dump(out));
            // elements are references to the same object
            if (in && items[size_t(i)].kind == Val::Ref)
                for (int y = 0; y < 4; ++y)
                    expect("identity", w.b.call("same", out, w.hs[size_t(y)]), items[size_t(i)].o == w.objs[y].get() ? "true" : "false");
        }
        Obj copy{Obj::Array, items, {}};
        expect("iteration", w.b.call("each", h), dump(R_(&copy)));
    }
    auto& r = w.hs[3];
    expect("field", w.b.call("get_x", r), dump(w.objs[3]->items[0]));
    expect_panic("field", w.b.call("get_z", r));
    for (int k = 0; k < 3; ++k) {
        Err e;
        H out = make_str(vm, "before");
        tiro_record_get(vm, r, make_str(vm, std::string(1, "xyz"[k])), out, e);
        expect_code("record get", e, k == 2 ? TIRO_ERROR_BAD_KEY : TIRO_OK);
        MC_CHECK(vm.dump(out) == (k < 2 ? dump(w.objs[3]->items[size_t(k)]) : "\"before\""), "record get: {}", vm.dump(out));
    }
}

#ifdef MC_SAN
const bool sanitized = true;
#else
const bool sanitized = false;
#endif

void graphs() {
    const auto ops = operations();
    const size_t n = ops.size();
    const size_t depth = sanitized && !R.thorough ? 2 : 3;
    auto run_group = [&](const std::vector<int>& prefix) {
        if (!R.claim())
            return;
        auto show_seq = [&](int last) {
            std::string s;
            for (int o : prefix)
                s += ops[size_t(o)].first + "; ";
            return s + (last >= 0 ? ops[size_t(last)].first : "");
        };
        R.exec_batch(n, [&](size_t i) { return "graph " + show_seq(int(i)); }, [&](size_t begin, size_t end) {
            Bench b;
            for (size_t i = begin; i < end; ++i) {
                R.sub(i);
                World w(b);
                try {
                    for (int o : prefix)
                        ops[size_t(o)].second(w);
                    ops[i].second(w);
                    observe(w);
                } catch (const Failure& e) {
                    R.sub_fail(i, show_seq(int(i)) + "\n" + e.what);
                }
                R.states(1);
                R.transitions(prefix.size() + 1);
                R.traces(1);
                R.evaluations(1);
                R.nontrivial();
                R.outcome(w.state());
                if (R.want_sample())
                    R.sample(show_seq(int(i)) + " => " + w.state());
            }
        });
    };
    for (size_t len = 0; len < depth; ++len)
        all_sequences(n, len, run_group);
    if (R.thorough && !sanitized) { // with modifications of one array only
        std::vector<int> most;
        for (size_t i = 0; i < n; ++i)
            if (ops[i].first[0] != 'B' && ops[i].first.find("(B") == std::string::npos)
                most.push_back(int(i));
        all_sequences(most.size(), 3, [&](const std::vector<int>& seq) { run_group({most[size_t(seq[0])], most[size_t(seq[1])], most[size_t(seq[2])]}); });
    }
    // Longer sequences over the operations of one array
    std::vector<int> small;
    for (size_t i = 0; i < n; ++i)
        for (auto name : {"A.append(n)", "push(A)", "pop(A)", "A.clear()", "A[last] = n", "swap(A, 0, 1)", "A.append(A)", "set(A, size, other)"})
            if (ops[i].first == name)
                small.push_back(int(i));
    const size_t long_depth = (R.thorough && !sanitized ? 6 : 5) - sanitized;
    all_sequences(small.size(), long_depth - 1, [&](const std::vector<int>& seq) {
        std::vector<int> p;
        for (int s : seq)
            p.push_back(small[size_t(s)]);
        run_group(p);
    });
}

// ---- Growth ----

void check_ints(Bench& b, tiro_handle_t a, const std::vector<int64_t>& model, bool all) {
    auto& vm = b.vm;
    MC_CHECK(tiro_array_size(vm, a) == model.size(), "size: expected {}, observed {}", model.size(), tiro_array_size(vm, a));
    H e(vm);
    auto one = [&](size_t i) {
        tiro_array_get(vm, a, i, e, Err());
        MC_CHECK(tiro_integer_value(vm, e) == model[i], "element {}: expected {}, observed {}", i, model[i], vm.dump(e));
    };
    if (all)
        for (size_t i = 0; i < model.size(); ++i)
            one(i);
    else if (!model.empty())
        for (size_t i : {size_t(0), model.size() / 2, model.size() - 1})
            one(i);
    for (size_t i : {model.size(), model.size() + 1, size_t(1) << 32, std::numeric_limits<size_t>::max(), size_t(1) << 63}) {
        Err err;
        tiro_array_get(vm, a, i, e, err);
        expect_code("get", err, TIRO_ERROR_OUT_OF_BOUNDS);
        Err err2;
        tiro_array_set(vm, a, i, e, err2);
        expect_code("set", err2, TIRO_ERROR_OUT_OF_BOUNDS);
    }
}

std::string checksum(const std::vector<int64_t>& m) {
    uint64_t s = 0;
    for (auto v : m)
        s = (s * 31 + uint64_t(v)) % 1000003;
    return std::to_string(int64_t(s));
}

void growth() {
    std::vector<size_t> sizes;
    for (size_t i = 0; i <= 18; ++i)
        sizes.push_back(i);
    for (size_t p = 32; p <= (R.thorough ? 65536u : sanitized ? 512u : 4096u); p *= 2)
        for (size_t d : {p - 1, p, p + 1})
            sizes.push_back(d);
    const std::vector<size_t> capacities = {0, 1, 7, 8, 9, 100, 4096};
    // n elements, some removed, some more appended
    for (size_t cap : capacities)
        for (size_t n : sizes)
            R.run(fmt::format("growth capacity {} size {}", cap, n), [&] {
                Bench b;
                for (size_t k : {size_t(0), size_t(1), n / 2, n - 1, n, n + 1})
                    for (size_t m : {0u, 1u, 2u, 9u, 40u}) {
                        if (k > n + 1)
                            continue;
                        H a(b.vm);
                        tiro_make_array(b.vm, cap, a, Err());
                        std::vector<int64_t> model;
                        if (n % 2) {
                            b.call("many", a, make_int(b.vm, int64_t(n)), make_int(b.vm, 0));
                        } else {
                            for (size_t i = 0; i < n; ++i)
                                tiro_array_push(b.vm, a, make_int(b.vm, int64_t(i)), Err());
                        }
                        for (size_t i = 0; i < n; ++i)
                            model.push_back(int64_t(i));
                        check_ints(b, a, model, false);
                        if (k == n + 1) {
                            k % 2 ? tiro_array_clear(b.vm, a, Err()) : (void) b.call("clear", a);
                            model.clear();
                        } else {
                            for (size_t i = 0; i < k; ++i) {
                                tiro_array_pop(b.vm, a, Err());
                                model.pop_back();
                            }
                        }
                        check_ints(b, a, model, false);
                        b.call("many", a, make_int(b.vm, int64_t(m)), make_int(b.vm, 1000000));
                        for (size_t i = 0; i < m; ++i)
                            model.push_back(int64_t(1000000 + i));
                        check_ints(b, a, model, true);
                        expect("checksum", b.call("sum", a), checksum(model));
                        R.states(1);
                        R.transitions(n + k + m);
                        R.evaluations(1);
                        R.traces(1);
                        R.nontrivial();
                        R.outcome(checksum(model));
                    }
            });
    // every size up to a bound, one by one
    R.run("growth step by step", [&] {
        Bench b;
        H a(b.vm);
        tiro_make_array(b.vm, 0, a, Err());
        std::vector<int64_t> model;
        for (size_t i = 0; i < (R.thorough ? 5000u : 1200u); ++i) {
            i % 2 ? (void) b.call("append", a, make_int(b.vm, int64_t(i * 7))) : tiro_array_push(b.vm, a, make_int(b.vm, int64_t(i * 7)), Err());
            model.push_back(int64_t(i * 7));
            check_ints(b, a, model, i < 300 || i % 64 == 0);
            R.states(1);
            R.evaluations(1);
        }
        while (!model.empty()) {
            model.pop_back();
            tiro_array_pop(b.vm, a, Err());
            check_ints(b, a, model, model.size() % 64 == 0);
            R.states(1);
            R.evaluations(1);
        }
    });
}

// ---- Literals and host constructors of every size ----

void literals() {
    std::vector<size_t> sizes;
    for (size_t i = 0; i <= 70; ++i)
        sizes.push_back(i);
    for (size_t p : {127u, 128u, 129u, 255u, 256u, 257u, 511u, 512u, 513u, 1000u, 2000u, 4096u})
        sizes.push_back(p);
    if (R.thorough)
        for (size_t p : {8192u, 16382u, 16383u, 16384u, 16385u, 30000u, 65535u, 65536u, 65537u})
            sizes.push_back(p);
    for (size_t n : sizes)
        for (int kind = 0; kind < 5; ++kind) // array, tuple, record, record with reverse order, host record
            R.run(fmt::format("literal kind {} size {}", kind, n), [&] {
                Bench b;
                Obj o{kind == 0 ? Obj::Array : kind == 1 ? Obj::Tuple : Obj::Record, {}, {}};
                std::string src;
                std::vector<std::string> parts;
                for (size_t i = 0; i < n; ++i) {
                    int64_t v = int64_t(i) * 3 - 20;
                    o.items.push_back(I(v));
                    auto key = fmt::format("k{}", (i * 7919) % 100003);
                    o.keys.push_back(key);
                    parts.push_back(kind >= 2 ? key + ": " + std::to_string(v) : std::to_string(v));
                }
                if (kind == 3)
                    std::reverse(parts.begin(), parts.end());
                for (auto& p : parts)
                    src += (src.empty() ? "" : ", ") + p;
                if (kind == 0)
                    src = "[" + src + "]";
                else if (kind == 1)
                    src = "(" + src + (n == 1 ? "," : "") + ")";
                else
                    src = n ? "(" + src + ")" : "(:)";
                H v(b.vm);
                if (kind == 4) {
                    H keys(b.vm), k(b.vm);
                    tiro_make_array(b.vm, 0, keys, Err());
                    for (auto& key : o.keys)
                        tiro_array_push(b.vm, keys, make_str(b.vm, key), Err());
                    tiro_make_record_schema(b.vm, keys, k, Err());
                    tiro_make_record(b.vm, k, v, Err());
                    // the schema keeps its own keys
                    tiro_array_clear(b.vm, keys, Err());
                    H v2(b.vm);
                    tiro_make_record(b.vm, k, v2, Err());
                    for (size_t i = 0; i < n; ++i) {
                        H e(b.vm);
                        tiro_record_get(b.vm, v, make_str(b.vm, o.keys[i]), e, Err());
                        MC_CHECK(b.vm.dump(e) == "null", "initial value {}", b.vm.dump(e));
                        tiro_record_set(b.vm, v, make_str(b.vm, o.keys[i]), make_int(b.vm, o.items[i].i), Err());
                    }
                    Obj empty = o;
                    for (auto& i : empty.items)
                        i = Val();
                    MC_CHECK(b.vm.dump(v2) == dump(R_(&empty)), "another record of the same schema changed: {}", b.vm.dump(v2));
                } else {
                    auto compiled = compile("export func f() { return " + src + "; }", "lit");
                    if (n > 10000 && compiled.error.code == TIRO_ERROR_BAD_SOURCE && !compiled.messages.empty()) {
                        R.states(1);
                        R.evaluations(1);
                        R.outcome("rejected: too large");
                        return;
                    }
                    MC_CHECK(compiled.error.ok(), "{}", compiled.describe().substr(0, 500));
                    auto loaded = b.vm.load(compiled.module);
                    MC_CHECK(loaded.ok(), "{}", loaded.message + loaded.details);
                    Outcome got = b.vm.call("lit", "f");
                    expect("literal", got, dump(R_(&o)));
                    // every evaluation makes a new object
                    b.vm.load_source("import lit; export func f() { const a = lit.f(); const b = lit.f(); return a == b; }", "two");
                    if (kind != 1 || n > 0)
                        expect("new object", b.vm.call("two", "f"), "false");
                }
                R.states(1);
                R.transitions(n);
                R.evaluations(1);
                R.traces(1);
                R.nontrivial();
                R.outcome(dump(R_(&o)).substr(0, 100));
            });
    // tuples and buffers made by the host
    for (size_t n : sizes)
        R.run(fmt::format("host tuple and buffer size {}", n), [&] {
            Bench b;
            H t(b.vm), e(b.vm);
            tiro_make_tuple(b.vm, n, t, Err());
            MC_CHECK(tiro_tuple_size(b.vm, t) == n, "size");
            for (size_t i = 0; i < n; ++i) {
                tiro_tuple_get(b.vm, t, i, e, Err());
                MC_CHECK(b.vm.dump(e) == "null", "element {} is {}", i, b.vm.dump(e));
            }
            for (size_t i = 0; i < n; ++i)
                tiro_tuple_set(b.vm, t, i, make_int(b.vm, int64_t(i)), Err());
            Obj o{Obj::Tuple, {}, {}};
            for (size_t i = 0; i < n; ++i)
                o.items.push_back(I(int64_t(i)));
            MC_CHECK(b.vm.dump(t) == dump(R_(&o)), "{}", b.vm.dump(t));
            for (int host = 0; host < 2; ++host) {
                H buf(b.vm);
                if (host) {
                    tiro_make_buffer(b.vm, n, buf, Err());
                } else {
                    b.vm.load_source("import std; export func f(a, n) { a.append(std.new_buffer(n)); }", "buf");
                    H a(b.vm), args(b.vm);
                    tiro_make_array(b.vm, 0, a, Err());
                    tiro_make_tuple(b.vm, 2, args, Err());
                    tiro_tuple_set(b.vm, args, 0, a, Err());
                    tiro_tuple_set(b.vm, args, 1, make_int(b.vm, int64_t(n)), Err());
                    auto got = b.vm.call("buf", "f", args);
                    MC_CHECK(got.ok, "{}", got.str());
                    tiro_array_get(b.vm, a, 0, buf, Err());
                }
                MC_CHECK(tiro_buffer_size(b.vm, buf) == n, "size");
                expect("size", b.call("size", buf), std::to_string(n));
                for (size_t i = 0; i < n; ++i)
                    MC_CHECK(tiro_buffer_data(b.vm, buf)[i] == 0, "byte {} is {}", i, int(tiro_buffer_data(b.vm, buf)[i]));
                for (size_t i = 0; i < n; ++i) {
                    if (i % 2)
                        tiro_buffer_data(b.vm, buf)[i] = (unsigned char) (i * 37);
                    else
                        expect("byte", b.call("put", buf, make_int(b.vm, int64_t(i)), make_int(b.vm, int64_t(i * 37 % 256))), std::to_string(i * 37 % 256));
                }
                for (size_t i = 0; i < n; ++i) {
                    MC_CHECK(tiro_buffer_data(b.vm, buf)[i] == (i * 37) % 256, "byte {}", i);
                    expect("byte", b.call("get", buf, make_int(b.vm, int64_t(i))), std::to_string(i * 37 % 256));
                }
                expect_panic("byte", b.call("get", buf, make_int(b.vm, int64_t(n))));
                expect_panic("byte", b.call("put", buf, make_int(b.vm, int64_t(n)), make_int(b.vm, 1)));
            }
            R.states(3);
            R.transitions(4 * n);
            R.evaluations(3);
            R.traces(1);
            R.nontrivial();
        });
}

// ---- Every kind of index ----

void indexes() {
    std::vector<int64_t> ints = {0, 1, 2, 3, 4, 5, -1, -2, -4, 255, 256, 65535, 65536, 1ll << 31, (1ll << 31) - 1, -(1ll << 31), 1ll << 32, (1ll << 32) + 1, (1ll << 32) - 1, -(1ll << 32),
        1ll << 61, 1ll << 62, (1ll << 62) - 1, 1ll << 60, std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max() - 1,
        std::numeric_limits<int64_t>::min() + 1};
    for (int k = 3; k < 63; ++k)
        for (int64_t d : {0, 1, 2, -1}) {
            ints.push_back((int64_t(1) << k) + d);
            ints.push_back(-((int64_t(1) << k) + d));
            ints.push_back(std::numeric_limits<int64_t>::min() + (int64_t(1) << k) + d);
        }
    const std::vector<std::string> others = {"1.0", "0.5", "0.0", "\"0\"", "\"\"", "null", "true", "false", "#a", "(0,)", "[0]", "(a: 1)", "std.PI", "std.print", "h", "std.Array", "std.INFINITY",
        "map{}", "set{}", "std.new_buffer(1)", "std.success(0)", "\"00\".slice_first(1)"};
    for (int kind = 0; kind < 4; ++kind) // array, tuple, buffer, record
        for (size_t n : {0u, 1u, 2u, 3u, 4u}) {
            const std::string make = kind == 0 ? "func make() { const a = []; for var i = 0; i < " + std::to_string(n) + "; i += 1 { a.append(i + 10); } return a; }\n"
                                 : kind == 1   ? std::string("func make() = ") + (n == 0 ? "()" : n == 1 ? "(10,)" : n == 2 ? "(10, 11)" : n == 3 ? "(10, 11, 12)" : "(10, 11, 12, 13)") + ";\n"
                                 : kind == 2   ? "func make() { const a = std.new_buffer(" + std::to_string(n) + "); for var i = 0; i < " + std::to_string(n) + "; i += 1 { a[i] = i + 10; } return a; }\n"
                                               : "func make() { return (a: 10, b: 11); }\n";
            if (kind == 3 && n)
                continue;
            const std::string src = "import std; import h;\n" + make + R"(
var const_ = 0;
func content(a) )" + (kind == 3 ? "{ return [a.a, a.b]; }" : "{ const r = [a.size()]; for var i = 0; i < a.size(); i += 1 { r.append(a[i]); } return r; }")
                                    + R"(
func att(f) { const r = std.catch_panic(f); return if (r.is_success()) { r.value(); } else { #panic; }; }
func probe(i) {
    const a = make();
    const r = [att(func() = a[i]), att(func() = a?[i]), content(a)];
    const b = make();
    r.append(att(func() = (b[i] = 77)));
    r.append(content(b));
    const c = make();
    r.append(att(func() = (c[i] += 1)));
    r.append(content(c));
    const d = make();
    r.append(att(func() { (d[i], const_) = (55, 66); return const_; }));
    r.append(content(d));
    return r;
}
)";
            auto list = [&](int64_t changed, int64_t value) { // contents with one element replaced
                std::string r = kind == 3 ? "[" : "[" + std::to_string(n);
                for (size_t i = 0; i < (kind == 3 ? 2 : n); ++i)
                    r += (r == "[" ? "" : ",") + std::to_string(int64_t(i) == changed ? value : int64_t(i) + 10);
                return r + "]";
            };
            auto model = [&](bool in, int64_t i) {
                if (!in)
                    return fmt::format("[<#panic>,<#panic>,{0},<#panic>,{0},<#panic>,{0},<#panic>,{0}]", list(-1, 0));
                return fmt::format("[{1},{1},{0},77,{2},{3},{4},66,{5}]", list(-1, 0), i + 10, list(i, 77), i + 11, list(i, i + 11), list(i, 55));
            };
            R.run(fmt::format("index kind {} size {} integers", kind, n), [&] {
                VmOptions o;
                Vm vm(o);
                vm.load_source(src + "export func f(i) = probe(i);", "m");
                for (auto i : ints) {
                    H args(vm);
                    tiro_make_tuple(vm, 1, args, Err());
                    tiro_tuple_set(vm, args, 0, make_int(vm, i), Err());
                    auto got = vm.call("m", "f", args);
                    expect(fmt::format("index {}", i), got, model(kind != 3 && i >= 0 && i < int64_t(n), i));
                    R.states(1);
                    R.evaluations(9);
                    R.transitions(9);
                    R.traces(1);
                    R.nontrivial();
                    R.outcome(got.value);
                }
            });
            for (auto& e : others)
                R.run(fmt::format("index kind {} size {} {}", kind, n, e), [&] {
                    Vm vm;
                    vm.load_source(src + "export func f() = probe(" + e + ");", "m");
                    auto got = vm.call("m", "f");
                    expect("index", got, model(false, 0));
                    R.states(1);
                    R.evaluations(9);
                    R.transitions(9);
                    R.traces(1);
                    R.nontrivial();
                    R.outcome(got.value);
                });
            // bytes
            if (kind == 2 && n == 2)
                for (std::string v : {"-1", "256", "255", "0", "128", "257", "65536", "4294967296", "4294967297", "-255", "-256", "9223372036854775807", "-9223372036854775807 - 1", "1.0", "\"a\"", "null", "true",
                         "#a", "[1]", "0.0"})
                    R.run("byte " + v, [&] {
                        Vm vm;
                        vm.load_source(src + "export func f() { const a = make(); return [att(func() = (a[1] = " + v + ")), att(func() = (a[0] += 0)), content(a)]; }", "m");
                        const bool ok = v == "255" || v == "0" || v == "128";
                        expect("byte", vm.call("m", "f"), ok ? fmt::format("[{0},10,[2,10,{0}]]", v) : "[<#panic>,10,[2,10,11]]");
                        R.states(1);
                        R.evaluations(1);
                        R.traces(1);
                        R.nontrivial();
                    });
        }
}

// ---- Loops over arrays that are modified meanwhile ----

void iteration() {
    // In every step one operation: none, append, pop, clear, assignment to the next element
    const int ops = 5;
    const size_t steps = R.thorough ? 7 : 5;
    const char* const src = R"(
import h;
export func f(a, ops) {
    const out = [];
    var step = 0;
    for x in a {
        out.append(x);
        const op = if (step < ops.size()) { ops[step]; } else { 0; };
        step += 1;
        h.t((op, a));
        if (op == 1) { a.append(100 + step); }
        if (op == 3) { a.clear(); }
        if (op == 4 && a.size() > step) { a[step] = 200 + step; }
        if (out.size() > 40) { break; }
    }
    return out;
}
)";
    for (size_t n = 0; n <= 4; ++n)
        R.run(fmt::format("iteration size {}", n), [&] {
            Vm vm;
            vm.load_source(src, "m");
            all_sequences(size_t(ops), steps, [&](const std::vector<int>& seq) {
                for (int s : seq)
                    if (s == 2)
                        return; // pop is not available in programs
                H a(vm), o(vm), args(vm);
                tiro_make_array(vm, 0, a, Err());
                tiro_make_array(vm, 0, o, Err());
                std::vector<int64_t> model;
                for (size_t i = 0; i < n; ++i) {
                    model.push_back(int64_t(i));
                    tiro_array_push(vm, a, make_int(vm, int64_t(i)), Err());
                }
                for (int s : seq)
                    tiro_array_push(vm, o, make_int(vm, s), Err());
                tiro_make_tuple(vm, 2, args, Err());
                tiro_tuple_set(vm, args, 0, a, Err());
                tiro_tuple_set(vm, args, 1, o, Err());
                vm.log.clear();
                auto got = vm.call("m", "f", args);
                std::string expected;
                for (size_t step = 0; step < model.size();) {
                    expected += (expected.empty() ? "" : ",") + std::to_string(model[step]);
                    int op = step < seq.size() ? seq[step] : 0;
                    ++step;
                    if (op == 1)
                        model.push_back(100 + int64_t(step));
                    if (op == 3)
                        model.clear();
                    if (op == 4 && model.size() > step)
                        model[step] = 200 + int64_t(step);
                }
                std::string now;
                for (auto v : model)
                    now += (now.empty() ? "" : ",") + std::to_string(v);
                MC_CHECK(got.ok && got.value == "[" + expected + "]" && vm.dump(a) == "[" + now + "]", "size {} operations {}: expected [{}] [{}], observed {} {}", n,
                    show(std::vector<int64_t>(seq.begin(), seq.end())), expected, now, got.str(), vm.dump(a));
                R.states(1);
                R.transitions(steps);
                R.evaluations(1);
                R.traces(1);
                R.nontrivial();
                R.outcome(expected);
            });
        });
}

// ---- Record schemas ----

void schemas() {
    // All lists of up to 3 of the keys, duplicates are refused
    const std::vector<std::string> keys = {"a", "b", "", "a b", "\xc3\xa9", "size"};
    for (size_t len = 0; len <= (R.thorough ? 5u : 4u); ++len)
        all_sequences(keys.size(), len, [&](const std::vector<int>& seq) {
            std::string name;
            for (int k : seq)
                name += quote(keys[size_t(k)]) + " ";
            R.run("schema " + name, [&] {
                Vm vm;
                H arr(vm);
                tiro_make_array(vm, 0, arr, Err());
                Obj o{Obj::Record, {}, {}};
                bool unique = true;
                for (int k : seq) {
                    tiro_array_push(vm, arr, make_str(vm, keys[size_t(k)]), Err());
                    unique &= std::find(o.keys.begin(), o.keys.end(), keys[size_t(k)]) == o.keys.end();
                    o.keys.push_back(keys[size_t(k)]);
                    o.items.push_back({});
                }
                H schema = make_str(vm, "before");
                Err e;
                tiro_make_record_schema(vm, arr, schema, e);
                auto r = e.get();
                R.states(1);
                R.evaluations(1);
                R.traces(1);
                if (!unique) {
                    MC_CHECK(!r.ok() && vm.dump(schema) == "\"before\"", "a schema with duplicate keys was accepted");
                    R.outcome("refused");
                    return;
                }
                MC_CHECK(r.ok(), "{}", r.message);
                H a(vm), b(vm);
                tiro_make_record(vm, schema, a, Err());
                tiro_make_record(vm, schema, b, Err());
                Obj other = o;
                for (size_t i = 0; i < o.keys.size(); ++i) {
                    tiro_record_set(vm, a, make_str(vm, o.keys[i]), make_int(vm, int64_t(i)), Err());
                    o.items[i] = I(int64_t(i));
                    MC_CHECK(vm.dump(a) == dump(R_(&o)) && vm.dump(b) == dump(R_(&other)), "{} {}", vm.dump(a), vm.dump(b));
                    R.transitions(1);
                }
                for (auto& k : keys)
                    if (std::find(o.keys.begin(), o.keys.end(), k) == o.keys.end()) {
                        Err e1, e2;
                        H out = make_str(vm, "before");
                        tiro_record_get(vm, a, make_str(vm, k), out, e1);
                        expect_code("get", e1, TIRO_ERROR_BAD_KEY);
                        MC_CHECK(vm.dump(out) == "\"before\"", "result changed");
                        tiro_record_set(vm, a, make_str(vm, k), out, e2);
                        expect_code("set", e2, TIRO_ERROR_BAD_KEY);
                    }
                MC_CHECK(vm.dump(a) == dump(R_(&o)) && vm.dump(b) == dump(R_(&other)), "{} {}", vm.dump(a), vm.dump(b));
                R.nontrivial();
                R.outcome(dump(R_(&o)));
            });
        });
}

} // namespace

void mc::enumerate() {
    graphs();
    growth();
    literals();
    indexes();
    iteration();
    schemas();
}
