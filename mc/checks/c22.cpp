// C22: host handles keep their values and machines in one process are isolated from each other.
#include <algorithm>
#include <map>
#include <memory>
#include <set>

#include "common/gc.hpp"
#include "common/host.hpp"

using namespace mc;

const char* const mc::check_id = "C22";

namespace {

// ---- Histories of handles ----

constexpr int Slots = 3;
struct HandleOp {
    enum Kind { New, Free, SetInt, SetText, SetNative, SetNull, Copy, Collect, Churn } kind;
    int i = 0, j = 0;
    std::string show() const {
        const char* const names[] = {"new", "free", "integer", "string", "native", "null", "copy", "collect", "garbage"};
        return kind == Copy ? fmt::format("{}:={}", char('a' + i), char('a' + j)) : kind >= Collect ? names[kind] : fmt::format("{} {}", names[kind], char('a' + i));
    }
};

struct Model {
    struct Entry {
        tiro_handle_t handle = nullptr;
        std::string dump;
        int64_t native = 0; // id
        int object = -1;    // identity of heap objects
    };
    Entry slot[Slots];
};

void handle_history(const std::vector<HandleOp>& ops, bool always_collect, int globals) {
    VmOptions o;
    o.load_std = false;
    o.host_module = false;
    Vm vm(o);
    finalized.clear();
    Model m;
    int64_t next = 0;
    H holder(vm);
    tiro_make_tuple(vm, 1, holder, Err());
    std::vector<tiro_handle_t> others; // more handles, to be unaffected
    for (int i = 0; i < globals; ++i) {
        others.push_back(tiro_global_new(vm, Err()));
        tiro_make_integer(vm, 1000 + i, others.back(), Err());
    }
    gc::Guard guard;
    if (always_collect)
        gc::always();
    auto check = [&] {
        for (int i = 0; i < Slots; ++i) {
            auto& e = m.slot[i];
            if (!e.handle)
                continue;
            MC_CHECK(tiro_global_get_vm(e.handle) == vm.get(), "the handle {} belongs to another machine", char('a' + i));
            if (e.native) {
                MC_CHECK(tiro_value_kind(vm, e.handle) == TIRO_KIND_NATIVE, "the handle {} has lost its object", char('a' + i));
                MC_CHECK(!finalized.count(e.native), "the object of the handle {} was finalized", char('a' + i));
                auto* d = static_cast<NativeData*>(tiro_native_data(vm, e.handle));
                MC_CHECK(d && d->id == e.native, "the handle {} yields another object", char('a' + i));
            } else {
                gc::suspend();
                const std::string s = vm.dump(e.handle);
                gc::resume();
                MC_CHECK(s == e.dump, "the handle {} yields {} instead of {}", char('a' + i), s, e.dump);
            }
            for (int j = 0; j < i; ++j)
                if (m.slot[j].handle) {
                    MC_CHECK(m.slot[j].handle != e.handle, "the handles {} and {} share a slot", char('a' + j), char('a' + i));
                    if (e.object >= 0 && m.slot[j].object >= 0)
                        MC_CHECK(tiro_value_same(vm, e.handle, m.slot[j].handle) == (e.object == m.slot[j].object), "identity of {} and {}", char('a' + j), char('a' + i));
                }
        }
        for (size_t i = 0; i < others.size(); ++i)
            MC_CHECK(tiro_integer_value(vm, others[i]) == 1000 + int64_t(i), "another handle yields another value");
    };
    for (auto& op : ops) {
        R.transitions(1);
        auto& e = m.slot[op.i];
        switch (op.kind) {
        case HandleOp::New:
            e.handle = tiro_global_new(vm, Err());
            MC_CHECK(e.handle, "no handle");
            MC_CHECK(std::find(others.begin(), others.end(), e.handle) == others.end(), "the new handle shares a slot");
            e.dump = "null";
            e.native = 0;
            e.object = -1;
            break;
        case HandleOp::Free:
            tiro_global_free(e.handle);
            e = Model::Entry();
            break;
        case HandleOp::SetInt: {
            ++next;
            const int64_t v = next % 2 ? next : (int64_t(1) << 62) + next; // small and boxed
            tiro_make_integer(vm, v, e.handle, Err());
            e = {e.handle, std::to_string(v), 0, -1};
            break;
        }
        case HandleOp::SetText: {
            ++next;
            const std::string s = fmt::format("text {}", next);
            tiro_make_string(vm, S(s), e.handle, Err());
            e = {e.handle, "\"" + s + "\"", 0, int(next)};
            break;
        }
        case HandleOp::SetNative: {
            ++next;
            H n = make_native(vm, next, Err());
            tiro_tuple_set(vm, holder, 0, n, Err());
            tiro_tuple_get(vm, holder, 0, e.handle, Err());
            tiro_make_null(vm, n);
            tiro_tuple_set(vm, holder, 0, n, Err());
            e = {e.handle, "", next, int(next)};
            break;
        }
        case HandleOp::SetNull:
            tiro_make_null(vm, e.handle);
            e = {e.handle, "null", 0, -1};
            break;
        case HandleOp::Copy: {
            tiro_tuple_set(vm, holder, 0, m.slot[op.j].handle, Err());
            tiro_tuple_get(vm, holder, 0, e.handle, Err());
            H n(vm);
            tiro_tuple_set(vm, holder, 0, n, Err());
            auto h = e.handle;
            e = m.slot[op.j];
            e.handle = h;
            break;
        }
        case HandleOp::Collect:
            gc::collect(vm);
            break;
        case HandleOp::Churn: {
            H x(vm);
            for (int i = 0; i < 4; ++i)
                tiro_make_string(vm, S("garbage of some length"), x, Err());
            tiro_make_array(vm, 3, x, Err());
            break;
        }
        }
        check();
    }
    R.states(ops.size());
    R.traces(1);
    R.evaluations(1);
    R.nontrivial(1);
    for (auto& e : m.slot)
        if (e.handle)
            tiro_global_free(e.handle);
    for (auto h : others)
        tiro_global_free(h);
}

void handle_histories(size_t len, const std::vector<HandleOp::Kind>& kinds, bool always) {
    std::vector<std::vector<HandleOp>> batch;
    auto flush = [&] {
        if (batch.empty())
            return;
        if (R.claim()) {
            auto key = [&](size_t i) {
                std::string s = always ? "handles, always collecting:" : "handles:";
                for (auto& op : batch[i])
                    s += " " + op.show() + ",";
                return s;
            };
            R.exec_batch(batch.size(), key, [&](size_t b, size_t e) {
                for (size_t i = b; i < e; ++i) {
                    R.sub(i);
                    try {
                        handle_history(batch[i], always, i % 3 == 0 ? 0 : i % 3 == 1 ? 2 : 504);
                    } catch (const Failure& f) {
                        R.sub_fail(i, f.what);
                    }
                }
            });
        }
        batch.clear();
    };
    std::vector<HandleOp> cur;
    std::function<void(uint32_t)> rec = [&](uint32_t live) {
        if (cur.size() == len) {
            batch.push_back(cur);
            if (batch.size() == 256)
                flush();
            return;
        }
        for (auto k : kinds)
            for (int i = 0; i < (k >= HandleOp::Collect ? 1 : Slots); ++i) {
                const bool alive = live >> i & 1;
                if (k < HandleOp::Collect && (k == HandleOp::New) == alive)
                    continue;
                if (k == HandleOp::New && i > 0 && !(live >> (i - 1) & 1) && !(live >> i)) // the first unused name
                    continue;
                if (k >= HandleOp::Collect && (!live || (!cur.empty() && cur.back().kind == k)))
                    continue;
                for (int j = 0; j < (k == HandleOp::Copy ? Slots : 1); ++j) {
                    if (k == HandleOp::Copy && (j == i || !(live >> j & 1)))
                        continue;
                    cur.push_back({k, i, j});
                    rec(k == HandleOp::New ? live | 1u << i : k == HandleOp::Free ? live & ~(1u << i) : live);
                    cur.pop_back();
                }
            }
    };
    rec(0);
    flush();
}

// ---- Many handles ----

void handle_patterns() {
    std::vector<int> counts;
    for (int i = 1; i <= 16; ++i)
        counts.push_back(i);
    for (int page : {503, 1006, 1509, 4024})
        for (int d = -3; d <= 12; ++d)
            counts.push_back(page + d);
    const char* const patterns[] = {"none", "all", "even", "odd", "first half", "second half", "all in reverse", "every third in reverse", "first", "last", "all but the first", "all but the last", "middle out"};
    for (int n : counts)
        for (int pattern = 0; pattern < int(std::size(patterns)); ++pattern)
            for (int refill = 0; refill < 3; ++refill) { // fewer, exactly, more than freed
                if (!R.claim())
                    continue;
                R.exec(fmt::format("{} handles, freed: {}, refill {}", n, patterns[pattern], refill), [&] {
                    VmOptions o;
                    o.load_std = false;
                    o.host_module = false;
                    Vm vm(o);
                    std::map<tiro_handle_t, int64_t> live;
                    std::vector<tiro_handle_t> order;
                    int64_t next = 1;
                    auto add = [&] {
                        auto h = tiro_global_new(vm, Err());
                        MC_CHECK(h && !live.count(h), "a handle that is in use was handed out again");
                        MC_CHECK(tiro_value_kind(vm, h) == TIRO_KIND_NULL, "new handles must be null");
                        const std::string s = std::to_string(next);
                        tiro_make_string(vm, S(s), h, Err());
                        live[h] = next++;
                        order.push_back(h);
                    };
                    auto check = [&] {
                        for (auto& [h, v] : live) {
                            tiro_string_t s{};
                            tiro_string_value(vm, h, &s, Err());
                            MC_CHECK(V(s) == std::to_string(v), "a handle yields {} instead of {}", V(s), v);
                            MC_CHECK(tiro_global_get_vm(h) == vm.get(), "another machine");
                        }
                    };
                    for (int i = 0; i < n; ++i)
                        add();
                    for (int round = 0; round < 3; ++round) {
                        std::vector<tiro_handle_t> freed;
                        const size_t c = order.size();
                        for (size_t i = 0; i < c; ++i) {
                            bool f = false;
                            switch (pattern) {
                            case 1: case 6: f = true; break;
                            case 2: f = i % 2 == 0; break;
                            case 3: f = i % 2 == 1; break;
                            case 4: f = i < c / 2; break;
                            case 5: f = i >= c / 2; break;
                            case 7: f = i % 3 == 0; break;
                            case 8: f = i == 0; break;
                            case 9: f = i + 1 == c; break;
                            case 10: f = i > 0; break;
                            case 11: f = i + 1 < c; break;
                            case 12: f = i > c / 4 && i < c - c / 4; break;
                            }
                            if (f)
                                freed.push_back(order[i]);
                        }
                        if (pattern == 6 || pattern == 7)
                            std::reverse(freed.begin(), freed.end());
                        if (pattern == 12)
                            for (size_t i = 0; i < freed.size(); i += 2)
                                std::swap(freed[i], freed[freed.size() / 2]);
                        for (auto h : freed) {
                            tiro_global_free(h);
                            live.erase(h);
                            order.erase(std::find(order.begin(), order.end(), h));
                        }
                        check();
                        gc::collect(vm);
                        check();
                        const size_t k = refill == 0 ? freed.size() / 2 : refill == 1 ? freed.size() : freed.size() + 7;
                        for (size_t i = 0; i < k; ++i)
                            add();
                        gc::collect(vm);
                        check();
                        R.transitions(freed.size() + k);
                    }
                    R.states(live.size());
                    R.traces(1);
                    R.evaluations(1);
                    R.nontrivial(1);
                    for (auto& [h, v] : live)
                        tiro_global_free(h);
                });
            }

    // All orders of freeing and reusing few handles.
    for (int n = 2; n <= 6; ++n) {
        std::vector<int> perm;
        for (int i = 0; i < n; ++i)
            perm.push_back(i);
        do {
            if (!R.claim())
                continue;
            R.exec(fmt::format("freed in the order {}", fmt::join(perm, " ")), [&] {
                VmOptions o;
                o.load_std = false;
                o.host_module = false;
                Vm vm(o);
                // after every prefix of the order, all freed handles are allocated again
                for (int prefix = 1; prefix <= n; ++prefix)
                    for (int base : {0, 500, 503}) {
                        std::vector<tiro_handle_t> all, hs;
                        for (int i = 0; i < base + n; ++i) {
                            all.push_back(tiro_global_new(vm, Err()));
                            tiro_make_string(vm, S(std::to_string(i)), all.back(), Err());
                        }
                        for (int i = 0; i < prefix; ++i) {
                            tiro_global_free(all[size_t(base + perm[size_t(i)])]);
                            all[size_t(base + perm[size_t(i)])] = nullptr;
                        }
                        for (int i = 0; i < prefix; ++i) {
                            auto& h = all[size_t(base + perm[size_t(prefix - 1 - i)])];
                            h = tiro_global_new(vm, Err());
                            tiro_make_string(vm, S(fmt::format("n{}", perm[size_t(prefix - 1 - i)])), h, Err());
                        }
                        gc::collect(vm);
                        std::set<tiro_handle_t> distinct(all.begin(), all.end());
                        MC_CHECK(distinct.size() == all.size(), "a handle was handed out twice");
                        for (int i = 0; i < base + n; ++i) {
                            bool renewed = false;
                            for (int p = 0; p < prefix; ++p)
                                renewed |= i - base == perm[size_t(p)];
                            tiro_string_t s{};
                            tiro_string_value(vm, all[size_t(i)], &s, Err());
                            const std::string want = renewed ? fmt::format("n{}", i - base) : std::to_string(i);
                            MC_CHECK(V(s) == want, "handle {} yields {} instead of {}", i, V(s), want);
                        }
                        for (auto h : all)
                            tiro_global_free(h);
                        R.transitions(uint64_t(prefix));
                        R.states(uint64_t(base + n));
                    }
                R.traces(1);
                R.evaluations(1);
                R.nontrivial(1);
            });
        } while (std::next_permutation(perm.begin(), perm.end()));
    }
}

// ---- Interleavings of several machines and compilers ----

struct Actor {
    std::unique_ptr<XVm> vm;
    std::vector<std::string> seen;
    tiro_compiler_t compiler = nullptr;
    tiro_module_t module = nullptr;
    std::vector<std::string> messages;
    tiro_error_t error = nullptr;
    std::vector<tiro_handle_t> handles;
    std::vector<int64_t> natives;
    int id = 0;

    ~Actor() {
        if (error)
            tiro_error_free(error);
        if (module)
            tiro_module_free(module);
        if (compiler)
            tiro_compiler_free(compiler);
    }
    void see(std::string s) { seen.push_back(std::move(s)); }
    void create(size_t heap = size_t(64) << 20) {
        VmOptions o;
        o.max_heap = heap;
        vm = std::make_unique<XVm>(o);
    }
    void destroy() {
        see(vm->out);
        for (auto& s : vm->log)
            see(s);
        vm.reset();
    }
};

struct Script {
    const char* name;
    std::vector<std::function<void(Actor&)>> steps;
};

const char* const shared_program = R"(
import std; import h; import g;
var counter = 0;
const list = [];
export const table = map{"a": 1, 2: #two, #two: "b"};
export func count() { counter += 1; list.append(counter); return (counter, list.size(), #symbol, table[#two], "text".slice_first(2) == "te"); }
export func wait() { h.t(#before); const r = g.later("value"); h.t(r); counter += 100; return (r, counter); }
export func fail() { defer h.t(#deferred); const x = [1, 2]; return x[counter + 5]; }
export func print() { std.print("counter", counter, #symbol, 1.5, "x"); return std.debug_repr(table); }
export func grow() { const a = []; for var i = 0; i < 300; i += 1 { a.append([i, "$i"]); } return a.size(); }
export func fill() { const a = []; for ;; { a.append(g.array(500)); } return a; }
export func closure() { var n = 0; return [func() { n += 1; return n; }, func() = n]; }
export func dispatch() { h.t(1); std.dispatch(); h.t(2); return std.loop_timestamp() >= 0.0; }
)";

tiro_module_t shared_module() { // one module, loaded by all machines
    static CompileResult r = compile(shared_program, "p");
    MC_CHECK(r.error.ok(), "{}", r.describe());
    return r.module;
}

void begin(Actor& a) {
    a.create();
    ApiError e = a.vm->load(shared_module());
    a.see(fmt::format("load {}", int(e.code)));
}
void call(Actor& a, const char* f) {
    a.see(a.vm->call("p", f).str());
}

void fill(Actor& a) {
    H f(*a.vm), c(*a.vm);
    tiro_error_t e = nullptr;
    a.vm->get_export("p", "fill", f);
    tiro_make_coroutine(*a.vm, f, nullptr, c, Err());
    tiro_coroutine_start(*a.vm, c, Err());
    tiro_vm_run_ready(*a.vm, &e);
    a.see(fmt::format("filled {}", int(take_error(e).code)));
}

const std::vector<Script>& scripts() {
    static const std::vector<Script> list = {
        {"module state", {begin, [](Actor& a) { call(a, "count"); }, [](Actor& a) { gc::collect(*a.vm); call(a, "count"); }, [](Actor& a) { call(a, "count"); call(a, "print"); }, [](Actor& a) { a.destroy(); }}},
        {"asynchronous call", {begin,
                                  [](Actor& a) {
                                      H f(*a.vm);
                                      a.vm->get_export("p", "wait", f);
                                      a.handles.push_back(tiro_global_new(*a.vm, Err()));
                                      tiro_make_coroutine(*a.vm, f, nullptr, a.handles[0], Err());
                                      tiro_coroutine_start(*a.vm, a.handles[0], Err());
                                      a.see(fmt::format("ready {}", tiro_vm_has_ready(*a.vm)));
                                  },
                                  [](Actor& a) {
                                      tiro_vm_run_ready(*a.vm, Err());
                                      a.see(fmt::format("pending {} completed {}", a.vm->pending(), tiro_coroutine_completed(*a.vm, a.handles[0])));
                                  },
                                  [](Actor& a) {
                                      a.see(fmt::format("deliver {} ready {}", a.vm->deliver().ok(), tiro_vm_has_ready(*a.vm)));
                                      tiro_vm_run_ready(*a.vm, Err());
                                  },
                                  [](Actor& a) {
                                      H r(*a.vm);
                                      tiro_coroutine_result(*a.vm, a.handles[0], r, Err());
                                      a.see(a.vm->dump(r));
                                  }}},
        {"compiler", {[](Actor& a) {
                          a.compiler = tiro_compiler_new(S("c"), Err());
                          tiro_compiler_set_message_callback(
                              a.compiler,
                              [](const tiro_compiler_message_t* m, void* ud) {
                                  static_cast<Actor*>(ud)->see(fmt::format("{}:{}:{} {}", V(m->file), m->line, m->column, V(m->text)));
                                  return true;
                              },
                              &a, Err());
                      },
                         [](Actor& a) { tiro_compiler_add_file(a.compiler, S("first"), S(fmt::format("import p;\nexport func f(x) {{ const y = p.count(); return [x, y, {}, #symbol, \"text\"]; }}", a.id * 0 + 7)), Err()); },
                         [](Actor& a) { tiro_compiler_add_file(a.compiler, S("second"), S("export const z = f(1);\nfunc unused() { return 1; 2; }"), Err()); },
                         [](Actor& a) {
                             tiro_compiler_request_attachment(a.compiler, TIRO_ATTACHMENT_BYTECODE, Err());
                             tiro_error_t e = nullptr;
                             tiro_compiler_run(a.compiler, &e);
                             a.see(fmt::format("run {}", int(take_error(e).code)));
                             char* s = nullptr;
                             tiro_compiler_get_attachment(a.compiler, TIRO_ATTACHMENT_BYTECODE, &s, &e);
                             take_error(e);
                             a.see(s ? s : "nothing");
                             free(s);
                             tiro_compiler_take_module(a.compiler, &a.module, &e);
                             take_error(e);
                         },
                         [](Actor& a) {
                             begin(a);
                             if (a.module)
                                 a.see(fmt::format("load {}", int(a.vm->load(a.module).code)));
                             H r(*a.vm);
                             a.see(fmt::format("{}", int(a.vm->get_export("c", "z", r).code)));
                             a.see(a.vm->dump(r));
                         }}},
        {"errors in the source", {[](Actor& a) { a.compiler = tiro_compiler_new(S("broken"), Err()); },
                                     [](Actor& a) {
                                         tiro_compiler_set_message_callback(
                                             a.compiler,
                                             [](const tiro_compiler_message_t* m, void* ud) {
                                                 static_cast<Actor*>(ud)->see(fmt::format("{}:{}:{} {}", V(m->file), m->line, m->column, V(m->text)));
                                                 return true;
                                             },
                                             &a, Err());
                                     },
                                     [](Actor& a) { tiro_compiler_add_file(a.compiler, S("broken"), S("export func f() { const a = b; return a +; }\nfunc g() { x = 1; }"), Err()); },
                                     [](Actor& a) { tiro_compiler_run(a.compiler, &a.error); },
                                     [](Actor& a) {
                                         a.see(fmt::format("{} {} {}", int(tiro_error_errc(a.error)), tiro_error_name(a.error), tiro_error_message(a.error)));
                                         tiro_compiler_take_module(a.compiler, &a.module, nullptr);
                                         a.see(a.module ? "module" : "no module");
                                     }}},
        {"kept error", {begin, [](Actor& a) { H r(*a.vm); tiro_vm_get_export(*a.vm, S("nothing"), S("x"), r, &a.error); },
                           [](Actor& a) { a.see(a.vm->call("p", "fail").str()); },
                           [](Actor& a) { a.see(fmt::format("{} {}", int(tiro_error_errc(a.error)), tiro_error_message(a.error))); a.see(a.vm->call("p", "fail").str()); },
                           [](Actor& a) { a.destroy(); a.see(tiro_error_name(a.error)); }}},
        {"heap limit", {[](Actor& a) {
                            a.create(1 << 20);
                            a.see(fmt::format("load {}", int(a.vm->load(shared_module()).code)));
                        },
                           [](Actor& a) { fill(a); }, [](Actor& a) { call(a, "count"); }, [](Actor& a) { fill(a); }, [](Actor& a) { call(a, "count"); a.destroy(); }}},
        {"native objects", {begin,
                               [](Actor& a) {
                                   for (int i = 0; i < 3; ++i) {
                                       a.natives.push_back(a.id * 1000 + i + 1);
                                       H n = make_native(*a.vm, a.natives.back(), Err());
                                       a.handles.push_back(tiro_global_new(*a.vm, Err()));
                                       H t(*a.vm);
                                       tiro_make_array(*a.vm, 1, t, Err());
                                       tiro_array_push(*a.vm, t, n, Err());
                                       tiro_array_get(*a.vm, t, 0, a.handles.back(), Err());
                                   }
                               },
                               [](Actor& a) {
                                   tiro_global_free(a.handles[1]);
                                   gc::collect(*a.vm);
                                   for (auto n : a.natives)
                                       a.see(fmt::format("finalized {}", finalized.count(n) ? finalized[n] : 0));
                               },
                               [](Actor& a) {
                                   for (int i : {0, 2}) {
                                       auto* d = static_cast<NativeData*>(tiro_native_data(*a.vm, a.handles[size_t(i)]));
                                       a.see(fmt::format("{}", d ? d->id - a.id * 1000 : 0));
                                   }
                               },
                               [](Actor& a) {
                                   a.destroy();
                                   for (auto n : a.natives)
                                       a.see(fmt::format("finalized {}", finalized.count(n) ? finalized[n] : 0));
                               }}},
        {"closures and growth", {begin,
                                    [](Actor& a) {
                                        H f(*a.vm), c(*a.vm), r(*a.vm);
                                        a.vm->get_export("p", "closure", f);
                                        tiro_make_coroutine(*a.vm, f, nullptr, c, Err());
                                        tiro_coroutine_start(*a.vm, c, Err());
                                        tiro_vm_run_ready(*a.vm, Err());
                                        tiro_coroutine_result(*a.vm, c, r, Err());
                                        for (int i = 0; i < 2; ++i) {
                                            a.handles.push_back(tiro_global_new(*a.vm, Err()));
                                            H v(*a.vm);
                                            tiro_result_value(*a.vm, r, v, Err());
                                            tiro_array_get(*a.vm, v, size_t(i), a.handles.back(), Err());
                                        }
                                    },
                                    [](Actor& a) {
                                        for (int i : {0, 0, 1}) {
                                            H c(*a.vm), r(*a.vm);
                                            tiro_make_coroutine(*a.vm, a.handles[size_t(i)], nullptr, c, Err());
                                            tiro_coroutine_start(*a.vm, c, Err());
                                            tiro_vm_run_ready(*a.vm, Err());
                                            tiro_coroutine_result(*a.vm, c, r, Err());
                                            a.see(a.vm->dump(r));
                                        }
                                    },
                                    [](Actor& a) { call(a, "grow"); call(a, "dispatch"); }, [](Actor& a) { call(a, "count"); a.destroy(); }}},
        {"two machines, one after the other", {begin, [](Actor& a) { call(a, "count"); a.destroy(); }, begin, [](Actor& a) { call(a, "count"); }, [](Actor& a) { call(a, "print"); a.destroy(); }}},
        {"second compiler for the same name", {[](Actor& a) {
                                                   CompileResult r = compile("export const x = \"mine\"; export func f() = #symbol;", "p", TIRO_ATTACHMENT_BYTECODE);
                                                   a.see(r.attachment);
                                                   std::swap(a.module, r.module);
                                               },
                                                  [](Actor& a) { a.create(); a.see(fmt::format("{}", int(a.vm->load(a.module).code))); }, [](Actor& a) { a.see(fmt::format("{}", int(a.vm->load(shared_module()).code))); },
                                                  [](Actor& a) {
                                                      tiro_module_free(a.module);
                                                      a.module = nullptr;
                                                      call(a, "f");
                                                  },
                                                  [](Actor& a) { H r(*a.vm); a.see(fmt::format("{}", int(a.vm->get_export("p", "x", r).code))); a.see(a.vm->dump(r)); }}},
    };
    return list;
}

void finish(Actor& a) {
    if (a.vm)
        a.destroy();
}

std::vector<std::string> alone(size_t script, int id) {
    static std::map<size_t, std::vector<std::string>> cache;
    auto it = cache.find(script);
    if (it != cache.end())
        return it->second;
    Actor a;
    a.id = id;
    for (auto& s : scripts()[script].steps)
        s(a);
    finish(a);
    return cache[script] = a.seen;
}

void compare(const Actor& a, size_t script) {
    auto want = alone(script, 99);
    if (a.seen == want)
        return;
    size_t i = 0;
    while (i < a.seen.size() && i < want.size() && a.seen[i] == want[i])
        ++i;
    fail("\"{}\" observes {} instead of {}", scripts()[script].name, i < a.seen.size() ? a.seen[i] : "nothing", i < want.size() ? want[i] : "nothing");
}

void interleavings() {
    const size_t n = scripts().size(), steps = 5;
    // all interleavings of two scripts
    for (size_t x = 0; x < n; ++x)
        for (size_t y = x; y < n; ++y) {
            std::vector<uint32_t> orders;
            for (uint32_t m = 0; m < (1u << (2 * steps)); ++m)
                if (__builtin_popcount(m) == int(steps))
                    orders.push_back(m);
            auto key = [&](size_t i) {
                std::string s;
                for (size_t b = 0; b < 2 * steps; ++b)
                    s += orders[i] >> b & 1 ? 'B' : 'A';
                return fmt::format("{} (A), {} (B): {}", scripts()[x].name, scripts()[y].name, s);
            };
            if (!R.claim())
                continue;
            R.exec_batch(orders.size(), key, [&](size_t b, size_t e) {
                for (size_t i = b; i < e; ++i) {
                    R.sub(i);
                    try {
                        alone(x, 99);
                        alone(y, 99);
                        finalized.clear();
                        Actor a, c;
                        a.id = 1;
                        c.id = 2;
                        size_t ia = 0, ic = 0;
                        for (size_t k = 0; k < 2 * steps; ++k)
                            if (orders[i] >> k & 1)
                                scripts()[y].steps[ic++](c);
                            else
                                scripts()[x].steps[ia++](a);
                        finish(a);
                        finish(c);
                        compare(a, x);
                        compare(c, y);
                        R.states(2 * steps);
                        R.transitions(2 * steps);
                        R.traces(1);
                        R.evaluations(1);
                        R.nontrivial(1);
                    } catch (const Failure& f) {
                        R.sub_fail(i, f.what);
                    }
                }
            });
        }
    // three scripts: all interleavings of blocks (first two steps, rest)
    if (R.thorough)
        for (size_t x = 0; x < n; ++x)
            for (size_t y = x; y < n; ++y)
                for (size_t z = y; z < n; ++z) {
                    if (!R.claim())
                        continue;
                    R.exec(fmt::format("three: {}, {}, {}", scripts()[x].name, scripts()[y].name, scripts()[z].name), [&] {
                        std::vector<int> order = {0, 0, 0, 1, 1, 1, 2, 2, 2};
                        const size_t ids[] = {x, y, z}, cut[] = {0, 2, 4, 5};
                        for (auto id : ids)
                            alone(id, 99);
                        do {
                            finalized.clear();
                            Actor a[3];
                            size_t at[3] = {0, 0, 0};
                            for (int i = 0; i < 3; ++i)
                                a[i].id = i + 1;
                            for (int o : order) {
                                for (size_t s = cut[at[o]]; s < cut[at[o] + 1]; ++s)
                                    scripts()[ids[o]].steps[s](a[o]);
                                ++at[o];
                            }
                            for (int i = 0; i < 3; ++i)
                                finish(a[i]);
                            for (int i = 0; i < 3; ++i)
                                compare(a[i], ids[i]);
                            R.states(9);
                            R.transitions(15);
                            R.traces(1);
                            R.evaluations(1);
                            R.nontrivial(1);
                        } while (std::next_permutation(order.begin(), order.end()));
                    });
                }
    // a script executed while another machine is inside of a native function, a print callback, or the compiler's callback
    for (size_t y = 0; y < n; ++y)
        for (int place = 0; place < 4; ++place)
            for (uint32_t cut = 0; cut <= steps; ++cut)
                for (uint32_t cut2 = cut; cut2 <= steps; ++cut2) {
                    if (!R.claim())
                        continue;
                    const char* const places[] = {"a native function", "printing", "a compiler message", "a finalizer"};
                    R.exec(fmt::format("{} within {}: {} steps before, {} inside", scripts()[y].name, places[place], cut, cut2 - cut), [&] {
                        alone(y, 99);
                        finalized.clear();
                        Actor c;
                        c.id = 2;
                        auto steps_of = [&](size_t from, size_t to) {
                            for (size_t s = from; s < to; ++s)
                                scripts()[y].steps[s](c);
                        };
                        steps_of(0, cut);
                        std::string result;
                        int inside = 0;
                        std::function<void()> body = [&] {
                            if (inside++ == 0)
                                steps_of(cut, cut2);
                        };
                        static std::function<void()>* current;
                        current = &body;
                        if (place == 0 || place == 1) {
                            VmOptions o;
                            Vm vm(o);
                            vm.load_source("import std; import h; export func f() { const a = [1, (2, \"x\")]; const m = map{#k: a}; const r = (h.t(a), std.print(\"y\")); h.t(#after); return (a, m[#k], r[0]); }", "outer");
                            if (place == 0)
                                vm.on_log = [&](std::string_view) { body(); };
                            else {
                                tiro_vm_settings_t st;
                                tiro_vm_settings_init(&st);
                                st.print_stdout = [](tiro_string_t, void*) { (*current)(); };
                                tiro_vm_t v2 = tiro_vm_new(&st, Err());
                                tiro_vm_load_std(v2, Err());
                                CompileResult r = compile("import std; export func f() { const a = [1, (2, \"x\")]; std.print(a); return a.size(); }", "inner");
                                tiro_vm_load_bytecode(v2, r.module, Err());
                                {
                                    H f(v2), co(v2), res(v2), val(v2);
                                    tiro_vm_get_export(v2, S("inner"), S("f"), f, Err());
                                    tiro_make_coroutine(v2, f, nullptr, co, Err());
                                    tiro_coroutine_start(v2, co, Err());
                                    tiro_vm_run_ready(v2, Err());
                                    tiro_coroutine_result(v2, co, res, Err());
                                    tiro_result_value(v2, res, val, Err());
                                    MC_CHECK(tiro_integer_value(v2, val) == 2, "the printing machine was disturbed");
                                }
                                tiro_vm_free(v2);
                            }
                            Outcome out = vm.call("outer", "f");
                            MC_CHECK(out.ok && out.value == "([1,(2,\"x\")],[1,(2,\"x\")],[1,(2,\"x\")])", "the outer machine was disturbed: {}", out.str());
                        } else if (place == 2) {
                            tiro_compiler_t k = tiro_compiler_new(S("outer"), Err());
                            tiro_compiler_set_message_callback(
                                k, [](const tiro_compiler_message_t*, void*) { (*current)(); return true; }, nullptr, Err());
                            tiro_compiler_add_file(k, S("f"), S("export func f() = x;\nexport func g() = y;"), Err());
                            tiro_error_t e = nullptr;
                            tiro_compiler_run(k, &e);
                            MC_CHECK(take_error(e).code == TIRO_ERROR_BAD_SOURCE, "the outer compiler was disturbed");
                            MC_CHECK(inside == 2, "{} messages", inside);
                            tiro_compiler_free(k);
                        } else {
                            static const tiro_native_type_t type = [] {
                                tiro_native_type_t t{};
                                t.name = S("Nested");
                                t.alignment = 8;
                                t.finalizer = [](void*, size_t) { (*current)(); };
                                return t;
                            }();
                            Vm vm;
                            {
                                H nat(vm);
                                tiro_make_native(vm, &type, 16, nat, Err());
                            }
                            gc::collect(vm);
                            MC_CHECK(inside == 1, "finalized {} times", inside);
                            H t = make_str(vm, "fine");
                            MC_CHECK(vm.dump(t) == "\"fine\"", "the outer machine was disturbed");
                        }
                        MC_CHECK(inside > 0, "not executed");
                        steps_of(cut2, steps);
                        finish(c);
                        compare(c, y);
                        R.states(steps);
                        R.transitions(steps);
                        R.traces(1);
                        R.evaluations(1);
                        R.nontrivial(1);
                    });
                }
}

} // namespace

void mc::enumerate() {
    const bool t = R.thorough;
    using K = HandleOp;
    handle_histories(t ? 6 : 5, {K::New, K::Free, K::SetInt, K::SetText, K::SetNative, K::SetNull, K::Copy, K::Collect, K::Churn}, false);
    handle_histories(t ? 8 : 7, {K::New, K::Free, K::SetNative, K::Copy, K::Collect}, false);
    handle_histories(t ? 6 : 5, {K::New, K::Free, K::SetText, K::SetNative, K::Copy}, true);
    handle_patterns();
    interleavings();
}
