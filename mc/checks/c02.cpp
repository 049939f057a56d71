// C02: unreachable memory is reclaimed, finalizers run exactly once.
//  - leaks:      after repeated executions of every scenario and a full collection the memory in use is exactly the same
//  - bounded:    every scenario repeated for ever runs within a limit that suffices for a few repetitions
//  - phases:     what fits in an empty heap fits again after every sequence of other uses
//  - holes:      every pattern of freed neighbours is available again, completely, for objects of exactly their size
//  - finalizers: every sequence of operations on native objects
//  - teardown:   a freed machine returns everything
#include "common/gc.hpp"
#include "common/scenarios.hpp"
#include "common/sysmem.hpp"

#include <cstring>
#include <map>
#include <set>

namespace mc {
const char* const check_id = "C02";
}
using namespace mc;

namespace {

constexpr size_t page = 1 << 16;
constexpr size_t cell = 16;

// Buffers, measured in cells.
struct Buffers {
    size_t overhead = 0;   // bytes of a buffer object without its content
    size_t page_cells = 0; // of an empty page

    size_t bytes(size_t cells) const { return cells * cell - overhead; }
    size_t min_cells() const { return (overhead + cell - 1) / cell + (overhead % cell == 0); }
};

char* address(tiro_vm_t vm, tiro_handle_t b) { return reinterpret_cast<char*>(tiro_buffer_data(vm, b)); }

bool make_buffer(tiro_vm_t vm, size_t bytes, tiro_handle_t out) {
    tiro_error_t e = nullptr;
    tiro_make_buffer(vm, bytes, out, &e);
    ApiError a = take_error(e);
    MC_CHECK(a.ok() || a.code == TIRO_ERROR_ALLOC, "buffer of {} bytes: {} {}", bytes, a.message, a.details);
    return a.ok();
}

struct NoMemory { // the system refuses every request
    explicit NoMemory(uint64_t allowed = 0) {
        sysmem::reset();
        sysmem::refuse_first = allowed;
        sysmem::refuse_count = UINT64_MAX / 2;
    }
    ~NoMemory() { sysmem::reset(); }
};

struct Slots { // objects are held by one large tuple
    tiro_vm_t vm;
    H tuple;
    size_t used = 0, capacity;
    Slots(tiro_vm_t v, size_t n)
        : vm(v)
        , tuple(v)
        , capacity(n) {
        tiro_make_tuple(vm, n, tuple, Err());
    }
    void set(size_t i, tiro_handle_t h) { tiro_tuple_set(vm, tuple, i, h, Err()); }
    void get(size_t i, tiro_handle_t h) { tiro_tuple_get(vm, tuple, i, h, Err()); }
    void clear(size_t from = 0) {
        H null(vm);
        tiro_make_null(vm, null);
        for (size_t i = from; i < used; ++i)
            set(i, null);
        used = from;
    }
    bool add_buffer(size_t bytes) {
        H b(vm);
        if (!make_buffer(vm, bytes, b))
            return false;
        MC_CHECK(used < capacity, "too many objects");
        set(used++, b);
        return true;
    }
    bool add_float() {
        H b(vm);
        tiro_error_t e = nullptr;
        tiro_make_float(vm, 1.5, b, &e);
        ApiError a = take_error(e);
        MC_CHECK(a.ok() || a.code == TIRO_ERROR_ALLOC, "{} {}", a.message, a.details);
        if (!a.ok())
            return false;
        MC_CHECK(used < capacity, "too many objects");
        set(used++, b);
        return true;
    }
};

const Buffers& buffers() {
    static const Buffers result = [] {
        Buffers b;
        VmOptions o;
        Vm vm(o);
        Slots s(vm, 6000);
        { // everything else is full
            NoMemory n;
            for (size_t bytes : {8000, 1000, 100, 40, 16, 8, 0})
                while (s.add_buffer(bytes)) {
                }
            while (s.add_float()) {
            }
        }
        H x(vm), y(vm);
        make_buffer(vm, 0, x);
        char* previous = address(vm, x);
        H keep(vm);
        std::vector<size_t> distance;
        for (size_t n = 0; n < 64; ++n) {
            MC_CHECK(make_buffer(vm, n, y), "no memory");
            if (!s.capacity)
                break;
            s.set(s.used++, y);
            distance.push_back(size_t(address(vm, y) - previous));
            previous = address(vm, y);
        }
        // distance[n + 1]: size of a buffer with n bytes
        for (size_t n = 1; n < 30 && !b.overhead; ++n)
            if (distance[n + 1] != distance[n])
                b.overhead = distance[n] - (n - 1);
        for (size_t n = 0; n + 1 < distance.size(); ++n)
            MC_CHECK(distance[n + 1] == (b.overhead + n + cell - 1) / cell * cell, "unexpected sizes of buffers");
        // an empty page
        {
            NoMemory n;
            for (size_t bytes : {8000, 1000, 100, 40, 16, 8, 0})
                while (s.add_buffer(bytes)) {
                }
            while (s.add_float()) {
            }
        }
        {
            const size_t before = sysmem::block_count;
            NoMemory n(1);
            MC_CHECK(s.add_float(), "no memory");
            MC_CHECK(sysmem::block_count == before + 1 && sysmem::blocks[before].size == page, "not a new page");
            b.page_cells = 1;
            while (s.add_float())
                b.page_cells += 1;
        }
        return b;
    }();
    return result;
}

// Free memory in existing pages.
struct Free {
    size_t cells = 0;
};
size_t free_cells(tiro_vm_t vm, Slots& s) {
    gc::collect(vm);
    NoMemory n;
    const Buffers& b = buffers();
    size_t total = 0;
    for (size_t c : {size_t(700), size_t(150), size_t(40), size_t(12), size_t(5), b.min_cells()})
        while (s.add_buffer(b.bytes(c)))
            total += c;
    while (s.add_float())
        total += 1;
    s.clear();
    return total;
}

struct Usage {
    size_t cells;       // in pages
    size_t large_bytes; // large objects
    bool operator==(const Usage& o) const { return cells == o.cells && large_bytes == o.large_bytes; }
};
Usage usage(tiro_vm_t vm, Slots& s, size_t base_bytes, size_t base_blocks) {
    const size_t free = free_cells(vm, s);
    gc::collect(vm);
    size_t pages = 0;
    for (size_t i = base_blocks; i < sysmem::block_count; ++i)
        pages += sysmem::blocks[i].size == page && sysmem::blocks[i].align == page;
    return {pages * buffers().page_cells - free, sysmem::bytes - base_bytes - pages * page};
}

H one_argument(tiro_vm_t vm) {
    H args(vm), n(vm);
    tiro_make_tuple(vm, 1, args, Err());
    tiro_make_integer(vm, 7, n, Err());
    tiro_tuple_set(vm, args, 0, n, Err());
    return args;
}

void leaks() {
    buffers();
    auto scenario = [](const std::string& decls, const std::string& body) {
        std::string src = "import std; import h; import g; import lib;\n" + decls + "\nexport func main(n) {\n" + body + "\n}\n";
        CompileResult c = compile(src, "p");
        MC_CHECK(c.error.ok() && c.module, "{}", c.describe());
        const size_t news = sysmem::news;
        const size_t base_bytes = sysmem::bytes, base_blocks = sysmem::block_count;
        {
            auto vm = machine_with_lib();
            ApiError a = vm->load(c.module);
            MC_CHECK(a.ok(), "{} {}", a.message, a.details);
            Slots s(*vm, 40000);
            H args = one_argument(*vm);
            std::string first;
            Usage previous{};
            for (int round = 0; round < 3; ++round) {
                for (int i = 0; i < 4; ++i) {
                    gc::Guard g;
                    if (round % 2)
                        gc::every(5, 0);
                    else
                        gc::off();
                    std::string r = vm->run("p", "main", args).str();
                    MC_CHECK(vm->run_error.ok(), "{} {}", vm->run_error.message, vm->run_error.details);
                    if (first.empty())
                        first = r;
                    R.transitions(gc::count());
                }
                vm->log.clear();
                Usage u = usage(*vm, s, base_bytes, base_blocks);
                if (round && !(u == previous))
                    fail("{} cells and {} bytes of large objects in use after {} executions, then {} and {}", previous.cells, previous.large_bytes, 4 * round,
                        u.cells, u.large_bytes);
                previous = u;
                R.states();
            }
        }
        MC_CHECK(sysmem::bytes == base_bytes, "{} bytes not returned by the machine", sysmem::bytes - base_bytes);
        (void) news;
        R.traces();
    };
    for (auto& p : producers)
        for (auto& h : holders)
            R.run(fmt::format("memory used by {} as {}", p.name, h.name),
                [&] { scenario(replace(h.decls, "$P", p.expr), replace(h.body, "$P", p.expr)); });
    for (auto op : allocating_ops)
        R.run(fmt::format("memory used by {}", op), [&] { scenario("", fmt::format("return lib.R([{}]);", op)); });
    static const char* const extra[][2] = {
        {"abandoned coroutine", "std.launch(func() { const x = lib.arr(n); std.yield_coroutine(); return x; }); std.dispatch(); return null;"},
        {"abandoned coroutine with deferred expressions", "std.launch(func() { defer lib.log(n); const x = lib.arr(n); std.yield_coroutine(); return x; }); std.dispatch(); return null;"},
        {"abandoned coroutines waiting for each other",
            "const ts = []; for var i = 0; i < 3; i += 1 { std.launch(func() { const t = std.coroutine_token(); ts.append(t); std.yield_coroutine(); return ts; }); } std.dispatch(); return ts.size();"},
        {"failed coroutine", "std.launch(func() { const x = lib.arr(n); std.panic([x]); }); std.dispatch(); return null;"},
        {"many coroutines", "for var i = 0; i < 50; i += 1 { std.launch(func() { const x = lib.arr(n); std.dispatch(); return x; }); } std.dispatch(); std.dispatch(); return null;"},
        {"deep stack", "const f = func(k) { return if (k == 0) { 0; } else { 1 + lib.rec(3, k)[0] * 0 + lib.rec(10, k).size(); }; }; return f(200);"},
        {"cycle", "const a = []; const m = map{}; m[\"a\"] = a; a.append(m); a.append(func() { return (a, m); }); a.append(a[1]); return null;"},
        {"cycle through a coroutine", "const a = []; a.append(std.launch(func() { a.append(std.coroutine_token()); std.yield_coroutine(); })); std.dispatch(); return a.size();"},
        {"long list", "var l = null; for var i = 0; i < 3000; i += 1 { l = (l, i); } return null;"},
        {"grown and cleared", "const a = []; for var i = 0; i < 3000; i += 1 { a.append([i]); } a.clear(); const m = map{}; for var i = 0; i < 1000; i += 1 { m[i] = [i]; } m.clear(); "
                              "keep[0] = (a.size(), m.size()); return null;"},
        {"module variable", "keep[0] = [\"x\"]; keep[0] = map{}; keep[0][[1]] = 1; keep[0] = 3; return null;"},
        {"removed entries", "for var i = 0; i < 500; i += 1 { kept[\"k$i\"] = [i]; } for var i = 0; i < 500; i += 1 { kept.remove(\"k$i\"); } return kept.size();"},
    };
    for (auto& e : extra)
        R.run(fmt::format("memory used by {}", e[0]), [&] { scenario("const keep = [1]; const kept = map{};", e[1]); });
}

// ---------------------------------------------------------------------------------------------------------------

struct Form {
    const char* name;
    const char* body; // repeated for i < count
    const char* before = "";
};
const std::vector<Form> forms = {
    {"dropped", "const x = $P;"},
    {"overwritten", "a[i % 3] = $P;", "const a = [1, 2, 3];"},
    {"overwritten variable", "x = [$P];", "var x = null;"},
    {"inserted and removed", "m[i] = $P; m.remove(i - 3);", "const m = map{};"},
    {"inserted and removed keys", "m[\"k$i\"] = $P; const j = i - 3; m.remove(\"k$j\");", "const m = map{};"},
    {"inserted and cleared", "s.insert($P); if (i % 7 == 0) { s.clear(); }", "const s = set{};"},
    {"appended and cleared", "a.append($P); if (i % 9 == 0) { a.clear(); }", "const a = [];"},
    {"captured", "const x = $P; f = func() { return x; };", "var f = null;"},
    {"panic", "const x = $P; std.catch_panic(func() { defer x; std.panic(\"p$i\"); });"},
    {"coroutine", "const x = $P; std.launch(func() { return [x]; }); std.dispatch();"},
    {"abandoned coroutine", "const x = $P; std.launch(func() { std.yield_coroutine(); return [x]; }); std.dispatch();"},
    {"asynchronous", "g.later($P);"},
    {"cycle", "const a = [$P]; a.append(a);"},
    {"queue", "q.append($P); if (q.size() > 8) { const r = [q[7], q[8]]; q = r; }", "var q = [];"},
    {"host handle", "g.keep($P);"},
};

void bounded() {
    for (auto& p : producers)
        for (auto& f : forms)
            R.run(fmt::format("endless {} of {}", f.name, p.name), [&] {
                CompileResult c = compile(fmt::format("import std; import h; import g; import lib;\nexport func main(count) {{\nvar n = 0; {} "
                                                      "for var i = 0; i < count; i += 1 {{ n = i % 10; {} std.dispatch(); }} return \"done\"; }}\n",
                                              replace(f.before, "$P", p.expr), replace(f.body, "$P", p.expr)),
                    "p");
                MC_CHECK(c.error.ok() && c.module, "{}", c.describe());
                const size_t base = sysmem::bytes;
                auto run = [&](XVm& vm, int64_t count) {
                    H args(vm), n(vm);
                    tiro_make_tuple(vm, 1, args, Err());
                    tiro_make_integer(vm, count, n, Err());
                    tiro_tuple_set(vm, args, 0, n, Err());
                    std::string r = vm.run("p", "main", args).str();
                    MC_CHECK(vm.run_error.ok(), "{} {}", vm.run_error.message, vm.run_error.details);
                    MC_CHECK(vm.native_errors.empty(), "{} {}", vm.native_errors[0].message, vm.native_errors[0].details);
                    MC_CHECK(r == "value \"done\"", "{}", r);
                };
                size_t need, per_round;
                {
                    auto vm = machine_with_lib();
                    MC_CHECK(vm->load(c.module).ok(), "load");
                    gc::Guard g;
                    gc::every(1, 0);
                    sysmem::reset();
                    run(*vm, 24);
                    need = sysmem::peak - base;
                    per_round = gc::bytes() / 24;
                }
                VmOptions o;
                // Objects are never moved: allow for some fragmentation.
                o.max_heap = need + need / 4 + 2 * page;
                auto vm = machine_with_lib(o);
                MC_CHECK(vm->load(c.module).ok(), "load");
                gc::Guard g;
                gc::off();
                const int64_t count = std::max<int64_t>(500, std::min<int64_t>(R.thorough ? 400000 : 20000, int64_t(o.max_heap * (R.thorough ? 100 : 12) / std::max<size_t>(per_round, 1))));
                run(*vm, count);
                if (gc::bytes() > 2 * o.max_heap)
                    R.nontrivial();
                R.transitions(gc::count());
                R.traces();
            });
}

// ---------------------------------------------------------------------------------------------------------------
// What fits into the heap fits again after every sequence of uses.

void phases() {
    struct Use {
        const char* name;
        size_t bytes;
        int keep_every; // 0: nothing survives into the next phase
    };
    static const std::vector<Use> uses = {
        {"small", 24, 0}, {"medium", 700, 0}, {"just below large", 15000, 0}, {"large", 17000, 0}, {"page sized", 65536, 0}, {"huge", 300000, 0},
        {"floats", 0, 0}, {"survivors", 24, 3000},
    };
    const size_t limit = R.thorough ? 32 * page : 16 * page;
    all_sequences(uses.size(), R.thorough ? 5 : 4, [&](const std::vector<int>& seq) {
        if (!R.claim())
            return;
        std::string key = "uses:";
        for (int i : seq)
            key += fmt::format(" {},", uses[i].name);
        R.exec(key, [&] {
            const size_t base = sysmem::bytes;
            auto fresh = [&](std::unique_ptr<Vm>& vm, std::unique_ptr<Slots>& s) {
                VmOptions o;
                o.max_heap = limit;
                vm = std::make_unique<Vm>(o);
                s = std::make_unique<Slots>(*vm, 40000);
            };
            static std::map<int, size_t> expected;
            auto fill = [&](Slots& s, const Use& u) {
                size_t n = 0;
                const size_t from = s.used;
                while (s.used < s.capacity && (u.bytes ? s.add_buffer(u.bytes) : s.add_float())) {
                    ++n;
                    if (sysmem::bytes - base > limit)
                        fail("{} bytes in use", sysmem::bytes - base);
                }
                H null(s.vm);
                tiro_make_null(s.vm, null);
                for (size_t i = from; i < s.used; ++i)
                    if (!u.keep_every || (i - from) % u.keep_every != 0)
                        s.set(i, null);
                if (!u.keep_every)
                    s.used = from;
                return n;
            };
            std::unique_ptr<Vm> vm;
            std::unique_ptr<Slots> s;
            fresh(vm, s);
            bool survivors = false;
            for (int i : seq) {
                if (!expected.count(i)) {
                    std::unique_ptr<Vm> vm2;
                    std::unique_ptr<Slots> s2;
                    fresh(vm2, s2);
                    const size_t base2 = sysmem::bytes;
                    (void) base2;
                    size_t n = 0;
                    VmOptions o;
                    while (s2->used < s2->capacity && (uses[i].bytes ? s2->add_buffer(uses[i].bytes) : s2->add_float()))
                        ++n;
                    s2.reset();
                    vm2.reset();
                    expected[i] = n;
                }
                size_t n = fill(*s, uses[i]);
                R.transitions(n);
                if (!survivors && n != expected[i])
                    fail("{} objects of {} bytes instead of {}", n, uses[i].bytes, expected[i]);
                if (survivors && uses[i].bytes < 1000 && n + 100 < std::min(expected[i], s->capacity - s->used))
                    fail("only {} objects of {} bytes instead of about {}", n, uses[i].bytes, expected[i]);
                survivors |= uses[i].keep_every != 0;
                gc::collect(*vm);
            }
            s.reset();
            vm.reset();
            MC_CHECK(sysmem::bytes == base, "{} bytes not returned", sysmem::bytes - base);
            R.traces();
        });
    });
}

// ---------------------------------------------------------------------------------------------------------------
// Neighbouring blocks of a page, freed in one or two steps.

struct HolesMachine {
    std::unique_ptr<Vm> vm;
    std::unique_ptr<Slots> s;
    size_t fixed = 0;
    HolesMachine() {
        buffers();
        vm = std::make_unique<Vm>();
        s = std::make_unique<Slots>(*vm, 8000);
        fill();
        fixed = s->used;
    }
    ~HolesMachine() {
        s.reset();
        vm.reset();
    }
    void fill() {
        const Buffers& b = buffers();
        NoMemory n;
        for (size_t c : {size_t(700), size_t(150), size_t(40), size_t(12), size_t(5), b.min_cells()})
            while (s->add_buffer(b.bytes(c))) {
            }
        while (s->add_float()) {
        }
    }
};

void holes() {
    // around the boundaries of size classes
    const std::vector<size_t> all_sizes = {2, 3, 5, 14, 15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 48, 49, 63, 64, 65, 95, 96, 97, 127, 128, 129, 191, 192, 193, 255, 256, 257, 383, 384, 385, 511, 512, 513, 767, 768, 769};
    const std::vector<size_t> few = R.thorough ? std::vector<size_t>{2, 3, 15, 16, 17, 32, 64, 96, 200} : std::vector<size_t>{2, 15, 33, 100};
    std::vector<std::vector<size_t>> patterns;
    const int K = 5;
    all_sequences(few.size(), K, [&](const std::vector<int>& seq) {
        std::vector<size_t> p;
        for (int i : seq)
            p.push_back(few[i]);
        patterns.push_back(p);
    });
    for (size_t a : all_sizes)
        for (size_t b : R.thorough ? all_sizes : std::vector<size_t>{2, 15, 16, 24, 32, 33, 96, 256, 384, 769})
            patterns.push_back({a, b, 2, b, a});
    const Buffers& b = buffers();
    static std::unique_ptr<HolesMachine> shared;
    for (auto& p : patterns)
        if (R.claim()) {
            std::string key = "blocks of cells";
            for (size_t c : p)
                key += fmt::format(" {}", c);
            R.exec(key, [&] {
                if (!shared)
                    shared = std::make_unique<HolesMachine>();
                auto once = [&](const std::vector<int>& step) {
                    HolesMachine& m = *shared;
                    Slots& s = *m.s;
                    tiro_vm_t vm = *m.vm;
                    s.clear(m.fixed);
                    gc::collect(vm);
                    // the blocks are neighbours at the start of an empty page
                    sysmem::reset();
                    std::vector<char*> at;
                    for (size_t i = 0; i < p.size(); ++i) {
                        H h(vm);
                        MC_CHECK(make_buffer(vm, b.bytes(p[i]), h), "no memory for block {}", i);
                        std::memset(address(vm, h), int('a' + i), b.bytes(p[i]));
                        at.push_back(address(vm, h));
                        s.set(s.used++, h);
                    }
                    for (size_t i = 1; i < p.size(); ++i)
                        if (at[i] != at[i - 1] + p[i - 1] * cell)
                            fail("free memory is fragmented: blocks at {} and {}", (void*) at[i - 1], (void*) at[i]);
                    m.fill();
                    const size_t end = s.used;
                    MC_CHECK(sysmem::requests <= 1, "{} new pages", sysmem::requests);
                    NoMemory none;
                    H null(vm);
                    tiro_make_null(vm, null);
                    for (int round = 1; round <= 2; ++round) {
                        for (size_t i = 0; i < p.size(); ++i)
                            if (step[i] == round)
                                s.set(m.fixed + i, null);
                        gc::collect(vm);
                    }
                    // expected holes
                    std::vector<std::pair<size_t, size_t>> free; // cells, index of first block
                    for (size_t i = 0; i < p.size(); ++i) {
                        if (!step[i])
                            continue;
                        if (i && step[i - 1])
                            free.back().first += p[i];
                        else
                            free.push_back({p[i], i});
                    }
                    // larger objects do not live in pages
                    const size_t most = 900;
                    for (size_t i = 0; i < free.size(); ++i)
                        while (free[i].first > most) {
                            const size_t n = std::min(most, free[i].first - 2);
                            free[i].first -= n;
                            free.push_back({n, free[i].second});
                        }
                    std::sort(free.rbegin(), free.rend());
                    if (!free.empty() && free[0].first < most && (free.size() < 2 || free[0].second != free[1].second)) {
                        H h(vm);
                        MC_CHECK(!make_buffer(vm, b.bytes(free[0].first + 1), h), "more memory than there is");
                    }
                    std::vector<std::pair<char*, size_t>> placed;
                    for (auto& [cells, first] : free) {
                        H h(vm);
                        if (!make_buffer(vm, b.bytes(cells), h))
                            fail("{} cells are free (from block {}) but not available", cells, first);
                        char* a = address(vm, h);
                        bool inside = false;
                        for (size_t i = 0; i < p.size(); ++i) {
                            size_t n = 0;
                            for (size_t j = i; j < p.size() && step[j]; ++j)
                                n += p[j];
                            inside |= a >= at[i] && a + cells * cell <= at[i] + n * cell;
                        }
                        MC_CHECK(inside, "the new block is not where the free memory is");
                        for (auto& [q, n] : placed)
                            MC_CHECK(a + cells * cell <= q || q + n <= a, "blocks overlap");
                        placed.push_back({a, cells * cell});
                        std::memset(a, 'z', b.bytes(cells));
                        s.set(s.used++, h);
                    }
                    {
                        H h(vm);
                        tiro_error_t e = nullptr;
                        tiro_make_float(vm, 1, h, &e);
                        MC_CHECK(take_error(e).code == TIRO_ERROR_ALLOC, "more memory than there is");
                    }
                    for (size_t i = 0; i < p.size(); ++i)
                        if (!step[i]) {
                            H h(vm);
                            s.get(m.fixed + i, h);
                            MC_CHECK(address(vm, h) == at[i] && tiro_buffer_size(vm, h) == b.bytes(p[i]), "block {} changed", i);
                            for (size_t k = 0; k < b.bytes(p[i]); ++k)
                                MC_CHECK(at[i][k] == char('a' + i), "block {} modified", i);
                        }
                    (void) end;
                    R.transitions();
                };
                try {
                    all_sequences(3, int(p.size()), [&](const std::vector<int>& step) {
                        if (p.size() == 5 && !R.thorough && p[2] == 2 && p[0] == p[4] && (step[0] || step[4]) && (step[0] != step[4]))
                            return; // symmetric
                        try {
                            once(step);
                        } catch (const Failure& f) {
                            std::string st;
                            for (int x : step)
                                st += fmt::format(" {}", x);
                            fail("freed in steps{}: {}", st, f.what);
                        }
                    });
                } catch (...) {
                    shared.reset();
                    throw;
                }
                R.traces();
            });
        }
    shared.reset();
}

// ---------------------------------------------------------------------------------------------------------------

struct Payload {
    int64_t id;
    uint64_t check;
};
std::map<int64_t, int> done;
bool bad_payload;
const tiro_native_type_t& thing_type() {
    static const tiro_native_type_t t = [] {
        tiro_native_type_t t{};
        t.name = S("Tracked");
        t.alignment = 8;
        t.finalizer = [](void* data, size_t size) {
            auto* d = static_cast<Payload*>(data);
            if (size < sizeof(Payload) || d->check != (uint64_t(d->id) ^ size ^ 0x5555))
                bad_payload = true;
            else
                done[d->id] += 1;
        };
        return t;
    }();
    return t;
}

enum Op { Create0, Create1, Create2, Drop0, Drop1, Drop2, Link0, Link2, Unlink, DropTuple, Cycle, Nest, Function, DropFunction, Result, Garbage, Collect, op_count };
const char* const op_names[] = {"create 0", "create 1", "create 2 (large)", "drop 0", "drop 1", "drop 2", "link 0", "link 2", "unlink", "drop tuple", "cycle", "nest", "function of 1", "drop function", "wait", "garbage", "collect"};

void finalizers() {
    const int depth = R.thorough ? 6 : 5;
    for (int len = 1; len <= depth; ++len)
        all_sequences(op_count, len, [&](const std::vector<int>& seq) {
            // every sequence contains a creation, the first operation is one
            if (seq[0] > Create2)
                return;
            if (!R.claim())
                return;
            std::string key = "native objects:";
            for (int o : seq)
                key += fmt::format(" {},", op_names[o]);
            R.exec(key, [&] {
                done.clear();
                bad_payload = false;
                int64_t next = 0;
                int64_t handle[3] = {-1, -1, -1}; // object of the handle
                int64_t slot[3] = {-1, -1, -1};   // of the tuple (2: object 0, 1: object 2)
                bool cyclic = false;
                bool tuple_held = true, tuple_exists = true, nested = false;
                int64_t fn = -1;
                std::vector<std::vector<int64_t>> closed; // dropped handles
                std::set<int64_t> all, finalized_model;
                std::set<int64_t> lost; // unreachable
                const size_t bytes = sysmem::bytes;
                {
                    VmOptions o;
                    o.load_std = false;
                    o.host_module = false;
                    Vm vm(o);
                    H h0(vm), h1(vm), h2(vm), tuple(vm), fun(vm), outer(vm), null(vm);
                    tiro_handle_t hs[3] = {h0, h1, h2};
                    tiro_make_tuple(vm, 3, tuple, Err());
                    tiro_make_tuple(vm, 1, outer, Err());
                    auto reachable = [&](int64_t id) {
                        for (int64_t h : handle)
                            if (h == id)
                                return true;
                        if (tuple_held || nested)
                            for (int64_t t : slot)
                                if (t == id)
                                    return true;
                        return fn == id;
                    };
                    for (int o : seq) {
                        switch (o) {
                        case Create0:
                        case Create1:
                        case Create2: {
                            const size_t size = o == Create2 ? 20000 : o == Create1 ? sizeof(Payload) : 41;
                            tiro_make_native(vm, &thing_type(), size, hs[o], Err());
                            auto* d = static_cast<Payload*>(tiro_native_data(vm, hs[o]));
                            d->id = next;
                            d->check = uint64_t(next) ^ size ^ 0x5555;
                            handle[o] = next;
                            all.insert(next++);
                            break;
                        }
                        case Drop0:
                        case Drop1:
                        case Drop2:
                            tiro_make_null(vm, hs[o - Drop0]);
                            handle[o - Drop0] = -1;
                            break;
                        case Link0:
                        case Link2:
                            if (!tuple_held)
                                break;
                            tiro_tuple_set(vm, tuple, o == Link0 ? 0 : 1, hs[o == Link0 ? 0 : 2], Err());
                            slot[o == Link0 ? 0 : 1] = handle[o == Link0 ? 0 : 2];
                            break;
                        case Unlink:
                            if (!tuple_held)
                                break;
                            tiro_tuple_set(vm, tuple, 0, null, Err());
                            slot[0] = -1;
                            break;
                        case DropTuple:
                            tiro_make_null(vm, tuple);
                            tuple_held = false;
                            break;
                        case Cycle:
                            if (!tuple_held)
                                break;
                            tiro_tuple_set(vm, tuple, 2, tuple, Err());
                            cyclic = true;
                            break;
                        case Nest:
                            if (!tuple_held)
                                break;
                            nested = !nested;
                            tiro_tuple_set(vm, outer, 0, nested ? tuple : null, Err());
                            break;
                        case Function: {
                            H name(vm);
                            tiro_make_string(vm, S("f"), name, Err());
                            tiro_make_sync_function(vm, name, [](tiro_vm_t, tiro_sync_frame_t) {}, 0, h1, fun, Err());
                            fn = handle[1];
                            break;
                        }
                        case DropFunction:
                            tiro_make_null(vm, fun);
                            fn = -1;
                            break;
                        case Result: {
                            H name(vm), f(vm), coro(vm);
                            tiro_make_string(vm, S("f"), name, Err());
                            tiro_make_sync_function(vm, name, [](tiro_vm_t, tiro_sync_frame_t) {}, 0, h0, f, Err());
                            tiro_make_coroutine(vm, f, nullptr, coro, Err());
                            tiro_coroutine_start(vm, coro, Err());
                            tiro_vm_run_ready(vm, Err());
                            break;
                        }
                        case Garbage: {
                            H g(vm);
                            for (size_t n : {10, 100, 1000, 20000})
                                tiro_make_buffer(vm, n, g, Err());
                            break;
                        }
                        case Collect:
                            gc::collect(vm);
                            for (int64_t id : all) {
                                if (!reachable(id))
                                    MC_CHECK(done[id] == 1, "object {} is not reachable: finalized {} times", id, done[id]);
                                R.states();
                            }
                            R.nontrivial();
                            break;
                        }
                        (void) cyclic, (void) tuple_exists;
                        for (int64_t id : all) {
                            MC_CHECK(done[id] <= 1, "object {} finalized {} times", id, done[id]);
                            if (reachable(id)) {
                                MC_CHECK(!done[id], "object {} finalized while it is reachable", id);
                            }
                        }
                        for (int i = 0; i < 3; ++i)
                            if (handle[i] >= 0)
                                MC_CHECK(static_cast<Payload*>(tiro_native_data(vm, hs[i]))->id == handle[i], "handle {} lost its object", i);
                        MC_CHECK(!bad_payload, "finalizer called with other data");
                        R.transitions();
                    }
                }
                for (int64_t id : all)
                    MC_CHECK(done[id] == 1, "machine freed: object {} finalized {} times", id, done[id]);
                MC_CHECK(!bad_payload && done.size() == all.size(), "finalizer called with other data");
                MC_CHECK(sysmem::bytes == bytes, "machine freed: {} bytes not returned", sysmem::bytes - bytes);
                R.traces();
            });
        });
    // Many objects, automatic collections.
    for (size_t size : {sizeof(Payload), size_t(100), size_t(3000), size_t(17000), size_t(70000)})
        for (int kept : {0, 1, 2, 3, 7})
            R.run(fmt::format("many native objects of {} bytes, every {}th kept", size, kept), [&] {
                done.clear();
                bad_payload = false;
                const int64_t count = int64_t(std::min<size_t>(30000, (size_t(24) << 20) / size));
                {
                    VmOptions o;
                    Vm vm(o);
                    Slots s(vm, 40000);
                    for (int64_t i = 0; i < count; ++i) {
                        H h(vm);
                        tiro_make_native(vm, &thing_type(), size, h, Err());
                        auto* d = static_cast<Payload*>(tiro_native_data(vm, h));
                        d->id = i;
                        d->check = uint64_t(i) ^ size ^ 0x5555;
                        if (kept && i % kept == 0)
                            s.set(s.used++, h);
                    }
                    for (auto [id, n] : done) {
                        MC_CHECK(n == 1, "{} finalized {} times", id, n);
                        MC_CHECK(!kept || id % kept, "{} finalized while it is reachable", id);
                    }
                    R.transitions(done.size());
                    if (!done.empty())
                        R.nontrivial();
                    gc::collect(vm);
                    gc::collect(vm);
                    MC_CHECK(int64_t(done.size()) >= count - int64_t(s.used) - 1, "{} of {} finalized", done.size(), count - s.used);
                    for (auto [id, n] : done)
                        MC_CHECK(!kept || id % kept, "{} finalized while it is reachable", id);
                }
                MC_CHECK(!bad_payload && int64_t(done.size()) == count, "{} of {} finalized", done.size(), count);
                for (auto [id, n] : done)
                    MC_CHECK(n == 1, "{} finalized {} times", id, n);
                R.traces();
            });
}

// ---------------------------------------------------------------------------------------------------------------

void teardown() {
    for (auto& p : producers)
        for (auto& h : holders)
            R.run(fmt::format("machine freed after {} as {}", p.name, h.name), [&] {
                std::string src = "import std; import h; import g; import lib;\n" + replace(h.decls, "$P", p.expr) + "\nexport func main(n) {\n" + replace(h.body, "$P", p.expr) + "\n}\n";
                CompileResult c = compile(src, "p");
                MC_CHECK(c.error.ok() && c.module, "{}", c.describe());
                int64_t news = 0;
                const size_t bytes = sysmem::bytes, blocks = sysmem::block_count;
                for (int round = 0; round < 3; ++round) {
                    finalized.clear();
                    const int64_t before = sysmem::news;
                    {
                        auto vm = machine_with_lib();
                        ApiError a = vm->load(c.module);
                        MC_CHECK(a.ok(), "{} {}", a.message, a.details);
                        H args = one_argument(*vm);
                        if (round)
                            vm->run("p", "main", args);
                        if (round == 2) { // unfinished
                            H f(*vm), coro(*vm);
                            vm->get_export("p", "main", f);
                            tiro_make_coroutine(*vm, f, args, coro, Err());
                            tiro_coroutine_start(*vm, coro, Err());
                        }
                    }
                    finalized.clear();
                    if (round)
                        news += sysmem::news - before;
                }
                MC_CHECK(sysmem::bytes == bytes && sysmem::block_count == blocks, "{} bytes not returned", sysmem::bytes - bytes);
                MC_CHECK(news == 0, "{} objects not released", news);
                R.traces();
            });
}

} // namespace

void mc::enumerate() {
    leaks();
    bounded();
    phases();
    holes();
    finalizers();
    teardown();
}
