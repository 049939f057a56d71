// C04: maps and sets against a mathematical, insertion ordered dictionary.
#include <algorithm>
#include <map>

#include "common/driver.hpp"

using namespace mc;

const char* const mc::check_id = "C04";

namespace {

// Operations: (code, key, value)
enum Op { SET = 0, REMOVE = 1, CLEAR = 2, SET_RANGE = 3, REMOVE_RANGE = 4, STEP = 5 };

// The driver knows several universes of keys.  An operation refers to a key by its number.
const char* const driver_source = R"(
import std;

const s = "xabcabcx";
const t1 = (1, 2);
const t2 = (1, 2);
const fn = func() { return 1; };

func mixed() {
    return [0, 1, "abc", s.slice(1, 3), "", null, true, false, #abc, 1.5, t1, t2, fn, 9223372036854775807, s.slice(4, 3), "a" ];
}

func apply(m, keys, op, a, b) {
    if (op == 0) {
        m[keys[a]] = b;
    } else if (op == 1) {
        m.remove(keys[a]);
    } else {
        m.clear();
    }
}

func find(keys, k) {
    for var i = 0; i < keys.size(); i += 1 {
        if (keys[i] == k) { return i; }
    }
    return -1;
}

func dump(m, keys, out) {
    out.append(m.size());
    for k in keys {
        out.append(if (m.contains(k)) { 1; } else { 0; });
        out.append(m[k]);
    }
    for (k, v) in m {
        out.append(find(keys, k));
        out.append(v);
    }
    for k in m.keys() { out.append(find(keys, k)); }
    for v in m.values() { out.append(v); }
    return out;
}

func dump_set(m, keys, out) {
    out.append(m.size());
    for k in keys {
        out.append(if (m.contains(k)) { 1; } else { 0; });
    }
    for k in m { out.append(find(keys, k)); }
    return out;
}

func keys_of(ops) {
    const n = ops[0];
    if (n < 0) { return mixed(); }
    const keys = [];
    for var i = 0; i < n; i += 1 { keys.append(ops[i + 1]); }
    return keys;
}

// [number of keys, keys..., (op, key, value)...]
export func map_ops(ops) {
    const keys = keys_of(ops);
    const m = map{};
    const out = [];
    for var i = (if (ops[0] < 0) { 1; } else { ops[0] + 1; }); i < ops.size(); i += 3 {
        apply(m, keys, ops[i], ops[i + 1], ops[i + 2]);
    }
    return dump(m, keys, out);
}

export func set_ops(ops) {
    const keys = keys_of(ops);
    const m = set{};
    const out = [];
    for var i = (if (ops[0] < 0) { 1; } else { ops[0] + 1; }); i < ops.size(); i += 3 {
        const op = ops[i];
        if (op == 0) {
            out.append(if (m.insert(keys[ops[i + 1]])) { 1; } else { 0; });
        } else if (op == 1) {
            m.remove(keys[ops[i + 1]]);
        } else {
            m.clear();
        }
    }
    return dump_set(m, keys, out);
}

// Operations before the first STEP are executed at first, the operations up to the next STEP in every step of an iteration.
export func iterate(ops) {
    const keys = keys_of(ops);
    const m = map{};
    const out = [];
    var i = if (ops[0] < 0) { 1; } else { ops[0] + 1; };
    const some = func() {
        while (i < ops.size() && ops[i] != 5) {
            apply(m, keys, ops[i], ops[i + 1], ops[i + 2]);
            i += 3;
        }
        if (i < ops.size()) { i += 3; }
    };
    some();
    for (k, v) in m {
        out.append(find(keys, k));
        out.append(v);
        some();
    }
    out.append(-7);
    return dump(m, keys, out);
}

// Large tables: [key base, key stride, (op, first, last, step, value)...]; key i is base + i * stride.
export func large(ops) {
    const base = ops[0];
    const stride = ops[1];
    const n = ops[2];
    const m = map{};
    const out = [];
    for var i = 3; i < ops.size(); i += 5 {
        const op = ops[i];
        const last = ops[i + 2];
        const step = ops[i + 3];
        var j = ops[i + 1];
        if (op == 3) {
            const v = ops[i + 4];
            while (j < last) { m[base + j * stride] = v + j; j += step; }
        } else if (op == 4) {
            while (j < last) { m.remove(base + j * stride); j += step; }
        } else {
            m.clear();
        }
    }
    out.append(m.size());
    for var j = 0; j < n; j += 1 {
        if (m.contains(base + j * stride)) { out.append(m[base + j * stride]); }
    }
    for (k, v) in m { out.append(k); out.append(v); }
    return out;
}

export func literal_map(ops) {
    const a = ops[0], b = ops[1], c = ops[2], d = ops[3];
    const m = map{a: 1, b: 2, c: 3, d: 4};
    return dump(m, [a, b, c, d], []);
}

export func literal_set(ops) {
    const a = ops[0], b = ops[1], c = ops[2], d = ops[3];
    const m = set{a, b, c, d};
    return dump_set(m, [a, b, c, d], []);
}
)";

// Mixed universe: number of the first equal key.
const std::vector<int> mixed_class = {0, 1, 2, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 2, 15};

struct Model {
    std::map<int64_t, std::pair<uint64_t, int64_t>> m; // key class -> (insertion number, value)
    uint64_t next = 0;
    bool set(int64_t k, int64_t v) {
        auto it = m.find(k);
        if (it != m.end()) {
            it->second.second = v;
            return false;
        }
        m[k] = {next++, v};
        return true;
    }
    std::vector<std::pair<int64_t, int64_t>> ordered() const {
        std::vector<std::tuple<uint64_t, int64_t, int64_t>> v;
        for (auto& [k, e] : m)
            v.push_back({e.first, k, e.second});
        std::sort(v.begin(), v.end());
        std::vector<std::pair<int64_t, int64_t>> r;
        for (auto& [n, k, x] : v)
            r.push_back({k, x});
        return r;
    }
};

using Ops = std::vector<int64_t>;

struct Out {
    std::string s = "[";
    void add(int64_t v) { s += (s.size() > 1 ? "," : "") + std::to_string(v); }
    void null() { s += (s.size() > 1 ? ",null" : "null"); }
    std::string done() { return s + "]"; }
};

struct Universe {
    Ops keys; // empty: mixed
    std::vector<int> cls;
    size_t size() const { return cls.size(); }
};

void expect_dump(const Model& m, const Universe& u, Out& o, bool set = false) {
    o.add(int64_t(m.m.size()));
    for (int c : u.cls) {
        auto it = m.m.find(c);
        o.add(it != m.m.end());
        if (!set) {
            if (it != m.m.end())
                o.add(it->second.second);
            else
                o.null();
        }
    }
    auto l = m.ordered();
    for (auto& [k, v] : l) {
        o.add(k);
        if (!set)
            o.add(v);
    }
    if (!set) {
        for (auto& [k, v] : l)
            o.add(k);
        for (auto& [k, v] : l)
            o.add(v);
    }
}

Ops header(const Universe& u) {
    Ops r;
    if (u.keys.empty())
        return {-1};
    r.push_back(int64_t(u.keys.size()));
    r.insert(r.end(), u.keys.begin(), u.keys.end());
    return r;
}

void compare(Driver& d, const char* fn, const Ops& ops, const std::string& expected) {
    Outcome got = d.run(fn, ops);
    R.evaluations();
    R.traces();
    R.transitions(ops.size() / 3);
    R.states();
    R.outcome(expected);
    if (!got.ok || got.value != expected)
        fail("{} {}\nexpected {}\nobserved {}", fn, show(ops), expected.substr(0, 3000), got.str().substr(0, 3000));
    R.nontrivial();
    if (R.want_sample())
        R.sample(fmt::format("{} {} => {}", fn, show(ops), expected).substr(0, 400));
}

void run_ops(Driver& d, const Universe& u, const Ops& ops, bool set) {
    Model m;
    Out o;
    for (size_t i = 0; i < ops.size(); i += 3) {
        int64_t k = ops[i] == CLEAR ? 0 : u.cls[size_t(ops[i + 1])];
        if (ops[i] == SET) {
            bool inserted = m.set(k, set ? 0 : ops[i + 2]);
            if (set)
                o.add(inserted);
        } else if (ops[i] == REMOVE)
            m.m.erase(k);
        else
            m.m.clear();
    }
    expect_dump(m, u, o, set);
    Ops all = header(u);
    all.insert(all.end(), ops.begin(), ops.end());
    compare(d, set ? "set_ops" : "map_ops", all, o.done());
}

// Integer hashing of the current implementation. If it changes, the enumeration below merely loses its
// control over collisions.
uint64_t hash_of(int64_t v) {
    uint64_t h = 0xcbf29ce484222325ull;
    for (int i = 0; i < 8; ++i)
        h = (h ^ ((uint64_t(v) >> (8 * i)) & 0xff)) * 0x100000001b3ull;
    return h;
}

// The n-th integer whose hash is `bucket` modulo `mod`.
int64_t key_for(uint64_t bucket, uint64_t mod, int n) {
    static std::map<std::pair<uint64_t, uint64_t>, std::vector<int64_t>> cache;
    auto& v = cache[{mod, bucket}];
    for (int64_t k = v.empty() ? 0 : v.back() + 1; int(v.size()) <= n; ++k)
        if (hash_of(k) % mod == bucket)
            v.push_back(k);
    return v[size_t(n)];
}

Universe pattern(const std::vector<int>& buckets, uint64_t mod) {
    Universe u;
    std::map<int, int> used;
    for (size_t i = 0; i < buckets.size(); ++i) {
        u.keys.push_back(key_for(uint64_t(buckets[i]), mod, used[buckets[i]]++));
        u.cls.push_back(int(i));
    }
    return u;
}

void add(Ops& o, int64_t op, int64_t k, int64_t v = 0) {
    o.push_back(op);
    o.push_back(k);
    o.push_back(v);
}

// Every pattern of ideal buckets; every ordered choice of removals; a re-insertion.
void patterns() {
    for (size_t n = 2; n <= (R.thorough ? 6u : 5u); ++n) {
        std::vector<std::vector<int>> block;
        auto flush = [&] {
            if (block.empty())
                return;
            if (R.claim()) {
                auto b = block;
                R.exec(fmt::format("patterns {}..", show(Ops(b[0].begin(), b[0].end()))), [&] {
                    Driver d(driver_source);
                    for (auto& p : b) {
                        Universe u = pattern(p, 8);
                        Ops base;
                        for (size_t k = 0; k < n; ++k)
                            add(base, SET, int64_t(k), int64_t(10 + k));
                        for (size_t r1 = 0; r1 < n; ++r1) {
                            Ops o1 = base;
                            add(o1, REMOVE, int64_t(r1));
                            run_ops(d, u, o1, false);
                            if (n > 5)
                                continue;
                            for (size_t r2 = 0; r2 < n; ++r2) {
                                if (r1 == r2)
                                    continue;
                                Ops o2 = o1;
                                add(o2, REMOVE, int64_t(r2));
                                if (n <= 4)
                                    run_ops(d, u, o2, true);
                                add(o2, SET, int64_t(r1), 99);
                                run_ops(d, u, o2, false);
                            }
                        }
                    }
                });
            }
            block.clear();
        };
        auto each = [&](const std::vector<int>& seq) {
            // one rotation is enough for the larger patterns: the first key goes to bucket 6, which makes chains wrap around
            std::vector<int> p = seq;
            if (n >= 5)
                p.insert(p.begin(), 6);
            block.push_back(p);
            if (block.size() == 128)
                flush();
        };
        all_sequences(8, n >= 5 ? n - 1 : n, each);
        flush();
    }
}

// All sequences of operations.
void sequences(const Universe& u, const std::string& name, size_t depth, bool set) {
    size_t nk = u.size(), alphabet = 2 * nk + 1;
    auto op = [&](Ops& o, int c, size_t at) {
        if (size_t(c) < nk)
            add(o, SET, c, int64_t(at) + 1);
        else if (size_t(c) < 2 * nk)
            add(o, REMOVE, c - int64_t(nk));
        else
            add(o, CLEAR, 0);
    };
    for (size_t len = 1; len <= depth; ++len) {
        size_t tail = std::min<size_t>(len, alphabet > 16 ? 2 : 3);
        all_sequences(alphabet, len - tail, [&](const std::vector<int>& head) {
            if (!head.empty() && head[0] >= int(nk))
                return; // nothing to remove yet
            if (!R.claim())
                return;
            R.exec(fmt::format("{} {} {} [{}]", name, set ? "set" : "map", len, show(Ops(head.begin(), head.end()))), [&] {
                Driver d(driver_source);
                Ops pre;
                for (size_t i = 0; i < head.size(); ++i)
                    op(pre, head[i], i);
                all_sequences(alphabet, tail, [&](const std::vector<int>& t) {
                    Ops o = pre;
                    for (size_t i = 0; i < tail; ++i)
                        op(o, t[i], head.size() + i);
                    run_ops(d, u, o, set);
                });
            });
        });
    }
}

// Tables filled up to n, thinned out, and filled again.
void fills() {
    std::vector<int> sizes = {3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 18, 23, 24, 25, 26, 47, 48, 49, 95, 96, 97, 191, 192, 193, 254, 255, 256, 257, 383, 384, 385};
    if (R.thorough)
        for (int n = 15; n <= 300; ++n)
            sizes.push_back(n);
    auto execute = [&](Driver& d, int64_t base, int64_t stride, int64_t n, const Ops& ops) {
        Model m;
        for (size_t i = 0; i < ops.size(); i += 5) {
            if (ops[i] == CLEAR)
                m.m.clear();
            else
                for (int64_t j = ops[i + 1]; j < ops[i + 2]; j += ops[i + 3]) {
                    if (ops[i] == SET_RANGE)
                        m.set(base + j * stride, ops[i + 4] + j);
                    else
                        m.m.erase(base + j * stride);
                }
        }
        Out o;
        o.add(int64_t(m.m.size()));
        for (int64_t j = 0; j < n; ++j) {
            auto it = m.m.find(base + j * stride);
            if (it != m.m.end())
                o.add(it->second.second);
        }
        for (auto& [k, v] : m.ordered()) {
            o.add(k);
            o.add(v);
        }
        Ops all = {base, stride, n};
        all.insert(all.end(), ops.begin(), ops.end());
        compare(d, "large", all, o.done());
    };
    for (int n : sizes)
        for (int64_t stride : {1, 256, 1 << 20}) {
            if (!R.claim())
                continue;
            R.exec(fmt::format("fill {} stride {}", n, stride), [&] {
                Driver d(driver_source);
                for (int64_t first : {0, 1, n / 2, n - 1})
                    for (int64_t step : {1, 2, 3, 5})
                        for (int64_t last : {n, n - 1, n / 2 + 1})
                            for (int64_t more : {0, 1, n / 3 + 1, n + 1})
                                for (int mode = 0; mode < 3; ++mode) {
                                    Ops o = {SET_RANGE, 0, n, 1, 1000, REMOVE_RANGE, first, last, step, 0};
                                    if (mode == 1) { // refill the holes, remove others
                                        for (int64_t x : {int64_t(SET_RANGE), first, last, step * 2, int64_t(5000), int64_t(REMOVE_RANGE), int64_t(0), int64_t(n), int64_t(4), int64_t(0)})
                                            o.push_back(x);
                                    } else if (mode == 2) {
                                        for (int64_t x : {int64_t(CLEAR), int64_t(0), int64_t(0), int64_t(1), int64_t(0)})
                                            o.push_back(x);
                                    }
                                    for (int64_t x : {int64_t(SET_RANGE), int64_t(n), int64_t(n) + more, int64_t(1), int64_t(9000)})
                                        o.push_back(x);
                                    execute(d, 7, stride, n + more, o);
                                }
            });
        }
    // the largest index types
    for (int64_t n : {49152, 65534, 65535, 65536, 65537, 98304, 98305})
        for (int64_t step : {1, 2, 7}) {
            if (!R.claim())
                continue;
            R.exec(fmt::format("fill {} step {}", n, step), [&] {
                VmOptions opts;
                opts.max_heap = size_t(1) << 30;
                Driver d(driver_source, opts);
                execute(d, 3, 1, n, {SET_RANGE, 0, n, 1, 1000, REMOVE_RANGE, 1, n / 3, step, 0, SET_RANGE, 0, n, 13, 7000000});
            });
        }
}

// Modifications during an iteration.
void iterations() {
    // modifications: set k, remove k, clear
    for (int pat = 0; pat < 4; ++pat) {
        Universe u = pattern(pat == 0 ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7} : pat == 1 ? std::vector<int>{5, 5, 5, 5, 5, 5, 5, 5}
                                 : pat == 2 ? std::vector<int>{6, 6, 7, 7, 0, 0, 6, 7} : std::vector<int>{3, 2, 1, 0, 0, 1, 2, 3}, 16);
        const int nk = 8;
        for (int fill = 1; fill <= 6; ++fill)
            for (int hole = -1; hole < fill; ++hole)
                for (int at = 0; at < fill; ++at) {
                    if (!R.claim())
                        continue;
                    R.exec(fmt::format("iterate pattern {} fill {} hole {} at {}", pat, fill, hole, at), [&] {
                        Driver d(driver_source);
                        size_t len = R.thorough ? 3 : 2;
                        all_sequences(2 * nk + 1, len, [&](const std::vector<int>& mods) {
                            Ops ops;
                            Model m;
                            auto apply = [&](int64_t op, int64_t k, int64_t v) {
                                if (op == SET)
                                    m.set(k, v);
                                else if (op == REMOVE)
                                    m.m.erase(k);
                                else if (op == CLEAR)
                                    m.m.clear();
                            };
                            for (int k = 0; k < fill; ++k)
                                add(ops, SET, k, 10 + k);
                            if (hole >= 0)
                                add(ops, REMOVE, hole);
                            for (int s = 0; s <= at; ++s)
                                add(ops, STEP, 0);
                            bool removes = hole >= 0;
                            for (size_t x = 0; x < len; ++x) {
                                if (mods[x] < nk)
                                    add(ops, SET, mods[x], 100 + int64_t(x));
                                else
                                    add(ops, mods[x] < 2 * nk ? REMOVE : CLEAR, mods[x] % nk), removes = true;
                                if (x == 0 && mods.size() > 2)
                                    add(ops, STEP, 0);
                            }
                            Ops all = header(u);
                            all.insert(all.end(), ops.begin(), ops.end());
                            Outcome got = d.run("iterate", all);
                            R.evaluations();
                            R.traces();
                            R.transitions(ops.size() / 3);
                            // replay on the model with the observed steps
                            Out o;
                            size_t i = 0;
                            auto some = [&] {
                                while (i < ops.size() && ops[i] != STEP) {
                                    apply(ops[i], ops[i + 1], ops[i + 2]);
                                    i += 3;
                                }
                                if (i < ops.size())
                                    i += 3;
                            };
                            some();
                            auto bad = [&](const std::string& why) {
                                fail("iterate {}: {}\nobserved {}", show(all), why, got.str());
                            };
                            if (!got.ok)
                                bad("panic");
                            std::vector<int64_t> vals;
                            std::string text = got.value.substr(1, got.value.size() - 2);
                            size_t p = 0, end = text.find("-7");
                            if (end == text.npos)
                                bad("no end of the iteration");
                            std::vector<std::pair<uint64_t, int64_t>> seen; // (insertion number, key)
                            while (p < end) {
                                char* e;
                                int64_t k = strtoll(text.c_str() + p, &e, 10);
                                p = size_t(e - text.c_str()) + 1;
                                int64_t v = strtoll(text.c_str() + p, &e, 10);
                                p = size_t(e - text.c_str()) + 1;
                                auto it = m.m.find(k);
                                if (it == m.m.end())
                                    bad(fmt::format("key {} is not in the map when it is visited", k));
                                if (it->second.second != v)
                                    bad(fmt::format("key {} has the value {}", k, it->second.second));
                                if (!seen.empty() && seen.back().first >= it->second.first)
                                    bad("not in insertion order");
                                if (!removes) { // every entry is visited
                                    auto l = m.ordered();
                                    if (seen.size() >= l.size() || l[seen.size()].first != k)
                                        bad("an entry was skipped");
                                }
                                seen.push_back({it->second.first, k});
                                some();
                            }
                            if (!removes && seen.size() != m.m.size())
                                bad("not all entries were visited");
                            // operations that were not reached are not executed
                            expect_dump(m, u, o);
                            std::string rest = "[" + text.substr(text.find("-7") + 3) + "]";
                            if (rest != o.done())
                                bad("expected content " + o.done());
                            R.nontrivial();
                            R.outcome(got.value);
                        });
                    });
                }
    }
}

void literals() {
    if (!R.claim())
        return;
    R.exec("literals", [&] {
        Driver d(driver_source);
        all_sequences(4, 4, [&](const std::vector<int>& k) {
            Universe u;
            Model m, s;
            for (int i = 0; i < 4; ++i)
                u.cls.push_back(int(std::find(k.begin(), k.end(), k[size_t(i)]) - k.begin()));
            for (int i = 0; i < 4; ++i) {
                m.set(u.cls[size_t(i)], i + 1);
                s.set(u.cls[size_t(i)], 0);
            }
            Out o, os;
            expect_dump(m, u, o);
            expect_dump(s, u, os, true);
            Ops ops(k.begin(), k.end());
            compare(d, "literal_map", ops, o.done());
            compare(d, "literal_set", ops, os.done());
        });
    });
}

} // namespace

void mc::enumerate() {
    literals();
    patterns();
    size_t n = R.thorough ? 6 : 5;
    sequences(pattern({0, 0, 0, 0, 0}, 8), "same bucket", n, false);
    sequences(pattern({6, 7, 6, 7, 0}, 8), "wrapping", n, false);
    sequences(pattern({0, 0, 1, 1, 2}, 8), "adjacent", n, true);
    sequences(pattern({7, 7, 7, 7}, 64), "collisions", n + 1, false);
    Universe mixed;
    mixed.cls = mixed_class;
    sequences(mixed, "mixed", R.thorough ? 4 : 3, false);
    sequences(mixed, "mixed", R.thorough ? 4 : 3, true);
    iterations();
    fills();
}
