// C07: strings, slices, builders and interpolation against exact byte strings.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <memory>

#include "common/lang.hpp"

using namespace mc;

const char* const mc::check_id = "C07";

namespace {

#ifdef MC_SAN
const bool san = true;
#else
const bool san = false;
#endif

using Ops = std::vector<int64_t>;
using Strs = std::vector<std::string>;

const char* const driver_source = R"(
import std;

func iter(s) {
    const r = [];
    for c in s { r.append(c); }
    return r;
}

// 0: slice, 1: slice_first, 2: slice_last, 3: to_string
export func slices(ops, strs) {
    const first = strs[0];
    const e = strs[1];
    var s = first;
    for var i = 0; i < ops.size(); i += 3 {
        const op = ops[i];
        if op == 0 {
            s = s.slice(ops[i + 1], ops[i + 2]);
        } else if op == 1 {
            s = s.slice_first(ops[i + 1]);
        } else if op == 2 {
            s = s.slice_last(ops[i + 1]);
        } else {
            s = s.to_string();
        }
    }
    const m = map{s: 1};
    m[e] = 2;
    const b = std.new_string_builder();
    b.append(s, e);
    return [s.size(), "$s", iter(s), s == e, e == s, s != e, m.size(), m[s], s.contains(e), e.contains(s), s.contains(first), b.to_string(), first];
}

// a: way of construction
func make(strs, way, a, b) {
    const s = strs[a];
    if way == 0 { return s; }
    if way == 1 { return "x${s}y".slice(1, s.size()); }
    if way == 2 { return "${s}"; }
    const sb = std.new_string_builder();
    sb.append(s);
    if way == 3 { return sb.to_string(); }
    if way == 4 { return s.slice(0, s.size()); }
    return "xx${s}yy".slice(1, s.size() + 2).slice(1, s.size()).to_string();
}

// 0: append, 1: append (way 2nd), 2: append_byte, 3: clear, 4: append several, 5: append n times, 6: read (not the size)
export func builder(ops, strs) {
    const b = std.new_string_builder();
    const out = [];
    const keep = [];
    for var i = 0; i < ops.size(); i += 3 {
        const op = ops[i];
        const x = ops[i + 1];
        const y = ops[i + 2];
        if op == 0 {
            out.append(b.append(strs[x]));
        } else if op == 1 {
            out.append(b.append(make(strs, y, x, 0)));
        } else if op == 2 {
            const r = std.catch_panic(func() = b.append_byte(x));
            out.append(r.is_error());
        } else if op == 3 {
            out.append(b.clear());
        } else if op == 4 {
            out.append(b.append(strs[x], strs[y], x, strs[x]));
        } else if op == 5 {
            for var j = 0; j < y; j += 1 { b.append(strs[x]); }
        } else {
            const s = b.to_string();
            keep.append(s);
            out.append(s.size());
        }
        out.append(b.size());
        keep.append(b.to_string());
    }
    return (out, keep);
}

export func contains(ops, strs) {
    const h = make(strs, ops[0], 0, 0);
    const n = make(strs, ops[1], 1, 0);
    const b = std.new_string_builder();
    b.append(h);
    return [h.contains(n), b.contains(n), h == n, map{h: 1}.contains(n)];
}

// all the ways of construction are interchangeable
export func same(ops, strs) {
    const out = [];
    const a = make(strs, ops[0], 0, 0);
    const b = make(strs, ops[1], 1, 0);
    const m = map{a: 1};
    m[b] = 2;
    const s = set{a, b};
    out.append(a == b);
    out.append(b == a);
    out.append(a != b);
    out.append(m.size());
    out.append(s.size());
    out.append(m[strs[0]]);
    out.append(m[strs[1]]);
    out.append("$a|$b");
    m.remove(b);
    out.append(m.size());
    return out;
}

export func host(ops, strs) {
    const s = strs[0];
    const r = [s, s.size(), iter(s), std.to_utf8(s), "$s", std.to_utf8("a$s")];
    const e = std.catch_panic(func() = std.panic(s)).error();
    return (r, e.message(), "${e}", s);
}
)";

struct Case {
    std::string fn;
    Ops ops;
    Strs strs;
    std::string expected;
    std::string key() const {
        std::string k = fn;
        for (auto o : ops)
            k += " " + std::to_string(o);
        for (auto& s : strs)
            k += " " + (s.size() > 60 ? fmt::format("{}..({})", quote(s.substr(0, 20)), s.size()) : quote(s));
        return k;
    }
};

void run_case(Vm& vm, const Case& c) {
    H ops(vm), strs(vm), v(vm), args(vm);
    tiro_make_array(vm, c.ops.size(), ops, Err());
    for (int64_t op : c.ops) {
        tiro_make_integer(vm, op, v, Err());
        tiro_array_push(vm, ops, v, Err());
    }
    tiro_make_array(vm, c.strs.size(), strs, Err());
    for (auto& s : c.strs) {
        tiro_make_string(vm, S(s), v, Err());
        tiro_array_push(vm, strs, v, Err());
    }
    tiro_make_tuple(vm, 2, args, Err());
    tiro_tuple_set(vm, args, 0, ops, Err());
    tiro_tuple_set(vm, args, 1, strs, Err());
    Outcome got = vm.call("m", c.fn, args);
    if (!got.ok || got.value != c.expected)
        fail("expected value {}\nobserved {}", c.expected, got.str());
}

class Cases {
public:
    ~Cases() noexcept(false) {
        if (!std::uncaught_exceptions())
            flush();
    }
    template<typename F>
    void add(F&& f) {
        if (count_ == 0)
            mine_ = R.claim();
        if (mine_)
            items_.push_back(f());
        if (++count_ == 400)
            flush();
    }
    void flush() {
        count_ = 0;
        if (items_.empty())
            return;
        auto work = std::move(items_);
        items_.clear();
        R.exec_batch(
            work.size(), [&](size_t i) { return work[i].key(); },
            [&](size_t b, size_t e) {
                Vm vm;
                vm.load_source(driver_source, "m");
                for (size_t i = b; i < e; ++i) {
                    R.sub(i);
                    if (R.want_sample())
                        R.sample((work[i].key() + " => " + work[i].expected).substr(0, 300));
                    R.states(1);
                    R.transitions(std::max<size_t>(1, work[i].ops.size()));
                    R.evaluations(1);
                    R.traces(1);
                    R.outcome(work[i].expected);
                    try {
                        run_case(vm, work[i]);
                    } catch (Failure& f) {
                        R.sub_fail(i, f.what);
                    }
                }
            });
    }

private:
    std::vector<Case> items_;
    size_t count_ = 0;
    bool mine_ = false;
};

const char* tf(bool b) {
    return b ? "true" : "false";
}
std::string bytes(std::string_view s) {
    std::string r = "[";
    for (size_t i = 0; i < s.size(); ++i)
        r += (i ? "," : "") + quote(s.substr(i, 1));
    return r + "]";
}
bool has(const std::string& a, const std::string& b) {
    return std::search(a.begin(), a.end(), b.begin(), b.end()) != a.end() || b.empty();
}

// Clamped to the string.
std::string slice_of(const std::string& s, int64_t off, int64_t size) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
        if ((off < 0 || i >= uint64_t(off)) && (size > 0 && i - uint64_t(std::max<int64_t>(0, off)) < uint64_t(size)))
            r += s[i];
    return r;
}
std::string apply(const std::string& s, int64_t op, int64_t a, int64_t b) {
    if (op == 0)
        return slice_of(s, a, b);
    if (op == 1)
        return slice_of(s, 0, a);
    if (op == 2) {
        std::string t(s.rbegin(), s.rend());
        t = slice_of(t, 0, a);
        return std::string(t.rbegin(), t.rend());
    }
    return s;
}

Case slice_case(const std::string& s, const Ops& ops) {
    std::string e = s;
    for (size_t i = 0; i < ops.size(); i += 3)
        e = apply(e, ops[i], ops[i + 1], ops[i + 2]);
    return {"slices", ops, {s, e},
        fmt::format("[{},{},{},true,true,false,1,2,true,true,{},{},{}]", e.size(), quote(e), bytes(e), tf(e.size() == s.size()), quote(e + e), quote(s))};
}

const int64_t imin = INT64_MIN, imax = INT64_MAX;
const std::vector<int64_t> extremes = {imin, imin + 1, -(int64_t(1) << 32), (int64_t(1) << 31) - 1, int64_t(1) << 31, (int64_t(1) << 32) - 1, int64_t(1) << 32, (int64_t(1) << 32) + 1, int64_t(1) << 62, imax - 1, imax};

std::vector<int64_t> around(int64_t n, size_t ext) {
    std::vector<int64_t> r;
    for (int64_t i = -1; i <= n + 1; ++i)
        r.push_back(i);
    if (ext == 1)
        r.insert(r.end(), {imin, int64_t(1) << 32, imax});
    if (ext == 2)
        r.insert(r.end(), extremes.begin(), extremes.end());
    return r;
}

template<typename F>
void each_slice(const std::vector<int64_t>& values, F&& f) {
    for (int64_t a : values) {
        for (int64_t b : values)
            f(0, a, b);
        f(1, a, 0);
        f(2, a, 0);
    }
}

void slices() {
    Cases c;
    std::vector<std::string> texts = {"", "a", "ab", "aba", "abab", "abcde", "a\xc3\xa9", std::string("\0a\0", 3), "\xf0\x9f\x98\x80", "aaaaaa"};
    for (auto& s : texts) {
        int64_t n = int64_t(s.size());
        each_slice(around(n, 2), [&](int64_t op, int64_t a, int64_t b) {
            c.add([&] { return slice_case(s, {op, a, b}); });
            c.add([&] { return slice_case(s, {op, a, b, 3, 0, 0}); });
        });
        if (n > (R.thorough ? 6 : 5))
            continue;
        each_slice(around(n, 1), [&](int64_t op, int64_t a, int64_t b) {
            each_slice(around(n, 1), [&](int64_t op2, int64_t a2, int64_t b2) {
                c.add([&] { return slice_case(s, {op, a, b, op2, a2, b2}); });
                if (R.thorough)
                    c.add([&] { return slice_case(s, {op, a, b, 3, 0, 0, op2, a2, b2, 3, 0, 0}); });
            });
        });
    }
    for (auto& s : {std::string("abc"), std::string("abcdefgh")}) {
        if (s.size() > 3 && !R.thorough)
            break;
        std::vector<int64_t> v = s.size() > 3 ? std::vector<int64_t>{0, 1, 3, 6, imax} : R.thorough ? std::vector<int64_t>{-1, 0, 1, 2, 3, 4} : std::vector<int64_t>{0, 1, 2, 4};
        each_slice(v, [&](int64_t op, int64_t a, int64_t b) {
            each_slice(v, [&](int64_t op2, int64_t a2, int64_t b2) { each_slice(v, [&](int64_t op3, int64_t a3, int64_t b3) { c.add([&] { return slice_case(s, {op, a, b, op2, a2, b2, op3, a3, b3}); }); }); });
        });
    }
    // long strings
    for (size_t n : {63u, 64u, 65u, 1000u, 70000u}) {
        std::string s;
        for (size_t i = 0; i < n; ++i)
            s += char('a' + i % 23);
        std::vector<int64_t> v = {0, 1, int64_t(n) / 2, int64_t(n) - 1, int64_t(n), int64_t(n) + 1, 31, 32};
        if (n > 1000)
            v = {0, 65535, 65536, 65537};
        each_slice(v, [&](int64_t op, int64_t a, int64_t b) {
            if (apply(s, op, a, b).size() < 3000)
                c.add([&] { return slice_case(s, {op, a, b}); });
        });
    }
}

Case builder_case(const Ops& ops, const Strs& strs) {
    std::string b, out, keep;
    auto put = [](std::string& l, const std::string& v) { l += (l.empty() ? "" : ",") + v; };
    for (size_t i = 0; i < ops.size(); i += 3) {
        auto x = ops[i + 1], y = ops[i + 2];
        switch (ops[i]) {
        case 0:
        case 1:
            b += strs[size_t(x)];
            put(out, "null");
            break;
        case 2:
            if (x >= 0 && x <= 255)
                b += char(x);
            put(out, tf(x < 0 || x > 255));
            break;
        case 3:
            b.clear();
            put(out, "null");
            break;
        case 4:
            b += strs[size_t(x)] + strs[size_t(y)] + std::to_string(x) + strs[size_t(x)];
            put(out, "null");
            break;
        case 5:
            for (int64_t j = 0; j < y; ++j)
                b += strs[size_t(x)];
            break;
        case 6:
            put(keep, quote(b));
            put(out, std::to_string(b.size()));
            break;
        }
        put(out, std::to_string(b.size()));
        put(keep, quote(b));
    }
    return {"builder", ops, strs, fmt::format("([{}],[{}])", out, keep)};
}

void builders() {
    Cases c;
    const Strs strs = {"", "a", "\xe2\x82\xac", std::string("x\0y", 3), std::string(63, 'k'), std::string(65, 'l')};
    struct Op {
        int64_t op, x, y;
    };
    std::vector<Op> ops = {{0, 0, 0}, {0, 1, 0}, {0, 2, 0}, {0, 4, 0}, {0, 5, 0}, {1, 3, 1}, {1, 3, 3}, {1, 4, 4}, {1, 0, 1}, {1, 2, 5}, {2, 0, 0}, {2, 255, 0}, {2, 256, 0}, {2, -1, 0}, {3, 0, 0}, {4, 1, 2}, {4, 0, 5}, {6, 0, 0}};
    for (size_t n = 1; n <= (san ? 3u : R.thorough ? 5u : 4u); ++n)
        all_sequences(n == 5 ? 12 : ops.size(), n, [&](const std::vector<int>& s) {
            c.add([&] {
                Ops o;
                for (int i : s) {
                    auto& op = ops[size_t(n == 5 ? (i * 7) % 18 : i)];
                    o.insert(o.end(), {op.op, op.x, op.y});
                }
                return builder_case(o, strs);
            });
        });
    for (int64_t x = -3; x < 300; ++x)
        c.add([&] { return builder_case({0, 1, 0, 2, x, 0, 2, 65, 0}, strs); });
    for (int64_t x : extremes)
        c.add([&] { return builder_case({0, 1, 0, 2, x, 0, 2, 65, 0}, strs); });
    // growth: n then m bytes, one by one or at once, with clear in between
    std::vector<int64_t> sizes = {0, 1, 2, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025};
    if (R.thorough)
        for (int64_t i = 3; i < 300; i += 7)
            sizes.push_back(i);
    for (int64_t a : sizes)
        for (int64_t b : sizes)
            for (int form = 0; form < 4; ++form)
                c.add([&] {
                    Strs s = {std::string(size_t(a), 'p'), std::string(size_t(b), 'q'), "r", "\xc3\xa9"};
                    switch (form) {
                    case 0:
                        return builder_case({0, 0, 0, 0, 1, 0, 0, 2, 0}, s);
                    case 1:
                        return builder_case({5, 2, a, 5, 3, b}, s);
                    case 2:
                        return builder_case({0, 0, 0, 3, 0, 0, 0, 1, 0, 6, 0, 0}, s);
                    default:
                        return builder_case({1, 0, 1, 1, 1, 3, 2, 90, 0, 1, 1, 4}, s);
                    }
                });
    for (int64_t n : {4095, 4096, 65535, 65536, 65537, 200000})
        c.add([&] { return builder_case({0, 0, 0, 0, 1, 0}, {std::string(size_t(n), 'p'), "zz"}); });
}

// All pairs of texts over two letters: searching, equality, keys, in all representations.
void pairs() {
    Cases c;
    std::vector<std::string> texts;
    const std::string alphabet = "ab";
    for (size_t n = 0; n <= (R.thorough ? 6u : 5u); ++n)
        all_sequences(2, n, [&](const std::vector<int>& s) {
            std::string t;
            for (int i : s)
                t += alphabet[size_t(i)];
            texts.push_back(t);
        });
    auto contains = [&](const std::string& h, const std::string& n, int64_t w, int64_t w2) {
        c.add([&] {
            bool in = has(h, n), eq = h == n;
            return Case{"contains", {w, w2}, {h, n}, fmt::format("[{},{},{},{}]", in, in, eq, eq)};
        });
    };
    auto same = [&](const std::string& a, const std::string& b, int64_t w, int64_t w2) {
        c.add([&] {
            bool eq = a == b;
            return Case{"same", {w, w2}, {a, b}, fmt::format("[{0},{0},{1},{2},{2},{3},2,{4},{5}]", eq, !eq, eq ? 1 : 2, eq ? 2 : 1, quote(a + "|" + b), eq ? 0 : 1)};
        });
    };
    for (auto& h : texts)
        for (auto& n : texts)
            for (int64_t w : {0, 1})
                for (int64_t w2 : {0, 1})
                    if (n.size() <= 4)
                        contains(h, n, w, w2);
    std::vector<std::string> others = {"", "a", "b", "aa", "ab", "abc", "\xc3\xa9", "\xc3", std::string("a\0", 2), std::string("a\0b", 3), std::string("\0", 1), "#a", "null", "1", "1.0", "true", std::string(64, 'a'), std::string(65, 'a'), std::string(64, 'a') + "b",
        std::string(1000, 'z'), std::string(999, 'z') + "y", std::string(70000, 'w')};
    for (auto& a : others)
        for (auto& b : others)
            for (int64_t w = 0; w < 6; ++w)
                for (int64_t w2 = 0; w2 < 6; ++w2) {
                    same(a, b, w, w2);
                    contains(a, b, w, w2);
                }
    for (auto& a : texts)
        for (auto& b : texts)
            if (a.size() <= 4 && b.size() <= 4)
                for (int64_t w : {0, 1, 3})
                    same(a, b, w, 4);
    // needles at every position of long strings
    for (size_t n : {40u, 100u})
        for (size_t at = 0; at <= n; ++at)
            for (std::string needle : {"x", "xy", "ax", "axa", "xa"}) {
                std::string h(n, 'a');
                h.insert(at, "x");
                contains(h, needle, 1, 4);
            }
}

// Host strings with all bytes arrive unchanged and come back unchanged.
void host() {
    Cases c;
    auto one = [&](const std::string& s) {
        c.add([&] {
            return Case{"host", {}, {s},
                fmt::format("([{0},{1},{2},buffer({0}),{0},buffer({3})],{0},{4},{0})", quote(s), s.size(), bytes(s), quote("a" + s), quote("Exception: " + s))};
        });
    };
    for (size_t n = 0; n <= 2; ++n)
        all_sequences(256, n, [&](const std::vector<int>& s) {
            std::string t;
            for (int i : s)
                t += char(i);
            one(t);
        });
    for (size_t n = 0; n < 300; ++n)
        one(std::string(n, 'm') + "\xe2\x82\xac");
    // through the interface only
    for (size_t n : {0u, 1u, 2u, 7u, 8u, 63u, 64u, 1000u, 65535u, 65536u, 1000000u})
        R.run(fmt::format("host string of {} bytes", n), [&] {
            Vm vm;
            std::string s;
            for (size_t i = 0; i < n; ++i)
                s += char(i * 7 + 1);
            H h(vm), h2(vm), h3(vm);
            tiro_make_string(vm, S(s), h, Err());
            tiro_string_t v;
            tiro_string_value(vm, h, &v, Err());
            MC_CHECK(V(v) == s, "tiro_string_value");
            char* z = nullptr;
            tiro_string_cstr(vm, h, &z, Err());
            bool ok = strcmp(z, s.c_str()) == 0 && strlen(z) == strlen(s.c_str());
            ok = ok && memcmp(z, s.data(), s.size()) == 0 && z[s.size()] == 0;
            free(z);
            MC_CHECK(ok, "tiro_string_cstr");
            tiro_value_to_string(vm, h, h2, Err());
            tiro_string_value(vm, h2, &v, Err());
            MC_CHECK(V(v) == s, "tiro_value_to_string");
            tiro_make_string(vm, S(s), h3, Err());
            MC_CHECK(tiro_value_same(vm, h, h), "same");
            R.states(1);
            R.traces(1);
            R.transitions(4);
            R.evaluations(4);
        });
}

// Programs with literals that are interpolated and grouped in all ways.
struct Piece {
    std::string src, text; // within a double quoted string
    std::string single;    // within a single quoted string
};

void interpolation() {
    // (expression, text)
    std::vector<std::pair<std::string, std::string>> vals = {{"1", "1"}, {"-17", "-17"}, {"9223372036854775807", "9223372036854775807"}, {"(-9223372036854775807 - 1)", "-9223372036854775808"}, {"4611686018427387904", "4611686018427387904"},
        {"1.5", "1.5"}, {"-0.25", "-0.25"}, {"null", "null"}, {"true", "true"}, {"false", "false"}, {"#sym", "#sym"}, {"\"\"", ""}, {"\"str\"", "str"}, {"\"abcdef\".slice(1, 3)", "bcd"}, {"\"\xc3\xa9\"", "\xc3\xa9"}, {"\"a$n\"", "a5"},
        {"\"<${\"<${n}>\"}>\"", "<<5>>"}, {"n", "5"}, {"\"}\"", "}"}, {"'\"'", "\""}, {"{ const z = \"w\"; z; }", "w"}, {"if n == 5 { \"yes\"; } else { \"no\"; }", "yes"}, {"(1 + 2) * n", "15"}, {"std.catch_panic(func() = std.panic(\"boom\")).error()", "Exception: boom"},
        {"map{\"}\": \"{\"}[\"}\"]", "{"}, {"(a: \"r\").a", "r"}, {"[\"q\"][0]", "q"}, {"\"$\xc3\xa9\"", ""}};
    vals.pop_back();
    std::vector<Piece> ps = {{"", "", ""}, {"a", "a", "a"}, {" ", " ", " "}, {"\\n", "\n", "\\n"}, {"\\\"", "\"", "\""}, {"'", "'", "\\'"}, {"\\$", "$", "\\$"}, {"\xc3\xa9", "\xc3\xa9", "\xc3\xa9"}, {"\\u{20ac}", "\xe2\x82\xac", "\\u{20ac}"}, {"{", "{", "{"}, {"}", "}", "}"}, {"\\\\", "\\", "\\\\"},
        {"$s ", "str ", "$s "}, {"$n", "5", "$n"}, {"${n}", "5", "${n}"}, {"$n$s", "5str", "$n$s"}, {"${s}", "str", "${s}"}, {"//", "//", "//"}, {"\\x41", "A", "\\x41"}, {"\n", "\n", "\n"}};
    // characters that would continue an identifier must not follow a $variable directly
    auto conflict = [](const std::string& a, const std::string& b) {
        size_t d = a.rfind('$');
        bool open = d != a.npos && d + 1 < a.size() && a[d + 1] != '{' && (d == 0 || a[d - 1] != '\\') && isalnum((unsigned char) a.back());
        return open && !b.empty() && (isalnum((unsigned char) b[0]) || b[0] == '_' || (unsigned char) b[0] >= 0x80);
    };
    struct Prog {
        std::string expr, text;
    };
    std::vector<Prog> batch;
    bool mine = false;
    size_t count = 0;
    auto flush = [&] {
        count = 0;
        if (batch.empty())
            return;
        auto work = std::move(batch);
        batch.clear();
        R.exec_batch(
            work.size(), [&](size_t i) { return "expression " + work[i].expr; },
            [&](size_t b, size_t e) {
                std::string src = "import std;\n";
                for (size_t i = b; i < e; ++i)
                    src += fmt::format("export func f{}(n, s) = {};\n", i, work[i].expr);
                Vm vm;
                vm.load_source(src, "m");
                for (size_t i = b; i < e; ++i) {
                    R.sub(i);
                    H args(vm), v(vm);
                    tiro_make_tuple(vm, 2, args, Err());
                    tiro_make_integer(vm, 5, v, Err());
                    tiro_tuple_set(vm, args, 0, v, Err());
                    tiro_make_string(vm, S("str"), v, Err());
                    tiro_tuple_set(vm, args, 1, v, Err());
                    if (R.want_sample())
                        R.sample(work[i].expr + " => " + quote(work[i].text));
                    R.states(1);
                    R.traces(1);
                    R.transitions(1);
                    R.evaluations(1);
                    R.outcome(work[i].text);
                    Outcome got = vm.call("m", fmt::format("f{}", i), args);
                    if (!got.ok || got.value != quote(work[i].text))
                        R.sub_fail(i, fmt::format("expected {}\nobserved {}", quote(work[i].text), got.str()));
                }
            });
    };
    auto add = [&](auto&& f) {
        if (count == 0)
            mine = R.claim();
        if (mine)
            batch.push_back(f());
        if (++count == 100)
            flush();
    };
    // literal text around interpolated values
    for (auto& v : vals)
        for (auto& a : ps)
            for (auto& b : ps)
                if (!san || &a == &ps[0] || &b == &ps[0])
                add([&] { return Prog{"\"" + a.src + "${" + v.first + "}" + b.src + "\"", a.text + v.second + b.text}; });
    for (auto& v : vals)
        for (auto& w : vals) {
            if (san && !R.thorough)
                break;
            add([&] { return Prog{"\"${" + v.first + "}${" + w.first + "}\"", v.second + w.second}; });
            add([&] { return Prog{"'${" + v.first + "}-${" + w.first + "}'", v.second + "-" + w.second}; });
            add([&] { return Prog{"\"${\"${" + v.first + "}\"}\" '${" + w.first + "}'", v.second + w.second}; });
        }
    // sequences of pieces, in one literal or in several adjacent ones, with both delimiters
    for (size_t n = 1; n <= (san ? 2u : R.thorough ? 4u : 3u); ++n)
        all_sequences(ps.size(), n, [&](const std::vector<int>& s) {
            bool bad = false;
            for (size_t i = 0; i + 1 < s.size(); ++i)
                bad = bad || conflict(ps[size_t(s[i])].src, ps[size_t(s[i + 1])].src);
            std::string text, dbl, sgl, group;
            auto build = [&] {
                text = dbl = sgl = group = "";
                for (int i : s) {
                    auto& p = ps[size_t(i)];
                    text += p.text;
                    dbl += p.src;
                    sgl += p.single;
                    group += (group.empty() ? "" : " ") + ((i & 1) ? "'" + p.single + "'" : "\"" + p.src + "\"");
                }
            };
            bool empty_between = false; // a$n + "" + b
            for (size_t i = 1; i + 1 < s.size(); ++i)
                empty_between = empty_between || s[i] == 0;
            if (!bad && !empty_between) {
                add([&] {
                    build();
                    return Prog{"\"" + dbl + "\"", text};
                });
                add([&] {
                    build();
                    return Prog{"'" + sgl + "'", text};
                });
            }
            add([&] {
                build();
                return Prog{group, text};
            });
        });
    flush();
}

// The text of a number denotes the number.
void numbers() {
    std::vector<int64_t> is;
    for (int sh = 0; sh < 64; ++sh)
        for (int64_t d : {-1, 0, 1}) {
            is.push_back(int64_t((uint64_t(1) << sh) + uint64_t(d)));
            is.push_back(int64_t(-(uint64_t(1) << sh) + uint64_t(d)));
        }
    std::vector<double> fs = {0.0, -0.0, 1.0, 0.1, 0.2, 0.3, 1.0 / 3, 1e15, 1e16, 1e17, 123456789.125, 1e21, 1e22, 1e100, 1e308, 1e-5, 1e-4, 1e-7, 1e-300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 9007199254740993.0, 4503599627370496.5, INFINITY, -INFINITY, NAN};
    for (int e = -1074; e < 1024; e += 13)
        fs.push_back(std::ldexp(1.0, e)), fs.push_back(-std::nextafter(std::ldexp(1.0, e), 0));
    auto text = [](Vm& vm, tiro_handle_t v) {
        H r(vm);
        tiro_value_to_string(vm, v, r, Err());
        tiro_string_t s;
        tiro_string_value(vm, r, &s, Err());
        std::string host(V(s));
        H args(vm);
        tiro_make_tuple(vm, 1, args, Err());
        tiro_tuple_set(vm, args, 0, v, Err());
        Outcome o = vm.call("m", "f", args);
        MC_CHECK(o.ok && o.value == fmt::format("[{0},{0},{0}]", quote(host)), "to_string {} but the program observes {}", host, o.str());
        return host;
    };
    R.run("the text of numbers", [&] {
        Vm vm;
        vm.load_source("import std; export func f(x) { const b = std.new_string_builder(); b.append(x); return [\"$x\", \"${x}\", b.to_string()]; }", "m");
        for (int64_t i : is) {
            H v = make_int(vm, i);
            auto t = text(vm, v);
            MC_CHECK(t == std::to_string(i), "{} => {}", i, t);
            R.states(1);
            R.evaluations(1);
            R.outcome(t);
        }
        for (double d : fs) {
            H v = make_float(vm, d);
            auto t = text(vm, v);
            double back = strtod(t.c_str(), nullptr);
            MC_CHECK(std::isnan(d) ? std::isnan(back) : (back == d && std::signbit(back) == std::signbit(d)), "{} => {}", fmt_float(d), t);
            R.states(1);
            R.evaluations(1);
            R.outcome(t);
        }
        R.traces(is.size() + fs.size());
        R.transitions(is.size() + fs.size());
    });
}

// Ill-formed calls panic and leave the builder alone.
void invalid() {
    const char* args[] = {"1", "1.5", "null", "true", "#a", "[1]", "(1,)", "map{}", "std", "std.print", "std.new_string_builder()", "std.new_buffer(3)", "\"\".slice(0, 0)"};
    struct M {
        const char* call;
        bool slice_ok, int_ok;
    };
    const M methods[] = {{"s.contains(%)", true, false}, {"l.contains(%)", true, false}, {"b.contains(%)", true, false}, {"s.slice(%, 1)", false, true}, {"s.slice(1, %)", false, true}, {"s.slice_first(%)", false, true}, {"s.slice_last(%)", false, true},
        {"l.slice(%, 1)", false, true}, {"l.slice(1, %)", false, true}, {"l.slice_first(%)", false, true}, {"l.slice_last(%)", false, true}, {"b.append_byte(%)", false, true}};
    for (auto& m : methods)
        for (size_t a = 0; a < std::size(args); ++a) {
            std::string call = m.call;
            call.replace(call.find('%'), 1, args[a]);
            R.run(call, [&] {
                Vm vm;
                vm.load_source("import std;\nexport func f() { const s = \"abc\"; const l = s.slice(1, 2); const b = std.new_string_builder(); b.append(\"xyz\"); const r = std.catch_panic(func() = " + call
                                   + "); const e = if r.is_error() { \"$s$l${b.to_string()}\"; } else { \"ok\"; }; return (r.is_error(), e); }",
                    "m");
                bool ok = (a == 0 && m.int_ok) || (a + 1 == std::size(args) && m.slice_ok);
                Outcome o = vm.call("m", "f");
                MC_CHECK(o.ok && o.value == (ok ? "(false,\"ok\")" : "(true,\"abcbcxyz\")"), "observed {}", o.str());
                R.states(1);
                R.evaluations(1);
                R.traces(1);
                R.transitions(1);
            });
        }
}

} // namespace

void mc::enumerate() {
    invalid();
    numbers();
    interpolation();
    host();
    builders();
    pairs();
    slices();
}
