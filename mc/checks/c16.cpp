// C16: literals denote exactly the written value.
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <functional>
#include <optional>

#include "common/lang.hpp"
#include "common/xid.hpp"

using namespace mc;

const char* const mc::check_id = "C16";

namespace {

// ---- Exact numbers (independent of any library conversion) ----

struct Big {
    std::vector<uint32_t> d; // little endian, no leading zeros
    void trim() {
        while (!d.empty() && d.back() == 0)
            d.pop_back();
    }
    void mul_add(uint32_t m, uint32_t a) {
        uint64_t carry = a;
        for (auto& x : d) {
            uint64_t v = uint64_t(x) * m + carry;
            x = uint32_t(v);
            carry = v >> 32;
        }
        if (carry)
            d.push_back(uint32_t(carry));
        trim();
    }
    size_t bits() const { return d.empty() ? 0 : 32 * d.size() - __builtin_clz(d.back()); }
    Big shl(size_t n) const {
        Big r;
        if (d.empty())
            return r;
        r.d.assign(n / 32, 0);
        uint32_t carry = 0;
        for (auto x : d) {
            uint64_t v = (uint64_t(x) << (n % 32)) | carry;
            r.d.push_back(uint32_t(v));
            carry = uint32_t(v >> 32);
        }
        r.d.push_back(carry);
        r.trim();
        return r;
    }
    int cmp(const Big& o) const {
        if (d.size() != o.d.size())
            return d.size() < o.d.size() ? -1 : 1;
        for (size_t i = d.size(); i-- > 0;)
            if (d[i] != o.d[i])
                return d[i] < o.d[i] ? -1 : 1;
        return 0;
    }
    void sub(const Big& o) {
        int64_t borrow = 0;
        for (size_t i = 0; i < d.size(); ++i) {
            int64_t v = int64_t(d[i]) - (i < o.d.size() ? o.d[i] : 0) - borrow;
            borrow = v < 0;
            d[i] = uint32_t(v + (borrow << 32));
        }
        trim();
    }
    std::optional<uint64_t> u64() const {
        if (d.size() > 2)
            return {};
        uint64_t r = 0;
        for (size_t i = d.size(); i-- > 0;)
            r = (r << 32) | d[i];
        return r;
    }
};

int digit_value(char c) {
    if (c >= '0' && c <= '9')
        return c - '0';
    if (c >= 'a' && c <= 'f')
        return c - 'a' + 10;
    if (c >= 'A' && c <= 'F')
        return c - 'A' + 10;
    return 99;
}

// The double nearest to n / den, ties to even.
double nearest(const Big& n, const Big& den) {
    if (n.d.empty())
        return 0;
    int e = std::max(int(n.bits()) - int(den.bits()) - 53, -1074);
    while (true) {
        Big num = e < 0 ? n.shl(size_t(-e)) : n;
        Big dv = e > 0 ? den.shl(size_t(e)) : den;
        uint64_t q = 0;
        for (int bit = 55; bit >= 0; --bit) {
            Big t = dv.shl(size_t(bit));
            if (num.cmp(t) >= 0) {
                num.sub(t);
                q |= uint64_t(1) << bit;
            }
        }
        if (q >= (uint64_t(1) << 53)) {
            ++e;
            continue;
        }
        int c = num.shl(1).cmp(dv);
        if (c > 0 || (c == 0 && (q & 1)))
            ++q;
        return std::ldexp(double(q), e);
    }
}

struct Number {
    enum Kind { Int, Float, Reject, NotNumber } kind = Reject;
    int64_t i = 0;
    double f = 0;
};

// The value of a number token. NotNumber: the text is not a single number token.
Number number(std::string_view s) {
    Number r;
    if (s.empty() || s[0] < '0' || s[0] > '9')
        return r;
    int base = 10;
    size_t p = 0;
    if (s.size() > 1 && s[0] == '0' && (s[1] == 'b' || s[1] == 'o' || s[1] == 'x')) {
        base = s[1] == 'b' ? 2 : s[1] == 'o' ? 8 : 16;
        p = 2;
    }
    const int wide = base == 16 ? 16 : 10; // invalid digits belong to the token
    Big n, den;
    den.d = {1};
    bool dot = false, invalid = false;
    size_t digits = 0;
    for (; p < s.size(); ++p) {
        if (s[p] == '_')
            continue;
        if (s[p] == '.' && !dot) {
            dot = true;
            continue;
        }
        int v = digit_value(s[p]);
        if (v >= wide) {
            r.kind = Number::NotNumber;
            return r;
        }
        invalid |= v >= base;
        ++digits;
        n.mul_add(uint32_t(base), uint32_t(v));
        if (dot)
            den.mul_add(uint32_t(base), 0);
    }
    if (invalid || !digits)
        return r;
    if (dot) {
        r.kind = Number::Float;
        r.f = nearest(n, den);
        return r;
    }
    auto v = n.u64();
    if (!v || *v > uint64_t(std::numeric_limits<int64_t>::max()))
        return r;
    r.kind = Number::Int;
    r.i = int64_t(*v);
    return r;
}

// ---- Running ----

struct Case {
    enum Kind { Value, Reject, NoValue } kind; // NoValue: rejected or panics
    std::string expr, expected;
    std::string decl; // declared before (statements)
};

struct Feeder {
    std::string what;
    size_t limit;
    std::vector<Case> items;
    size_t count = 0;
    bool mine = false;

    explicit Feeder(std::string w, size_t l = 128)
        : what(std::move(w))
        , limit(l) {}
    ~Feeder() noexcept(false) {
        if (!std::uncaught_exceptions())
            flush();
    }
    template<typename F>
    void add(F&& make) {
        if (count == 0)
            mine = R.claim();
        ++count;
        if (mine)
            items.push_back(make());
        if (count == limit)
            flush();
    }
    static std::string function(const Case& c, size_t i) {
        return fmt::format("export func f{}() {{ {}\n return ({});\n}}\n", i, c.decl, c.expr);
    }
    void flush() {
        count = 0;
        if (items.empty())
            return;
        auto work = std::move(items);
        items.clear();
        R.exec_batch(
            work.size(), [&](size_t i) { return what + " " + work[i].decl + " " + work[i].expr; },
            [&](size_t b, size_t e) {
                std::string src;
                for (size_t i = b; i < e; ++i)
                    if (work[i].kind == Case::Value)
                        src += function(work[i], i);
                VmOptions o;
                o.load_std = o.host_module = false;
                Vm vm(o);
                if (!src.empty())
                    vm.load_source(src, "m");
                for (size_t i = b; i < e; ++i) {
                    R.sub(i);
                    auto& w = work[i];
                    R.states(1);
                    R.traces(1);
                    R.transitions(1);
                    R.evaluations(1);
                    R.outcome(w.kind == Case::Value ? w.expected : w.kind == Case::Reject ? "rejected" : "no value");
                    if (w.kind == Case::Value) {
                        R.nontrivial();
                        if (R.want_sample())
                            R.sample((w.expr + " => " + w.expected).substr(0, 300));
                        Outcome got = vm.call("m", fmt::format("f{}", i));
                        if (!got.ok || got.value != w.expected)
                            R.sub_fail(i, fmt::format("{}\n{}\nexpected {}\nobserved {}", w.decl, w.expr, w.expected, got.str()));
                        continue;
                    }
                    auto name = fmt::format("n{}", i);
                    auto r = compile(function(w, i), name);
                    if (r.error.ok()) {
                        if (w.kind == Case::Reject) {
                            R.sub_fail(i, fmt::format("accepted, but must be rejected: {}\n{}", w.decl, w.expr));
                            continue;
                        }
                        auto le = vm.load(r.module);
                        MC_CHECK(le.ok(), "cannot be loaded: {}", le.message);
                        Outcome got = vm.call(name, fmt::format("f{}", i));
                        if (got.ok)
                            R.sub_fail(i, fmt::format("{}\n{}\nexpected a panic or an error, observed {}", w.decl, w.expr, got.str()));
                        continue;
                    }
                    if (r.error.code != TIRO_ERROR_BAD_SOURCE || r.messages.empty())
                        R.sub_fail(i, fmt::format("{}\nunexpected outcome {} {}", w.expr, r.error.message, r.describe()));
                }
            });
    }
};

Case number_case(const std::string& s, bool negative = false) {
    Number n = number(s);
    Case c{Case::Reject, negative ? "-" + s : s, "", ""};
    switch (n.kind) {
    case Number::Int:
        c.kind = Case::Value;
        c.expected = std::to_string(negative ? -n.i : n.i);
        break;
    case Number::Float:
        c.kind = Case::Value;
        c.expected = "f" + fmt_float(negative ? -n.f : n.f);
        break;
    case Number::NotNumber:
        c.kind = Case::NoValue;
        break;
    case Number::Reject:
        break;
    }
    return c;
}

std::string to_base(unsigned __int128 v, int base, bool upper = false) {
    std::string s;
    do {
        s += (upper ? "0123456789ABCDEF" : "0123456789abcdef")[size_t(v % unsigned(base))];
        v /= unsigned(base);
    } while (v);
    std::reverse(s.begin(), s.end());
    return s;
}

void number_tokens() {
    // All short texts.
    const std::string alphabet = "0179_.boxaF";
    Feeder f("number", 256);
    for (size_t len = 1; len <= (R.thorough ? 6u : 5u); ++len)
        all_sequences(alphabet.size(), len, [&](const std::vector<int>& seq) {
            if (seq[0] >= 6 && len > 3)
                return; // identifiers
            f.add([&] {
                std::string s;
                for (int i : seq)
                    s += alphabet[size_t(i)];
                return number_case(s);
            });
        });
}

void integers() {
    Feeder f("integer", 256);
    std::vector<unsigned __int128> values;
    for (int k = 0; k <= 66; ++k)
        for (int delta : {-1, 0, 1})
            values.push_back((static_cast<unsigned __int128>(1) << k) + static_cast<unsigned __int128>(delta));
    unsigned __int128 p = 1;
    for (int k = 0; k <= 21; ++k, p *= 10)
        for (int m : {1, 2, 3, 5, 9})
            for (int delta : {-1, 0, 1})
                values.push_back(p * unsigned(m) + static_cast<unsigned __int128>(delta));
    for (auto v : values) {
        if (v >> 100)
            continue;
        for (auto [base, prefix] : {std::pair(10, ""), {16, "0x"}, {8, "0o"}, {2, "0b"}}) {
            std::string digits = to_base(v, base), pre = prefix;
            f.add([&] { return number_case(pre + digits); });
            f.add([&] { return number_case(pre + digits, true); });
            f.add([&] { return number_case(pre + to_base(v, base, true)); });
            f.add([&] { return number_case(pre + "0000" + digits); });
            f.add([&] { return number_case(pre + std::string(40, '0') + digits); });
            f.add([&] { return number_case(pre + digits + "0"); });
            f.add([&] { return number_case(pre + digits + "_"); });
            f.add([&] { return number_case(pre + digits + "."); });
            f.add([&] { return number_case(pre + digits + ".0"); });
            // one separator at every position
            for (size_t i = (base == 10 ? 1 : 0); i < digits.size(); ++i)
                f.add([&] {
                    std::string d = digits;
                    d.insert(i, i % 3 == 2 ? "__" : "_");
                    return number_case(pre + d);
                });
            // separators everywhere
            f.add([&] {
                std::string d;
                for (char c : digits)
                    d += std::string(1, c) + "_";
                return number_case(pre + d);
            });
            // one invalid digit
            for (size_t i = 0; i < digits.size(); ++i)
                f.add([&] {
                    std::string d = digits;
                    d[i] = base == 2 ? '2' : base == 8 ? '8' : base == 10 ? 'a' : 'g';
                    return number_case(pre + d);
                });
        }
    }
}

// Texts around the exact values of doubles and of the points half way between two of them.
std::string exact_decimal(double v) {
    std::string s = fmt::format("{:.1100f}", v);
    while (s.back() == '0' && s[s.size() - 2] != '.')
        s.pop_back();
    return s;
}

void floats() {
    Feeder f("float", 64);
    const double min = std::numeric_limits<double>::denorm_min(), norm = std::numeric_limits<double>::min(), max = std::numeric_limits<double>::max();
    std::vector<double> values = {0.0, min, 2 * min, 3 * min, norm / 2, std::nextafter(norm, 0), norm, std::nextafter(norm, 1), 0.1, 0.2, 0.3, 0.5, 1.0, std::nextafter(1.0, 0),
        std::nextafter(1.0, 2), 1.5, 2.0, 3.14, 10.0, 100.25, 4503599627370496.0, 9007199254740991.0, 9007199254740992.0, 9007199254740994.0, 1e22, 1e23, 1e100, max / 2,
        std::nextafter(max, 0), max, 5e-324 * 12345, 2.2250738585072011e-308, 6.631236846766476e-316, 1.7976931348623155e308, 1e-5, 123456789.125};
    for (int k = -1070; k < 1020; k += R.thorough ? 7 : 61)
        values.push_back(std::ldexp(1.0 + 1.0 / (k & 1 ? 3 : 7), k));
    for (double v : values) {
        const double next = std::nextafter(v, std::numeric_limits<double>::infinity());
        std::string exact = exact_decimal(v);
        std::vector<std::string> texts = {exact, exact + "0000", "000" + exact, exact + "1"};
        // v + half of the distance to its successor: needs one more binary digit, computed on the decimal expansion
        auto half_way = [&]() {
            // sum of two exact decimals with aligned fractions, divided by two
            std::string a = exact, b = exact_decimal(std::isinf(next) ? std::ldexp(1.0, 1023) : next);
            std::string ai = a.substr(0, a.find('.')), af = a.substr(a.find('.') + 1), bi = b.substr(0, b.find('.')), bf = b.substr(b.find('.') + 1);
            auto twice = [](std::string& i) { // decimal string times two
                int carry = 0;
                for (size_t k = i.size(); k-- > 0;) {
                    int x = (i[k] - '0') * 2 + carry;
                    i[k] = char('0' + x % 10);
                    carry = x / 10;
                }
                if (carry)
                    i.insert(i.begin(), '1');
            };
            if (std::isinf(next))
                twice(bi); // 2^1024
            size_t fl = std::max(af.size(), bf.size()) + 1, il = std::max(ai.size(), bi.size()) + 1;
            std::string x = std::string(il - ai.size(), '0') + ai + af + std::string(fl - af.size(), '0');
            std::string y = std::string(il - bi.size(), '0') + bi + bf + std::string(fl - bf.size(), '0');
            std::string sum(x.size(), '0');
            int carry = 0;
            for (size_t k = x.size(); k-- > 0;) {
                int z = x[k] - '0' + y[k] - '0' + carry;
                sum[k] = char('0' + z % 10);
                carry = z / 10;
            }
            int rest = 0;
            for (auto& c : sum) {
                int z = rest * 10 + (c - '0');
                c = char('0' + z / 2);
                rest = z % 2;
            }
            std::string r = sum.substr(0, il) + "." + sum.substr(il);
            size_t first = r.find_first_not_of('0');
            return r[first] == '.' ? "0" + r.substr(first) : r.substr(first);
        };
        std::string half = half_way();
        texts.push_back(half);
        texts.push_back(half + "0000");
        texts.push_back(half + "0000000000000000000000000000001");
        // just below half way: last non zero digit decreased, followed by nines
        std::string below = half;
        size_t last = below.find_last_not_of("0.");
        if (last != below.npos) {
            --below[last];
            texts.push_back(below + (below.find('.') == below.npos ? "." : "") + "99999999999999999999");
        }
        for (size_t keep : {1u, 2u, 15u, 16u, 17u, 18u, 19u, 20u, 30u, 100u, 400u, 767u, 768u, 769u}) {
            // prefixes with that number of significant digits, the rest of the integer part filled with zeros
            size_t dot = exact.find('.'), sig = 0;
            std::string t = exact;
            bool started = false;
            for (size_t i = 0; i < t.size(); ++i) {
                if (t[i] == '.')
                    continue;
                started |= t[i] != '0';
                if (started && ++sig > keep)
                    t[i] = '0';
            }
            (void) dot;
            texts.push_back(t);
        }
        for (auto& t : texts) {
            f.add([&] { return number_case(t); });
            f.add([&] { return number_case(t, true); });
            f.add([&] {
                std::string s;
                for (size_t i = 0; i < t.size(); ++i)
                    s += (i && i % 3 == 0 && t[i] != '.' ? "_" : "") + std::string(1, t[i]);
                return number_case(s);
            });
        }
    }
    // Exact texts in the bases 2, 8 and 16: a mantissa of 52 to 56 bits with every pattern of the last bits, scaled
    for (auto [base, prefix, shift] : {std::tuple(16, "0x", 4), std::tuple(8, "0o", 3), std::tuple(2, "0b", 1)})
        for (int bits : {52, 53, 54, 55, 56, 60})
            for (unsigned low = 0; low < 16; ++low)
                for (int scale : {0, 1, 5, 30, 240}) {
                    f.add([&, b = base, pre = prefix] {
                        unsigned __int128 m = (static_cast<unsigned __int128>(1) << (bits - 1)) + low;
                        return number_case(pre + to_base(m, b) + std::string(size_t(scale), '0') + ".");
                    });
                    f.add([&, b = base, pre = prefix] {
                        unsigned __int128 m = (static_cast<unsigned __int128>(1) << (bits - 1)) + low;
                        return number_case(std::string(pre) + "0." + std::string(size_t(scale), '0') + to_base(m, b));
                    });
                    f.add([&, b = base, pre = prefix, sh = shift] {
                        unsigned __int128 m = (static_cast<unsigned __int128>(1) << (bits - 1)) + low;
                        (void) sh;
                        std::string t = to_base(m, b);
                        return number_case(pre + t.substr(0, t.size() / 2) + "." + t.substr(t.size() / 2) + std::string(size_t(scale), '0') + "1");
                    });
                }
    // extreme lengths
    for (size_t len : {308u, 309u, 310u, 400u, 1000u, 5000u}) {
        f.add([&] { return number_case("1" + std::string(len, '0') + ".0"); });
        f.add([&] { return number_case("0." + std::string(len, '0') + "1"); });
        f.add([&] { return number_case("0." + std::string(len, '9')); });
        f.add([&] { return number_case(std::string(len, '9') + "."); });
        f.add([&] { return number_case(std::string(len, '0') + "1." + std::string(len, '0') + "1"); });
    }
}

void small_decimals() {
    Feeder f("decimal", 500);
    const int n = R.thorough ? 100000 : 10000;
    for (int i = 0; i < n; ++i)
        for (auto form : {"0.{:05}", "{}.5", "{}.1", "3.{}", "0.000{:04}"})
            f.add([&] { return number_case(fmt::format(fmt::runtime(form), i)); });
}

// ---- Strings ----

void utf8(std::string& s, uint32_t c) {
    if (c < 0x80) {
        s += char(c);
    } else if (c < 0x800) {
        s += char(0xc0 | (c >> 6));
        s += char(0x80 | (c & 63));
    } else if (c < 0x10000) {
        s += char(0xe0 | (c >> 12));
        s += char(0x80 | ((c >> 6) & 63));
        s += char(0x80 | (c & 63));
    } else {
        s += char(0xf0 | (c >> 18));
        s += char(0x80 | ((c >> 12) & 63));
        s += char(0x80 | ((c >> 6) & 63));
        s += char(0x80 | (c & 63));
    }
}

std::string utf8(uint32_t c) {
    std::string s;
    utf8(s, c);
    return s;
}

bool scalar(uint64_t c) {
    return c < 0xd800 || (c >= 0xe000 && c < 0x110000);
}

const char* const string_decl = "const a = 'A'; const n = 'N'; const x = 12; const u = null;";

std::optional<std::string> variable(std::string_view name) {
    if (name == "a")
        return "A";
    if (name == "n")
        return "N";
    if (name == "x")
        return "12";
    if (name == "u")
        return "null";
    return {};
}

bool is_ident_byte(char c) {
    return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || (c & 0x80);
}

// The literal `delim s delim`. Nothing: not decided here.
std::optional<Case> string_case(const std::string& s, char delim) {
    Case c{Case::Reject, std::string(1, delim) + s + delim, "", string_decl};
    std::string text;
    for (size_t i = 0; i < s.size();) {
        if (s[i] == delim)
            return {};
        if (s[i] == '$') {
            ++i;
            if (i < s.size() && s[i] == '{') {
                size_t end = s.find('}', i);
                if (end == s.npos)
                    return {};
                std::string e = s.substr(i + 1, end - i - 1);
                if (auto v = variable(e))
                    text += *v;
                else if (number(e).kind == Number::Int)
                    text += std::to_string(number(e).i);
                else if (e.empty())
                    return c;
                else
                    return {};
                i = end + 1;
                continue;
            }
            size_t end = i;
            while (end < s.size() && is_ident_byte(s[end]))
                ++end;
            if (end == i || (s[i] >= '0' && s[i] <= '9'))
                return c;
            auto v = variable(s.substr(i, end - i));
            if (!v)
                return c;
            text += *v;
            i = end;
            continue;
        }
        if (s[i] != '\\') {
            text += s[i++];
            continue;
        }
        if (++i == s.size())
            return c; // the delimiter is escaped: unterminated
        switch (s[i++]) {
        case 'n':
            text += '\n';
            break;
        case 'r':
            text += '\r';
            break;
        case 't':
            text += '\t';
            break;
        case '"':
        case '\'':
        case '\\':
        case '$':
            text += s[i - 1];
            break;
        case 'x': {
            if (i + 2 > s.size() || digit_value(s[i]) > 15 || digit_value(s[i + 1]) > 15)
                return s.find(delim, i) == s.npos ? std::optional(c) : std::nullopt;
            utf8(text, uint32_t(digit_value(s[i]) * 16 + digit_value(s[i + 1])));
            i += 2;
            break;
        }
        case 'u': {
            auto bad = s.find(delim, i) == s.npos ? std::optional(c) : std::nullopt;
            if (i >= s.size() || s[i] != '{')
                return bad;
            uint64_t v = 0;
            size_t digits = 0;
            for (++i; i < s.size() && digit_value(s[i]) <= 15; ++i, ++digits)
                v = std::min<uint64_t>(v * 16 + uint64_t(digit_value(s[i])), uint64_t(1) << 40);
            if (i >= s.size() || s[i] != '}' || !digits || !scalar(v))
                return bad;
            utf8(text, uint32_t(v));
            ++i;
            break;
        }
        default:
            return s.find(delim, i - 1) == s.npos ? std::optional(c) : std::nullopt;
        }
    }
    c.kind = Case::Value;
    c.expected = quote(text);
    return c;
}

void strings() {
    Feeder f("string", 256);
    auto add = [&](const std::string& s) {
        for (char delim : {'"', '\''}) {
            // decided before the case is claimed: cheap
            f.add([&] {
                auto c = string_case(s, delim);
                return c ? *c : Case{Case::Value, "1", "1", "// " + std::string(1, 'u')};
            });
        }
    };
    const std::vector<std::string> pieces = {"\\", "$", "{", "}", "a", "n", "x", "u", "4", "\"", "'", "\xc3\xa9", "\n", " "};
    for (size_t len = 0; len <= (R.thorough ? 5u : 4u); ++len)
        all_sequences(pieces.size(), len, [&](const std::vector<int>& seq) {
            std::string s;
            for (int i : seq)
                s += pieces[size_t(i)];
            add(s);
        });
    // every character after a backslash
    for (uint32_t c = 0; c < 0x250; ++c)
        for (auto suffix : {"", "4", "41", "{41}", "a"})
            add("x\\" + utf8(c) + suffix);
    for (uint32_t c : {0x3b1u, 0x20acu, 0xffffu, 0x10000u, 0x1f600u, 0x10ffffu})
        add("\\" + utf8(c));
    // every pair of characters after \x
    const std::string hex = "0123456789abcdefABCDEFgGxX_-+ .$\\{";
    for (char p : hex) {
        add(std::string("z\\x") + p);
        for (char q : hex)
            for (auto suffix : {"", "f", "00"})
                add(std::string("z\\x") + p + q + suffix);
    }
    // texts after \u
    const std::string u = "{}01dD8Fg_ ";
    for (size_t len = 0; len <= (R.thorough ? 6u : 5u); ++len)
        all_sequences(u.size(), len, [&](const std::vector<int>& seq) {
            if (len > 3 && seq[0] != 0)
                return;
            std::string s = "\\u";
            for (int i : seq)
                s += u[size_t(i)];
            add(s);
        });
    for (uint64_t c : {0x0ull, 0x7full, 0x80ull, 0x7ffull, 0x800ull, 0xd7ffull, 0xd800ull, 0xdbffull, 0xdc00ull, 0xdfffull, 0xe000ull, 0xfffdull, 0xffffull, 0x10000ull, 0x1fffffull, 0x10ffffull,
             0x110000ull, 0xffffffull, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x100000041ull, 0x10000000000000041ull & ~0ull, 0xffffffffffffffffull})
        for (size_t zeros : {0u, 1u, 4u, 8u, 16u, 300u})
            for (bool upper : {false, true}) {
                std::string h = "\\u{" + std::string(zeros, '0') + to_base(c, 16, upper);
                add(h + "}");
                add("a" + h + "}41");
                add(h);
                add(h + "1}");
            }
    add("\\u{10000000000000041}");
    add("\\u{100000000000000000000000000000041}");
    // every code point, written as it is and escaped
    const uint32_t step = R.thorough ? 1 : 7;
    auto each = [&](uint32_t c) {
        if (!scalar(c))
            return;
        f.add([&] {
            std::string raw = utf8(c);
            if (c == '"' || c == '\\' || c == '$')
                raw = "\\" + raw;
            Case k{Case::Value, fmt::format("\"{}|\\u{{{:x}}}|\\u{{{:08X}}}\"", raw, c, c), "", ""};
            k.expected = quote(utf8(c) + "|" + utf8(c) + "|" + utf8(c));
            return k;
        });
    };
    for (uint32_t c = 0; c < 0x3100; ++c)
        each(c);
    for (uint32_t c = 0x3100; c < 0x110000; c += step)
        each(c);
    // long literals
    for (size_t len : {100u, 1000u, 65535u, 65536u, 100000u})
        for (auto piece : {"a", "\\n", "\\x41", "\xc3\xa9", "\\u{1f600}", "$x", "${x}"}) {
            std::string s;
            for (size_t i = 0; i < len / 10; ++i)
                s += piece;
            if (piece[0] == '$' && len > 1000)
                continue;
            add(s);
        }
}

// ---- Names ----

bool in(const xid::Range* b, const xid::Range* e, uint32_t c) {
    auto p = std::upper_bound(b, e, c, [](uint32_t v, const xid::Range& r) { return v < r.first; });
    return p != b && c <= p[-1].last;
}

bool xid_start(uint32_t c) { return in(std::begin(xid::xid_start), std::end(xid::xid_start), c); }
bool xid_continue(uint32_t c) { return in(std::begin(xid::xid_continue), std::end(xid::xid_continue), c); }
bool xid_unspecified(uint32_t c) { return in(std::begin(xid::xid_unspecified), std::end(xid::xid_unspecified), c); }
bool white(uint32_t c) { return (c >= 9 && c <= 13) || c == 32 || c == 0x85 || c == 0x200e || c == 0x200f || c == 0x2028 || c == 0x2029; }

// A name used as variable, in an interpolation, as key and as symbol
Case name_case(const std::string& name, bool valid) {
    Case c{valid ? Case::Value : Case::Reject, fmt::format("[{0}, \"${0}\", \"${{{0}}}\", ({0}: 1), #{0}, (func({0}) = {0})(2), ({0}: 3).{0}]", name), "",
        fmt::format("var {} = 7;", name)};
    c.expected = fmt::format("[7,\"7\",\"7\",(:{0}=1),<#{1}>,2,3]", quote(name), name);
    return c;
}

const char* const keywords[] = {"as", "assert", "break", "catch", "class", "const", "continue", "defer", "else", "export", "false", "for", "func", "if", "import", "in", "interface", "is",
    "null", "package", "protocol", "return", "scope", "struct", "switch", "throw", "true", "try", "var", "while", "yield"};

void names() {
    Feeder f("name", 256);
    auto is_keyword = [](std::string_view s) { return std::find(std::begin(keywords), std::end(keywords), s) != std::end(keywords); };
    // ASCII: all names of up to 3 characters over letters of keywords, digits and underscore
    const std::string ascii = "asiftryvn_0Z9";
    for (size_t len = 1; len <= (R.thorough ? 4u : 3u); ++len)
        all_sequences(ascii.size(), len, [&](const std::vector<int>& seq) {
            f.add([&] {
                std::string s;
                for (int i : seq)
                    s += ascii[size_t(i)];
                return name_case(s, !(s[0] >= '0' && s[0] <= '9') && !is_keyword(s));
            });
        });
    for (char c = 'A'; c <= 'z'; ++c)
        if (is_ident_byte(c))
            for (char d = '0'; d <= 'z'; ++d)
                if (is_ident_byte(d))
                    f.add([&] {
                        std::string s = {c, d};
                        return name_case(s, !is_keyword(s));
                    });
    for (std::string k : keywords) {
        f.add([&] { return name_case(k, false); });
        for (auto form : {"const {0} = 1;", "var ({0}, b) = (1, 2);", "func(({0})) = 1;", "const x = func(b, {0}) = 1;", "for var {0} = 0; false; {0} += 1 {{}}", "for {0} in [] {{}}",
                 "const x = \"${0}\";"})
            f.add([&] { return Case{Case::Reject, "1", "", fmt::format(fmt::runtime(form), k)}; });
        for (std::string s : {k + "_", "_" + k, k + "x", k + "1", k.substr(0, k.size() - 1), k.substr(1), k + k})
            f.add([&] { return name_case(s, !is_keyword(s)); });
        f.add([&] {
            std::string s = k;
            s[0] = char(s[0] - 'a' + 'A');
            return name_case(s, true);
        });
        f.add([&] {
            std::string s = k;
            for (auto& c : s)
                c = char(c - 'a' + 'A');
            return name_case(s, true);
        });
        f.add([&] { return Case{Case::Value, "#" + k, "<#" + k + ">", ""}; });
        f.add([&] { return Case{Case::Value, fmt::format("[#{0} == #{0}, #{0} == #{0}x, #{0} == \"{0}\"]", k), "[true,false,false]", ""}; });
    }
    f.add([&] { return Case{Case::Value, "[true, false, null, !true, true == true]", "[true,false,null,false,true]", ""}; });
    // symbols
    const std::vector<std::string> parts = {"a", "Z", "_", "0", "9", "\xc3\xa9", "if"};
    for (size_t len = 0; len <= 3; ++len)
        all_sequences(parts.size(), len, [&](const std::vector<int>& seq) {
            f.add([&] {
                std::string s;
                for (int i : seq)
                    s += parts[size_t(i)];
                bool valid = !s.empty() && !(s[0] >= '0' && s[0] <= '9');
                return Case{valid ? Case::Value : Case::Reject, "#" + s, "<#" + s + ">", ""};
            });
        });
    for (auto s : {"# a", "#\"a\"", "##a", "#(a)", "#-a", "#.a", "#"})
        f.add([&] { return Case{Case::Reject, s, "", ""}; });
}

void code_points() {
    Feeder f("code point", 400);
    const uint32_t step = R.thorough ? 1 : 9;
    auto each = [&](uint32_t c) {
        if (xid_unspecified(c))
            return;
        std::string s = utf8(c); // not a valid text for surrogates
        const bool start = scalar(c) && xid_start(c), cont = scalar(c) && xid_continue(c), ws = white(c);
        f.add([&] {
            if (ws)
                return Case{Case::Value, "a +" + s + "1", "2", "const" + s + "a = 1;"};
            return name_case(s, start);
        });
        f.add([&] {
            if (ws)
                return Case{Case::Reject, "1", "", "const a" + s + "b = 1;"};
            return name_case("a" + s, cont);
        });
    };
    for (uint32_t c = 0x80; c < 0x3100; ++c)
        each(c);
    // the edges of every range
    for (auto& r : xid::xid_continue) {
        if (r.first < 0x3100)
            continue;
        for (uint32_t c : {r.first - 1, r.first, r.last, r.last + 1})
            each(c);
    }
    for (uint32_t c = 0x3100; c < 0x110000; c += step)
        each(c);
}

// ---- Tuple fields ----

void tuple_fields() {
    Feeder f("tuple field", 128);
    std::string t = "(";
    for (int i = 0; i < 12; ++i)
        t += fmt::format("{},", 100 + i);
    t += ")";
    const std::string decl = "const t = " + t + "; const u = ((0, 1, 2), (3, 4, 5), (6, (7, 8), 9)); const x = 1;";
    auto add = [&](const std::string& s) {
        for (std::string form : {"t.{}", "t?.{}", "t. {}", "t./**/{}", "t.{}\n"})
            f.add([&] {
                Case c{Case::NoValue, fmt::format(fmt::runtime(form), s), "", decl};
                if (!s.empty() && std::all_of(s.begin(), s.end(), [](char d) { return d >= '0' && d <= '9'; })) {
                    Number n = number(s);
                    if ((s.size() > 1 && s[0] == '0') || n.kind != Number::Int || n.i > 0xffffffffll)
                        c.kind = Case::Reject;
                    else if (n.i < 12) {
                        c.kind = Case::Value;
                        c.expected = std::to_string(100 + n.i);
                    }
                }
                return c;
            });
    };
    const std::string alphabet = "0129_xb";
    for (size_t len = 1; len <= 4; ++len)
        all_sequences(alphabet.size(), len, [&](const std::vector<int>& seq) {
            std::string s;
            for (int i : seq)
                s += alphabet[size_t(i)];
            add(s);
        });
    for (auto s : {"4294967294", "4294967295", "4294967296", "4294967297", "4294967307", "8589934592", "9223372036854775807", "9223372036854775808", "18446744073709551616", "18446744073709551617",
             "340282366920938463463374607431768211457", "10", "11", "12", "011", "00", "000000000000000000000000000"})
        add(s);
    auto value = [&](const std::string& e, int v) { f.add([&] { return Case{Case::Value, e, std::to_string(v), decl}; }); };
    for (int i = 0; i < 2; ++i)
        for (int j = 0; j < 3; ++j)
            for (auto form : {"u.{}.{}", "u?.{}?.{}", "(u.{}).{}", "u[{}].{}", "u .{} .{}", "u.{}/* */.{}", "u.{}[{}]", "[u][0].{}.{}", "u.{}.{}.{{}}"})
                if (std::string_view(form).find("{{") == std::string_view::npos)
                    value(fmt::format(fmt::runtime(form), i, j), i * 3 + j);
    value("u.2.1.0", 7);
    value("u.2.1.1", 8);
    value("u?.2.1?.1", 8);
    value("u.2.2", 9);
}

// Blocks, containers and literals nested in interpolated expressions
void nested() {
    Feeder f("nested", 200);
    struct Value {
        std::string expr, text;
        bool is_string;
    };
    const std::vector<std::function<Value(const Value&)>> wrap = {
        [](const Value& v) { return Value{"\"${" + v.expr + "}\"", v.text, true}; },
        [](const Value& v) { return Value{"'${" + v.expr + "}'", v.text, true}; },
        [](const Value& v) { return Value{"\"{${" + v.expr + "}$x}\"", "{" + v.text + "12}", true}; },
        [](const Value& v) { return Value{"'}${" + v.expr + "}\\'{' '\"'", "}" + v.text + "'{\"", true}; },
        [](const Value& v) { return Value{"{ " + v.expr + "; }", v.text, v.is_string}; },
        [](const Value& v) { return Value{"{ { const k = 1; }; " + v.expr + "; }", v.text, v.is_string}; },
        [](const Value& v) { return Value{"{ {" + v.expr + ";}; }", v.text, v.is_string}; },
        [](const Value& v) { return Value{"map{1: " + v.expr + "}[1]", v.text, v.is_string}; },
        [](const Value& v) { return Value{"(if (false) { 0; } else { " + v.expr + "; })", v.text, v.is_string}; },
        [](const Value& v) { return Value{"(func() { const m = map{}; return " + v.expr + "; })()", v.text, v.is_string}; },
        [](const Value& v) { return Value{"(k: " + v.expr + ").k", v.text, v.is_string}; },
        [](const Value& v) { return Value{"/* } */ " + v.expr + " /* \" */", v.text, v.is_string}; },
    };
    for (size_t len = 1; len <= (R.thorough ? 5u : 4u); ++len)
        all_sequences(wrap.size(), len, [&](const std::vector<int>& seq) {
            for (int base = 0; base < 2; ++base)
                f.add([&] {
                    Value v = base ? Value{"'}{'", "}{", true} : Value{"x", "12", false};
                    for (int i : seq)
                        v = wrap[size_t(i)](v);
                    return Case{Case::Value, v.expr, v.is_string ? quote(v.text) : v.text, string_decl};
                });
        });
}

} // namespace

void mc::enumerate() {
    number_tokens();
    integers();
    floats();
    small_decimals();
    strings();
    names();
    code_points();
    tuple_fields();
    nested();
}
