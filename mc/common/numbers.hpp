// Boundary values of the number types and an exact model of the numeric operators.
#pragma once
#include <cmath>
#include <cstdint>
#include <limits>
#include <optional>
#include <string>
#include <vector>

#include "common/lang.hpp"

namespace mc::num {

struct Num {
    bool is_float = false;
    int64_t i = 0;
    double f = 0;
    double as_float() const { return is_float ? f : double(i); }
};

inline Num I(int64_t v) { return {false, v, 0}; }
inline Num F(double v) { return {true, 0, v}; }

// Expression with that value, built from literals.
inline std::string literal(const Num& n) {
    if (!n.is_float) {
        if (n.i == std::numeric_limits<int64_t>::min())
            return "(-9223372036854775807 - 1)";
        if (n.i < 0)
            return "(" + std::to_string(n.i) + ")";
        return std::to_string(n.i);
    }
    if (std::isnan(n.f))
        return "(0.0 / 0.0)";
    if (std::isinf(n.f))
        return n.f > 0 ? "(1.0 / 0.0)" : "(-1.0 / 0.0)";
    std::string s = fmt::format("{:.1100f}", std::abs(n.f));
    while (s.back() == '0' && s[s.size() - 2] != '.')
        s.pop_back();
    return std::signbit(n.f) ? "(-" + s + ")" : s;
}

inline std::string dump(const Num& n) {
    return n.is_float ? "f" + fmt_float(n.f) : std::to_string(n.i);
}

inline H make(tiro_vm_t vm, const Num& n) {
    return n.is_float ? make_float(vm, n.f) : make_int(vm, n.i);
}

inline std::vector<Num> numbers(int size) {
    constexpr int64_t min = std::numeric_limits<int64_t>::min(), max = std::numeric_limits<int64_t>::max();
    std::vector<Num> r;
    auto add = [&](Num n) {
        for (auto& o : r)
            if (dump(o) == dump(n))
                return;
        r.push_back(n);
    };
    for (int64_t i : {0, 1, 2, 3, 7, 10, 62, 63, 64, 65})
        add(I(i)), add(I(-i));
    std::vector<int> bits = {31, 32, 53, 61, 62};
    if (size >= 1)
        bits.insert(bits.end(), {8, 15, 16, 33, 47, 52, 54, 55, 60});
    if (size >= 2)
        for (int b = 3; b < 62; ++b)
            bits.push_back(b);
    for (int b : bits)
        for (int d : {-1, 0, 1})
            add(I((int64_t(1) << b) + d)), add(I(-(int64_t(1) << b) + d));
    for (int64_t i : {min, min + 1, min + 2, max, max - 1, max - 2, min / 2, max / 2 + 1})
        add(I(i));
    for (int64_t i : {int64_t(3037000499), int64_t(3037000500), int64_t(2097151), int64_t(2097152), int64_t(55108), int64_t(55109)})
        add(I(i)), add(I(-i));
    const double inf = std::numeric_limits<double>::infinity();
    std::vector<double> fs = {0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 63.0, 9007199254740991.0, 9007199254740992.0, 9007199254740994.0,
        4611686018427387904.0, 9223372036854774784.0, 9223372036854775808.0, 18446744073709551616.0, 1e300, inf};
    if (size >= 1)
        for (double d : {0.1, 0.3, 2.5, 1023.0, 1e-300, 4.9406564584124654e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 4294967296.5,
                 9007199254740993.0, 4503599627370496.5, 9223372036854777856.0})
            fs.push_back(d);
    for (double d : fs)
        add(F(d)), add(F(-d));
    add(F(std::numeric_limits<double>::quiet_NaN()));
    return r;
}

// nullopt: the operation panics.
using Value = std::optional<Num>;

inline Value fit(__int128 v) {
    if (v < std::numeric_limits<int64_t>::min() || v > std::numeric_limits<int64_t>::max())
        return {};
    return I(int64_t(v));
}

inline Value binary(const std::string& op, const Num& a, const Num& b) {
    if (op == "<<" || op == ">>" || op == "&" || op == "|" || op == "^") {
        if (a.is_float || b.is_float)
            return {};
        if (op == "&")
            return I(a.i & b.i);
        if (op == "|")
            return I(a.i | b.i);
        if (op == "^")
            return I(a.i ^ b.i);
        if (b.i < 0 || b.i > 63)
            return {};
        if (op == "<<")
            return I(int64_t(uint64_t(a.i) << b.i));
        return I(int64_t(uint64_t(a.i) >> b.i));
    }
    if (a.is_float || b.is_float) {
        double x = a.as_float(), y = b.as_float();
        if (op == "+")
            return F(x + y);
        if (op == "-")
            return F(x - y);
        if (op == "*")
            return F(x * y);
        if (op == "/")
            return F(x / y);
        if (op == "%")
            return F(std::fmod(x, y));
        return F(std::pow(x, y));
    }
    __int128 x = a.i, y = b.i;
    if (op == "+")
        return fit(x + y);
    if (op == "-")
        return fit(x - y);
    if (op == "*")
        return fit(x * y);
    if (op == "/")
        return y == 0 ? Value() : fit(x / y);
    if (op == "%") {
        // The remainder is defined if the quotient is.
        if (y == 0 || !fit(x / y))
            return {};
        return fit(x % y);
    }
    // Exponentiation; the result of a negative exponent is truncated.
    if (y < 0) {
        if (x == 0)
            return {};
        return I(x == 1 ? 1 : x == -1 ? (y % 2 ? -1 : 1) : 0);
    }
    if (x == 0 || x == 1)
        return I(y == 0 ? 1 : int64_t(x));
    if (x == -1)
        return I(y % 2 ? -1 : 1);
    __int128 r = 1;
    for (__int128 n = 0; n < y; ++n) {
        r *= x;
        if (!fit(r))
            return {};
    }
    return fit(r);
}

inline Value unary(const std::string& op, const Num& a) {
    if (op == "+")
        return a;
    if (op == "-")
        return a.is_float ? Value(F(-a.f)) : fit(-__int128(a.i));
    if (a.is_float)
        return {};
    return I(~a.i);
}

// Exact numeric order; nullopt if an operand is nan.
inline std::optional<int> compare(const Num& a, const Num& b) {
    if ((a.is_float && std::isnan(a.f)) || (b.is_float && std::isnan(b.f)))
        return {};
    // long double represents every int64 and every double
    static_assert(std::numeric_limits<long double>::digits >= 64);
    long double x = a.is_float ? (long double) a.f : (long double) a.i;
    long double y = b.is_float ? (long double) b.f : (long double) b.i;
    return x < y ? -1 : x > y ? 1 : 0;
}

} // namespace mc::num
