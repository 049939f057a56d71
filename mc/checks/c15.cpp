// C15: the compiler accepts any text without failing internally.
#include <cstring>
#include <memory>

#include "common/lang.hpp"

using namespace mc;

const char* const mc::check_id = "C15";

namespace {

#ifdef MC_SAN
const bool san = true;
#else
const bool san = false;
#endif

// The outcome of compiling one text is checked against what the property demands of every text.
std::string verify(std::string_view src, const std::string& name, std::unique_ptr<Vm>& vm) {
    auto r = compile(src, name);
    bool reported = false;
    size_t lines = 1;
    std::vector<size_t> starts = {0};
    for (size_t i = 0; i < src.size(); ++i)
        if (src[i] == '\n') {
            ++lines;
            starts.push_back(i + 1);
        }
    for (auto& m : r.messages) {
        MC_CHECK(m.severity == TIRO_SEVERITY_ERROR || m.severity == TIRO_SEVERITY_WARNING, "invalid severity");
        reported |= m.severity == TIRO_SEVERITY_ERROR;
        MC_CHECK(!m.text.empty(), "empty message");
        if (m.line == 0 && m.severity == TIRO_SEVERITY_WARNING) {
            MC_CHECK(m.column == 0 && m.file.empty(), "a message with an incomplete position: {} {} {}", m.file, m.column, m.text);
            continue; // not available
        }
        MC_CHECK(m.line >= 1 && m.line <= lines, "message in line {} of {}: {}", m.line, lines, m.text);
        size_t end = m.line == lines ? src.size() : starts[m.line];
        MC_CHECK(m.column >= 1 && m.column <= end - starts[m.line - 1] + 1, "message in column {} of line {}: {}", m.column, m.line, m.text);
        MC_CHECK(m.file == "test", "message in file {}", m.file);
    }
    if (r.error.ok()) {
        MC_CHECK(r.module, "success without a module");
        MC_CHECK(!reported, "success although an error was reported: {}", r.describe());
        if (!vm) {
            VmOptions o;
            o.max_heap = size_t(256) << 20;
            vm = std::make_unique<Vm>(o);
        }
        auto e = vm->load(r.module);
        // initializers may panic; anything else is a failure of the compiler
        MC_CHECK(e.ok() || e.code == TIRO_ERROR_MODULE_NOT_FOUND || e.details.find("panic") != e.details.npos || e.message.find("panic") != e.message.npos
                     || e.details.find("initialize") != e.details.npos,
            "the compiled module cannot be loaded: {} {} {}", tiro_errc_name(e.code), e.message, e.details);
        return e.ok() ? "loaded" : "not loaded";
    }
    MC_CHECK(r.error.code == TIRO_ERROR_BAD_SOURCE, "{}: {} {}", tiro_errc_name(r.error.code), r.error.message, r.error.details);
    MC_CHECK(reported, "bad source without an error message");
    MC_CHECK(!r.module, "a module although the source was rejected");
    return r.messages[0].text;
}

struct Feeder {
    std::string what;
    struct Item {
        std::string text, key;
    };
    std::vector<Item> items;
    size_t count = 0, limit;
    bool mine = false;

    explicit Feeder(std::string w, size_t limit_ = 256)
        : what(std::move(w))
        , limit(limit_) {}
    ~Feeder() noexcept(false) {
        if (!std::uncaught_exceptions())
            flush();
    }
    template<typename F>
    void lazy(F&& f, std::string key = {}) {
        if (count == 0)
            mine = R.claim();
        if (mine)
            items.push_back({f(), key});
        if (++count == limit)
            flush();
    }
    void add(std::string_view text) {
        lazy([&] { return std::string(text); });
    }
    void flush() {
        count = 0;
        if (items.empty())
            return;
        auto work = std::move(items);
        items.clear();
        R.exec_batch(
            work.size(), [&](size_t i) { return what + ": " + (work[i].key.empty() ? quote(work[i].text) : work[i].key); },
            [&](size_t b, size_t e) {
                std::unique_ptr<Vm> vm;
                for (size_t i = b; i < e; ++i) {
                    R.sub(i);
                    if (R.want_sample())
                        R.sample(work[i].text.substr(0, 300));
                    // an exact copy on the heap: reading past its end is visible to the address sanitizer
                    std::unique_ptr<char[]> copy(new char[work[i].text.size()]);
                    memcpy(copy.get(), work[i].text.data(), work[i].text.size());
                    try {
                        auto o = verify({copy.get(), work[i].text.size()}, fmt::format("m{}", i), vm);
                        R.states(1);
                        R.transitions(work[i].text.size());
                        R.evaluations(1);
                        R.traces(1);
                        if (o == "loaded")
                            R.nontrivial();
                        R.outcome(o);
                    } catch (Failure& f) {
                        R.sub_fail(i, f.what);
                    }
                }
            });
    }
};

const std::vector<std::string> frames = {"%s", "func f(a) { %s }", "var x = %s;", "\"%s\"", "func f(a) { \"%s\"; }", "func f(a) = a%s;", "func f(a) { %s", "func f(a) { '${%s}'; }", "export %s", "func f(%s) {}", "import %s;", "func f(a) { for %s {} }",
    "func f(a) { (%s); }", "func f(a) { [%s]; }", "func f(a) { map{%s}; }", "func f(a) { if %s {} }", "func f(a) { var %s; }"};

std::string framed(const std::string& frame, const std::string& text) {
    std::string r = frame;
    r.replace(r.find("%s"), 2, text);
    return r;
}

const std::vector<std::string> tokens = {"assert", "break", "const", "continue", "defer", "else", "export", "false", "for", "func", "if", "import", "in", "null", "return", "true", "var", "while", "map", "set", "as", "is", "try", "yield", "a", "b", "f", "1",
    "0", "1.5", "0x1", "1a", "9223372036854775808", "#s", "\"s\"", "\"", "'", "\"$a\"", "\"${", "//", "/*", "*/", "\n", "(", ")", "[", "]", "{", "}", ".", ",", ":", ";", "?", "?.", "?(", "?[", "??", "+", "-", "*", "**", "/", "%", "+=", "**=", "++", "--", "~",
    "|", "^", "&", "<<", ">>", "!", "||", "&&", "=", "==", "!=", "<", ">=", "$", "@", "\\", "_", "a.0", "a.b", "{}", "()", "(:)", "map{", "set{", "#", "1.", ".5", "0b2", "func()", "\xc3\xa9"};
const std::vector<std::string> few = {"a", "1", "\"s\"", "(", ")", "{", "}", "[", "]", ",", ";", ":", "=", "+", ".", "?.", "func", "var", "if", "else", "for", "in", "return", "break", "map{", "\"", "${", "import", "export", "while", "-", "&&"};

void bytes() {
    {
        Feeder f("bytes");
        for (size_t n = 0; n <= 2; ++n)
            all_sequences(256, n, [&](const std::vector<int>& s) {
                f.lazy([&] {
                    std::string t;
                    for (int c : s)
                        t += char(c);
                    return t;
                });
            });
        // every byte in every frame
        for (auto& frame : frames)
            for (int c = 0; c < 256; ++c)
                for (std::string rest : {"", "a", "1", "\"", "{", "}", "\x80"})
                    f.lazy([&] { return framed(frame, std::string(1, char(c)) + rest); });
    }
    // longer sequences over the bytes that are significant to the lexer
    const std::string sig = std::string("a0x1b_\"'$\\{}()[]#.?:;,+-*/%=!<>&|^~ \n\r\t@`eu") + '\0' + "\x80\xc3\xa9\xe2\xf0\xff";
    Feeder f("significant bytes");
    const size_t max = san ? (R.thorough ? 3 : 2) : (R.thorough ? 4 : 3);
    for (size_t n = 3; n <= max; ++n)
        all_sequences(sig.size(), n, [&](const std::vector<int>& s) {
            f.lazy([&] {
                std::string t;
                for (int c : s)
                    t += sig[size_t(c)];
                return t;
            });
        });
    // inside of strings and numbers
    const std::string in_string = "a0$\\{}\"'nxu\n\x80\xc3\xa9";
    for (size_t n = 1; n <= (san ? (R.thorough ? 4u : 3u) : (R.thorough ? 5u : 4u)); ++n)
        all_sequences(in_string.size(), n, [&](const std::vector<int>& s) {
            std::string t;
            for (int c : s)
                t += in_string[size_t(c)];
            f.add("var s = \"" + t + "\";");
            f.add("var s = \"" + t); // unterminated
            if (n < 4)
                f.add("func f(a) { '" + t);
        });
    const std::string in_number = "019abefxo_.+;";
    for (size_t n = 1; n <= (san ? 3u : R.thorough ? 5u : 4u); ++n)
        all_sequences(in_number.size(), n, [&](const std::vector<int>& s) {
            std::string t;
            for (int c : s)
                t += in_number[size_t(c)];
            f.add("var s = 0" + t);
            f.add("var s = 1" + t + ";");
            f.add("func f(a) = a." + t + ";");
        });
    const std::string in_escape = "0019afAF{}u\"\\g";
    for (size_t n = 0; n <= (san ? 3u : 4u); ++n)
        all_sequences(in_escape.size(), n, [&](const std::vector<int>& s) {
            std::string t;
            for (int c : s)
                t += in_escape[size_t(c)];
            f.add("var s = \"\\x" + t + "\";");
            f.add("var s = \"\\u" + t + "\";");
            f.add("var s = \"\\u{" + t);
            f.add("var s = '\\u" + t);
        });
}

void token_sequences() {
    Feeder f("tokens");
    auto join = [](const std::vector<std::string>& alphabet, const std::vector<int>& s) {
        std::string t;
        for (int i : s)
            t += (t.empty() ? "" : " ") + alphabet[size_t(i)];
        return t;
    };
    for (size_t n = 1; n <= 2; ++n)
        for (size_t k = 0; k < (san && n == 2 && !R.thorough ? 12 : frames.size()); ++k)
            all_sequences(tokens.size(), n, [&](const std::vector<int>& s) { f.lazy([&] { return framed(frames[k], join(tokens, s)); }); });
    if (!san || R.thorough)
        for (size_t k = 0; k < (R.thorough && !san ? frames.size() : 2); ++k)
            all_sequences(R.thorough || k == 1 ? tokens.size() : few.size(), 3, [&](const std::vector<int>& s) { f.lazy([&] { return framed(frames[k], join(R.thorough || k == 1 ? tokens : few, s)); }); });
    for (size_t n = 3; n <= (R.thorough ? 4u : 3u); ++n)
        for (size_t k = 0; k < frames.size(); ++k)
            if ((n == 3 && (R.thorough || k < (san ? 4 : 12))) || k < 2 || (!san && R.thorough))
                all_sequences(few.size(), n, [&](const std::vector<int>& s) { f.lazy([&] { return framed(frames[k], join(few, s)); }); });
}

const char* const corpus[] = {
    R"(import std;
import std.sub as q;
export const (k, l) = (1, 2.5), m = 0x1_f;
var v;
func g(a, b) = a ?? b?.c?[0]?(1).d.0;
export func f(p) {
    var (x, y) = (p, "a${p + "$p"}b\n");
    (x, y) = (y, x); x += 1; x **= -2;
    for var i = 0; i < 3; i += 1 { if i == 2 { continue; } else if p { break; } else { return; } }
    for (e, w) in [1, (2,), (), (:), (n: 1)] { defer v(e); }
    while !p && ~x << 2 || x { assert(p, "m $x"); }
    const h = func(z) { return map{"a": #s, z: set{1, z}}; };
    { x; const u = { h; }; u(1); }
    return if p { 1; } else { x % 2 * 3 / 4 - 5 ^ 6 & 7 | 8 >> 1; };
}
)",
    R"(func r(n) { var x; if n { x = 1; } else { return null; } const c = func() { x += 1; return func q() = x; }; return c()(); }
func s() { for ;; { if r(1) { break; } defer { return 1; }; } return "" "'" '$${1}'; }
)",
};

std::vector<std::string> split(std::string_view src) {
    // pieces that the lexer will roughly see as tokens, with the whitespace kept
    std::vector<std::string> out;
    for (size_t i = 0; i < src.size();) {
        size_t b = i;
        if (isalnum((unsigned char) src[i]) || src[i] == '_')
            while (i < src.size() && (isalnum((unsigned char) src[i]) || src[i] == '_'))
                ++i;
        else if (isspace((unsigned char) src[i]))
            while (i < src.size() && isspace((unsigned char) src[i]))
                ++i;
        else
            ++i;
        out.emplace_back(src.substr(b, i - b));
    }
    return out;
}
std::string join(const std::vector<std::string>& v) {
    std::string r;
    for (auto& s : v)
        r += s;
    return r;
}

// Every program that is one edit away from a valid one.
void edits() {
    Feeder f("edit", 64);
    for (auto* src : corpus) {
        std::string s = src;
        f.add(s);
        auto t = split(s);
        for (size_t i = 0; i <= s.size(); ++i) {
            f.lazy([&] { return s.substr(0, i); }); // truncations
            if (i < s.size())
                f.lazy([&] { return s.substr(0, i) + s.substr(i + 1); });
            if (!san || i % 3 == 0 || R.thorough)
                for (char c : std::string("\"'${}()\\;\n.?\x80\xff") + '\0') {
                    f.lazy([&] { return s.substr(0, i) + c + s.substr(i); });
                    if (i < s.size())
                        f.lazy([&] { return s.substr(0, i) + c + s.substr(i + 1); });
                }
        }
        for (size_t i = 0; i < t.size(); ++i) {
            auto with = [&](std::vector<std::string> pieces, size_t removed) {
                f.lazy([&] {
                    auto n = t;
                    n.erase(n.begin() + long(i), n.begin() + long(std::min(t.size(), i + removed)));
                    n.insert(n.begin() + long(i), pieces.begin(), pieces.end());
                    return join(n);
                });
            };
            with({}, 1);
            with({}, 2);
            with({}, 3);
            with({t[i], t[i]}, 1);
            with({}, t.size());
            if (i + 1 < t.size())
                with({t[i + 1], t[i]}, 2);
            if (i + 2 < t.size())
                with({t[i + 2], t[i + 1], t[i]}, 3);
            for (size_t k = 0; k < tokens.size(); ++k) {
                if (san && !R.thorough && (k + i) % 4)
                    continue;
                with({" " + tokens[k] + " "}, 1);
                with({" " + tokens[k] + " "}, 0);
            }
        }
        // pairs of deletions
        for (size_t i = 0; i < t.size(); ++i)
            for (size_t j = i + 1; j < t.size(); ++j) {
                if ((san || !R.thorough) && (j - i > 12))
                    break;
                f.lazy([&] {
                    auto n = t;
                    n.erase(n.begin() + long(j));
                    n.erase(n.begin() + long(i));
                    return join(n);
                });
            }
    }
}

// Nesting and repetition up to sizes that exceed every stack.
void depth() {
    Feeder f("depth", 1);
    struct Shape {
        const char *open, *middle, *close;
    };
    const std::vector<Shape> shapes = {{"(", "a", ")"}, {"[", "a", "]"}, {"{", "a;", "}"}, {"-", "a", ""}, {"!", "a", ""}, {"a(", "", ")"}, {"a[", "1", "]"}, {"", "a", "(a)"}, {"", "a", ".a"}, {"", "a", "?.a"}, {"", "a", "[a]"}, {"", "a", ".0"}, {"a + ", "a", ""},
        {"a && ", "a", ""}, {"a ?? ", "a", ""}, {"a ** ", "a", ""}, {"a = ", "a", ""}, {"(a, ", "a", ")"}, {"(a: ", "a", ")"}, {"map{1: ", "a", "}"}, {"set{", "a", "}"}, {"func() = ", "a", ""}, {"func() { ", "a;", "}"}, {"func() { return ", "a", ";}"}, {"return ", "a", ""},
        {"if a {} else ", "{}", ""}, {"if a { ", "a;", "}"}, {"if a { ", "a;", "} else { a; }"}, {"if ", "a", "{}"}, {"while a { ", "a;", "}"}, {"for ;; { ", "a;", "}"}, {"for x in a { ", "a;", "}"}, {"for x in ", "a", "{}"}, {"defer ", "a", ""}, {"defer { ", "a;", "};"}, {"\"${", "a", "}\""}, {"\"$a", "", "\""},
        {"const c = ", "a", ";"}, {"var (", "a", ") = a"}, {"assert(", "a", ")"}, {"a;", "", ""}, {"a, ", "a", ""}, {";", "", ""}, {"\n", "", ""}, {"/*", "", "*/"}, {"//", "", "\n"}, {"\\", "", ""}, {"\"", "", "\""}, {"$", "", ""}, {"a", "", ""}, {"1", "", ""}, {"1_", "1", ""}, {"#", "", ""}, {"?", "", ""}, {"<", "", ""},
        {"else ", "", ""}, {"import a;", "", ""}, {"func f() {}", "", ""}, {"}", "", ""}, {")", "", ""}, {"]", "", ""}, {"var x = 1;", "", ""}, {"export ", "", ""}, {"((((a + ", "a", "))))"}, {"\xc3\xa9", "", ""}, {"\xff", "", ""}, {"{ const a = 1; ", "a;", "}"}, {"for var a = func() { ", "a;", "}; a; a {}"},
        {"{ defer a; ", "a;", "}"}, {"x?.f(", "a", ")"}, {"a ? ", "a", ""}, {"[func() = ", "a", "]"}, {"map{", "", ""}, {"(a", "", ""}, {"a: ", "a", ""},
        {"if a { b; } ", "a;", ""}, {"if a { b = a; } else { a = b; } ", "a;", ""}, {"while a { b; } ", "a;", ""}, {"for ;b; { a; } ", "a;", ""}, {"for i in b { a; } ", "a;", ""}, {"a && b; ", "a;", ""}, {"a?.b; ", "a;", ""}, {"assert(a); ", "a;", ""}, {"{ defer a; } ", "a;", ""}, {"defer a; ", "a;", ""},
        {"a = a + 1; ", "a;", ""}, {"a(a, 1); ", "a;", ""}, {"(a, b) = (b, a); ", "a;", ""}, {"func() = a; ", "a;", ""}, {"while b { break; } ", "a;", ""}, {"\"$a\"; ", "a;", ""}};
    std::vector<size_t> sizes = {2, 3, 10, 50, 150, 250, 400, 700, 1000, 1500, 3000, 10000};
    if (san)
        sizes = R.thorough ? std::vector<size_t>{10, 250, 1000, 3000} : std::vector<size_t>{10, 200, 500};
    if (R.thorough)
        sizes.insert(sizes.end(), {20, 100, 200, 300, 350, 500, 600, 800, 900, 1023, 1024, 1025, 2000, 2047, 2048, 5000, 30000});
    if (R.thorough && !san)
        sizes.insert(sizes.end(), {100000, 200000});
    for (auto& s : shapes)
        for (size_t k : sizes)
            for (const char* frame : {"%s", "func f(a, b) { %s; }", "var x = %s;"})
                for (int closed = 0; closed < 2; ++closed) {
                    if (((k > 3000 && frame[0] == '%') || (k > 20000 && strchr(s.open, ';') && strlen(s.open) > 8)) && !R.thorough)
                        continue;
                    f.lazy(
                        [&] {
                            std::string t;
                            for (size_t i = 0; i < k; ++i)
                                t += i % 100 == 99 && k > 3000 ? s.open + std::string("\n") : s.open; // positions are computed from the start of the line
                            t += s.middle;
                            if (closed)
                                for (size_t i = 0; i < k; ++i)
                                    t += i % 100 == 99 && k > 3000 ? s.close + std::string("\n") : s.close;
                            return framed(frame, t);
                        },
                        fmt::format("{} of {}{}{} in {} {}", k, s.open, s.middle, s.close, frame, closed ? "closed" : "open"));
                }
}

} // namespace

void mc::enumerate() {
    depth();
    edits();
    bytes();
    token_sequences();
}
