// C24: compilation is deterministic and context free.
#include <malloc.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <numeric>

#include "common/items.hpp"

using namespace mc;

const char* const mc::check_id = "C24";

namespace {

// The suffixes; names of items order differently depending on them.
const std::vector<std::string> suffixes = {"1", "0", "x"};

// ---- Compilation with any number of files, everything observed ----

struct Unit {
    std::string text; // messages, attachments, error
    tiro_module_t module = nullptr;
    ~Unit() {
        if (module)
            tiro_module_free(module);
    }
    Unit() = default;
    Unit(const Unit&) = delete;
    Unit(Unit&& u) noexcept : text(std::move(u.text)), module(u.module) { u.module = nullptr; }
};

Unit build(const std::vector<std::string>& files, bool attachments, std::string_view name = "m") {
    Unit u;
    tiro_compiler_t c = tiro_compiler_new(S(name), Err());
    struct Guard {
        tiro_compiler_t c;
        ~Guard() { tiro_compiler_free(c); }
    } guard{c};
    tiro_compiler_set_message_callback(
        c,
        [](const tiro_compiler_message_t* m, void* ud) {
            *static_cast<std::string*>(ud) += fmt::format("{} {}:{}:{} {}\n", int(m->severity), V(m->file), m->line, m->column, V(m->text));
            return true;
        },
        &u.text, Err());
    for (size_t i = 0; i < files.size(); ++i)
        tiro_compiler_add_file(c, S(fmt::format("file{}", i)), S(files[i]), Err());
    const tiro_attachment_t all[] = {TIRO_ATTACHMENT_CST, TIRO_ATTACHMENT_AST, TIRO_ATTACHMENT_IR, TIRO_ATTACHMENT_BYTECODE};
    if (attachments)
        for (auto a : all)
            tiro_compiler_request_attachment(c, a, Err());
    tiro_error_t err = nullptr;
    tiro_compiler_run(c, &err);
    auto e = take_error(err);
    u.text += fmt::format("result {} {}\n", int(e.code), e.message);
    if (attachments)
        for (auto a : all) {
            char* str = nullptr;
            tiro_compiler_get_attachment(c, a, &str, &err);
            u.text += fmt::format("---- attachment {} ({})\n", int(a), int(take_error(err).code));
            if (str) {
                u.text += str;
                free(str);
            }
        }
    if (e.ok())
        tiro_compiler_take_module(c, &u.module, Err());
    return u;
}

// What calling the functions f<suffix> shows, one entry per suffix. The first call of a function is followed by one
// more of it at the end.
std::vector<std::string> behave(const Unit& u, const std::vector<std::string>& order) {
    MC_CHECK(u.module, "not accepted:\n{}", u.text);
    Vm vm;
    auto e = vm.load(u.module);
    MC_CHECK(e.ok(), "not loaded: {} {}", e.message, e.details);
    std::vector<std::string> r(order.size());
    for (int round = 0; round < 2; ++round)
        for (size_t i = 0; i < order.size(); ++i) {
            if (!round && R.want_sample())
                R.sample(fmt::format("items together: main{}", fmt::join(order, ", main")));
            auto o = vm.call("m", "main" + order[i]);
            std::string s = fmt::format("{} [{}]", o.str(), vm.take_log());
            R.transitions(1);
            // names of the item's own functions
            std::string name = "main" + order[i];
            for (size_t p = 0; (p = s.find(name, p)) != s.npos; p += 5)
                s.replace(p, name.size(), "main@");
            r[i] += (round ? " | " : "") + s;
        }
    return r;
}

std::string diff(const std::string& a, const std::string& b) {
    size_t n = 0;
    while (n < a.size() && n < b.size() && a[n] == b[n])
        ++n;
    size_t from = n > 60 ? n - 60 : 0;
    return fmt::format("\n  expected ...{}\n  actual   ...{}", a.substr(from, 160), b.substr(from, 160));
}

// ---- Context: behaviour of items alone and together ----

std::vector<std::string> alone; // per item

const std::string& behaviour_alone(size_t i) {
    if (alone.empty())
        alone.resize(items.size());
    if (alone[i].empty())
        alone[i] = behave(build({source(decls_of(i, "1"))}, false), {"1"})[0];
    return alone[i];
}

void expect_together(const std::vector<std::string>& files, const std::vector<size_t>& which, const std::vector<std::string>& sfx) {
    R.evaluations(1);
    R.traces(1);
    auto got = behave(build(files, false), sfx);
    for (size_t i = 0; i < which.size(); ++i)
        MC_CHECK(got[i] == behaviour_alone(which[i]), "'{}' behaves differently{}", items[which[i]].name, diff(behaviour_alone(which[i]), got[i]));
}

void pairs() {
    for (size_t a = 0; a < items.size(); ++a)
        for (size_t b = 0; b < items.size(); ++b) {
            if (!R.claim())
                continue;
            R.exec(fmt::format("together {}, {}", items[a].name, items[b].name), [&] {
                const auto da = decls_of(a, suffixes[0]), db = decls_of(b, suffixes[1]);
                auto cat = [](std::vector<std::string> x, const std::vector<std::string>& y) {
                    x.insert(x.end(), y.begin(), y.end());
                    return x;
                };
                const std::vector<size_t> ab{a, b}, ba{b, a};
                const std::vector<std::string> s01{suffixes[0], suffixes[1]}, s10{suffixes[1], suffixes[0]};
                expect_together({source(cat(da, db))}, ab, s01);
                expect_together({source(cat(da, db))}, ba, s10);
                expect_together({source(cat(db, da))}, ab, s01);
                expect_together({source(da), source(db)}, ab, s01);
                expect_together({source(db), source(da)}, ba, s10);
                // interleaved
                std::vector<std::string> x;
                for (size_t i = 0; i < std::max(da.size(), db.size()); ++i) {
                    if (i < da.size())
                        x.push_back(da[i]);
                    if (i < db.size())
                        x.push_back(db[i]);
                }
                expect_together({source(x)}, ab, s01);
            });
        }
}

// All orders of the declarations of one item, together with the functions of another one.
void orders() {
    const size_t others[] = {0, 8, 10, 17};
    for (size_t a = 0; a < items.size(); ++a) {
        if (!items[a].reorder || items[a].decls.size() < 2)
            continue;
        for (size_t o : others) {
            if (!R.claim())
                continue;
            R.exec(fmt::format("orders {} and {}", items[a].name, items[o].name), [&] {
                const auto da = decls_of(a, "1"), db = decls_of(o, "0");
                std::vector<size_t> p(da.size());
                std::iota(p.begin(), p.end(), 0);
                do {
                    for (size_t at = 0; at <= da.size(); ++at) {
                        std::vector<std::string> x;
                        for (size_t i = 0; i <= da.size(); ++i) {
                            if (i == at)
                                x.insert(x.end(), db.begin(), db.end());
                            if (i < da.size())
                                x.push_back(da[p[i]]);
                        }
                        expect_together({source(x)}, {a, o}, {"1", "0"});
                    }
                    // every declaration in a file of its own
                    std::vector<std::string> files;
                    bool imports = false;
                    for (size_t i : p) {
                        files.push_back(source({da[i]}));
                        imports |= da[i].substr(0, 6) == "import";
                    }
                    if (!imports) // visible in their file only
                        expect_together(files, {a}, {"1"});
                } while (std::next_permutation(p.begin(), p.end()));
            });
        }
    }
}

void triples() {
    std::vector<size_t> some;
    if (R.thorough) {
        some.resize(items.size());
        std::iota(some.begin(), some.end(), 0);
    } else {
        for (size_t i = 0; i < items.size(); i += 2)
            some.push_back(i);
    }
    for (size_t a : some)
        for (size_t b : some)
            for (size_t c : some) {
                if (!R.thorough && (a == b || b == c))
                    continue;
                if (!R.claim())
                    continue;
                R.exec(fmt::format("together {}, {}, {}", items[a].name, items[b].name, items[c].name), [&] {
                    std::vector<std::string> x;
                    size_t n = 0;
                    for (size_t i : {a, b, c}) {
                        auto d = decls_of(i, suffixes[n++]);
                        x.insert(x.end(), d.begin(), d.end());
                    }
                    expect_together({source(x)}, {a, b, c}, suffixes);
                });
            }
    // Everything at once, in rotated orders.
    for (size_t shift = 0; shift < items.size(); ++shift) {
        if (!R.claim())
            continue;
        R.exec(fmt::format("all items from {}", shift), [&] {
            std::vector<std::string> x, sfx;
            std::vector<size_t> which;
            for (size_t k = 0; k < items.size(); ++k) {
                size_t i = (k + shift) % items.size();
                which.push_back(i);
                sfx.push_back(fmt::format("{}", (k * 37) % 1000 + 100));
                auto d = decls_of(i, sfx.back());
                x.insert(x.end(), d.begin(), d.end());
            }
            expect_together({source(x)}, which, sfx);
        });
    }
}

// ---- Determinism ----

// Things that must not matter: what was compiled before, the contents of fresh memory and its addresses.
struct Layout {
    int perturb;      // fresh and freed memory is filled with this
    bool pages;       // every larger allocation gets pages of its own
    size_t junk;      // allocations made before
    int history;      // programs compiled before
    bool reuse;       // the freed memory of an earlier compilation of the same source is reused
};
std::vector<Layout> layouts() {
    std::vector<Layout> r;
    for (int p : {0x5a, 0xff, 0x01})
        for (size_t junk : {size_t(0), size_t(1), size_t(3), size_t(7)})
            r.push_back({p, false, junk, int(junk) % 4, junk == 3});
    r.push_back({0xaa, true, 0, 0, false});
    r.push_back({0, true, 5, 2, true});
    return r;
}

const std::vector<std::string> histories = {
    "",
    "import std; export func z(b, a) { const r = (b: a, a: b); return func() = (r.b, \"foo\"); }",
    "export func broken( { 1 + ; }",
    "import h; import std as foo; const (x, y) = (1, 2.5); export func f1(b, a) { var x = 1; defer h.t(x); x = 2; while a { x = y; } return x; } export func f0() = unknown;",
};

std::string under(const Layout& l, const std::vector<std::string>& files) {
    mallopt(M_PERTURB, l.perturb);
    mallopt(M_MMAP_THRESHOLD, l.pages ? 512 : 128 << 10);
    std::vector<void*> junk;
    for (size_t i = 0; i < l.junk; ++i)
        junk.push_back(malloc(1000 + 2531 * i));
    if (l.history)
        build({histories[size_t(l.history)]}, true, "other");
    if (l.reuse)
        build(files, false, "foo");
    for (size_t i = 0; i < junk.size(); i += 2)
        free(junk[i]);
    std::string r = build(files, true).text;
    for (size_t i = 1; i < junk.size(); i += 2)
        free(junk[i]);
    mallopt(M_PERTURB, 0);
    R.evaluations(1);
    return r;
}

void expect_same(const std::vector<std::string>& files, size_t n) {
    static const auto all = layouts();
    const std::string first = under(all[0], files);
    R.states(1);
    R.outcome(first);
    if (first.find("\nresult 0") != first.npos || first.substr(0, 8) == "result 0")
        R.nontrivial();
    for (size_t i = 1; i < n && i < all.size(); ++i) {
        // The last ones are the most different ones.
        const std::string other = under(all[all.size() - i], files);
        MC_CHECK(other == first, "compiled differently the second time{}", diff(first, other));
    }
}

std::vector<std::string> tokens(const std::string& s) {
    std::vector<std::string> r;
    for (size_t i = 0; i < s.size();) {
        size_t b = i;
        auto word = [](char c) { return isalnum(static_cast<unsigned char>(c)) || c == '_'; };
        if (word(s[i]))
            while (i < s.size() && word(s[i]))
                ++i;
        else
            ++i;
        r.push_back(s.substr(b, i - b));
    }
    return r;
}

void determinism() {
    for (size_t n : {size_t(3), size_t(12), size_t(17), size_t(40), size_t(150)})
        for (int kind = 0; kind < 10; ++kind)
            R.run(fmt::format("layouts wide {} {}", kind, n), [&] {
                if (kind != 7 && kind != 8) {
                    auto u = build({wide(n, kind)}, false);
                    MC_CHECK(u.module, "not accepted:\n{}", u.text);
                }
                expect_same({wide(n, kind)}, 99);
            });
    R.run("layouts all items", [&] {
        std::string x = prelude;
        for (size_t i = 0; i < items.size(); ++i)
            for (auto& d : decls_of(i, fmt::format("{}", i * 37 % 1000)))
                x += d + "\n";
        expect_same({x}, 99);
    });
    for (size_t a = 0; a < items.size(); ++a) {
        R.run(fmt::format("layouts {}", items[a].name), [&] { expect_same({source(decls_of(a, "1"))}, 99); });
        for (size_t b = 0; b < items.size(); ++b) {
            if (!R.claim())
                continue;
            R.exec(fmt::format("layouts {}, {}", items[a].name, items[b].name), [&] {
                auto x = decls_of(a, "1"), y = decls_of(b, "0");
                x.insert(x.end(), y.begin(), y.end());
                expect_same({source(x)}, R.thorough ? 99 : 5);
                // The same names twice
                auto z = decls_of(a, "1"), w = decls_of(b, "1");
                z.insert(z.end(), w.begin(), w.end());
                expect_same({source(z)}, 3);
                expect_same({source(decls_of(a, "1")), source(w)}, 3);
            });
        }
        // Broken programs
        const std::string text = source(decls_of(a, "1"));
        const auto t = tokens(text);
        for (size_t i = 0; i < t.size(); ++i) {
            if (t[i] == " " || t[i] == "\n" || !R.claim())
                continue;
            R.exec(fmt::format("layouts {} without token {}", items[a].name, i), [&] {
                std::string x, y, z;
                for (size_t k = 0; k < t.size(); ++k) {
                    x += k == i ? " " : t[k];
                    y += k == i ? "foo " : t[k];
                    z += k == i ? t[k] + " " + t[k] : t[k];
                }
                expect_same({x}, R.thorough ? 6 : 2);
                expect_same({y}, R.thorough ? 6 : 2);
                expect_same({z}, R.thorough ? 6 : 2);
            });
        }
    }
}

// ---- Processes ----

// All programs that are compared across processes.
std::vector<std::string> dump_programs() {
    std::vector<std::string> r;
    for (size_t a = 0; a < items.size(); ++a)
        r.push_back(source(decls_of(a, "1")));
    for (int kind = 0; kind < 10; ++kind)
        r.push_back(wide(20, kind));
    for (size_t a = 0; a < items.size(); ++a)
        for (size_t b = 0; b < items.size(); b += 3) {
            auto x = decls_of(a, "1"), y = decls_of(b, a % 2 ? "0" : "1");
            x.insert(x.end(), y.begin(), y.end());
            r.push_back(source(x));
        }
    return r;
}

// Compiles programs in another process and returns a hash of each result.
// mode: forward, reverse, or the index of the only program
void dump_hashes(int fd, const std::string& mode) {
    const auto programs = dump_programs();
    std::vector<std::string> lines(programs.size());
    auto add = [&](size_t i) {
        std::string s = build({programs[i]}, true).text;
        uint64_t h = 1469598103934665603u;
        for (char c : s)
            h = (h ^ static_cast<unsigned char>(c)) * 1099511628211u;
        lines[i] = fmt::format("{:016x}\n", h);
    };
    if (mode == "forward")
        for (size_t i = 0; i < programs.size(); ++i)
            add(i);
    else if (mode == "reverse")
        for (size_t i = programs.size(); i-- > 0;)
            add(i);
    else
        add(std::stoul(mode));
    std::string out;
    for (auto& l : lines)
        out += l;
    while (!out.empty()) {
        auto n = write(fd, out.data(), out.size());
        if (n <= 0)
            _exit(3);
        out.erase(0, size_t(n));
    }
    _exit(0);
}

struct DumpEntry {
    DumpEntry() {
        if (auto m = getenv("C24_DUMP"))
            mode = m;
    }
    std::string mode;
} dump_entry;

std::string other_process(bool fixed_addresses, size_t environment, const std::string& mode) {
    int p[2];
    MC_CHECK(pipe(p) == 0, "pipe");
    std::string pad = "PAD=" + std::string(environment, 'x');
    char exe[4096];
    auto len = readlink("/proc/self/exe", exe, sizeof exe - 1);
    MC_CHECK(len > 0, "readlink");
    exe[len] = 0;
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        dup2(p[1], 9);
        if (fixed_addresses)
            personality(ADDR_NO_RANDOMIZE);
        std::string dump = "C24_DUMP=" + mode;
        char replay[] = "--replay", null[] = "/dev/null";
        char* argv[] = {exe, replay, null, nullptr};
        char* env[] = {dump.data(), pad.data(), nullptr};
        execve(exe, argv, env);
        _exit(4);
    }
    close(p[1]);
    std::string out;
    char buf[4096];
    for (ssize_t n; (n = read(p[0], buf, sizeof buf)) > 0;)
        out.append(buf, size_t(n));
    close(p[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    return out;
}

void processes() {
    const auto programs = dump_programs();
    const size_t singles = items.size() + 10;
    auto compare = [&](const std::string& first, const std::string& other, const char* what) {
        R.evaluations(programs.size());
        for (size_t i = 0; i < programs.size(); ++i)
            MC_CHECK(first.substr(i * 17, 17) == other.substr(i * 17, 17), "compiled differently by different processes ({}):\n{}", what, programs[i]);
    };
    R.run("other processes", [&] {
        const std::string first = other_process(true, 0, "forward");
        MC_CHECK(first.size() == programs.size() * 17, "incomplete output");
        for (int i = 0; i < (R.thorough ? 12 : 4); ++i)
            compare(first, other_process(i == 0, size_t(1) << (2 * i), "forward"), "addresses");
        compare(first, other_process(false, 0, "reverse"), "order of compilation");
    });
    for (size_t i = 0; i < singles; ++i)
        R.run(fmt::format("only program {}", i), [&] {
            const std::string alone = other_process(false, 0, fmt::format("{}", i));
            MC_CHECK(alone.size() == 17, "incomplete output");
            for (const char* order : {"forward", "reverse"})
                MC_CHECK(other_process(false, 0, order).substr(i * 17, 17) == alone, "compiled differently if it is the first program ({}):\n{}", order, programs[i]);
            R.evaluations(3);
        });
}

} // namespace

void mc::enumerate() {
    if (!dump_entry.mode.empty())
        dump_hashes(9, dump_entry.mode);
    processes();
    determinism();
    pairs();
    orders();
    triples();
}
