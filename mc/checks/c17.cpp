// C17: coroutine schedules against a model of the ready queue, tokens and completion callbacks.
#include <algorithm>
#include <deque>
#include <memory>
#include <set>

#include "common/gc.hpp"
#include "common/host.hpp"

using namespace mc;

const char* const mc::check_id = "C17";

namespace {

// ---- Scripts ----

enum Op { End, Dispatch, Yield, Wait, Token, Async, Launch, Panic, CatchYield, NativeYield, DeferYield, LoopYield, Res0, Res1, Res2, OpCount };
const char* const op_names[] = {"end", "dispatch", "yield", "wait", "token", "async", "launch", "panic", "catch-yield", "native-yield", "defer-yield", "loop-yield", "resume0", "resume1", "resume2"};

const char* const program = R"(
import std; import g; import h;

func wait(tok, id) {
    tok[id] = std.coroutine_token();
    h.t((id, #wait));
    std.yield_coroutine();
    h.t((id, #woken));
    return id;
}

func resume(tok, id, k) {
    const t = tok[k];
    if (t == null) {
        return h.t((id, k, null));
    }
    const before = t.valid();
    const did = t.resume();
    h.t((id, k, before, did, t.valid(), t.resume()));
}

func step(id, op, tok, n) {
    if (op == 1) {
        h.t((id, #dispatch));
        std.dispatch();
    } else if (op == 2) {
        wait(tok, id);
    } else if (op == 3) {
        h.t((id, #silent));
        std.yield_coroutine();
    } else if (op == 4) {
        const t = std.coroutine_token();
        const same = t == std.coroutine_token();
        h.t((id, #token, t.valid(), same, tok[id] == t, t.coroutine() == std.current_coroutine()));
        tok[id] = t;
    } else if (op == 5) {
        h.t((id, g.later(id * 100 + n)));
    } else if (op == 6) {
        const c = std.launch(body, id + 3, 1, tok);
        h.t((id, #launched, c == std.current_coroutine()));
    } else if (op == 7) {
        std.panic("panic $id");
    } else if (op == 8) {
        const r = std.catch_panic(func() {
            wait(tok, id);
            std.panic("inner $id");
        });
        h.t((id, r.error().message()));
    } else if (op == 9) {
        h.t((id, g.call(func(a, b) { wait(tok, id); return (a, b); }, "value")));
    } else if (op == 10) {
        defer h.t((id, #deferred));
        defer wait(tok, id);
    } else if (op == 11) {
        for x in [id, id + 10] { h.t(x); wait(tok, x % 10); h.t(x); }
    } else {
        resume(tok, id, op - 12);
    }
}

export func body(id, script, tok) {
    var s = script;
    var n = 0;
    h.t((id, #start));
    while (s > 0) {
        step(id, s % 32, tok, n);
        n += 1;
        h.t((id, n));
        s = s / 32;
    }
    h.t((id, #end));
    return [id, n];
}

export func kick(tok, k) {
    resume(tok, 9, k);
    return k;
}
)";

using Script = std::vector<int>;

int64_t encode(const Script& s) {
    int64_t r = 0;
    for (size_t i = s.size(); i-- > 0;)
        r = r * 32 + s[i];
    return r;
}

std::string show(const Script& s) {
    std::string r;
    for (int o : s)
        r += std::string(r.empty() ? "" : ",") + op_names[o];
    return "[" + r + "]";
}

// ---- Model ----

struct Machine {
    enum State { New, Ready, Running, Waiting, Done };
    struct Coro {
        int id = 0;
        Script script;
        size_t pc = 0;
        int sub = 0; // progress within the operation
        int async_n = 0;
        State state = New;
        int token = 0; // serial of the current token
        bool root = false;
        bool in_async = false;
        int64_t delivered = 0;
        std::string result;
    };
    std::deque<Coro> coros; // stable references
    std::deque<int> queue;
    std::vector<std::pair<int, int>> tok = std::vector<std::pair<int, int>>(7, {-1, 0}); // stored tokens: coroutine, serial
    std::vector<std::pair<int, int64_t>> pending; // asynchronous calls: coroutine, value
    std::vector<std::string> log;
    int serial = 0;

    int add(int id, const Script& s, bool root) {
        Coro c;
        c.id = id;
        c.script = s;
        c.root = root;
        coros.push_back(c);
        return int(coros.size()) - 1;
    }
    void start(int i) {
        coros[size_t(i)].state = Ready;
        queue.push_back(i);
    }
    void put(std::string s) { log.push_back(std::move(s)); }

    bool valid(std::pair<int, int> t) { return t.first >= 0 && coros[size_t(t.first)].token == t.second; }
    bool resume(std::pair<int, int> t) {
        if (!valid(t) || coros[size_t(t.first)].state != Waiting)
            return false;
        wake(t.first);
        return true;
    }
    void wake(int i) {
        coros[size_t(i)].token = 0;
        coros[size_t(i)].state = Ready;
        queue.push_back(i);
    }
    int current_token(Coro& c) {
        if (!c.token)
            c.token = ++serial;
        return c.token;
    }
    static const char* b(bool v) { return v ? "true" : "false"; }

    void log_resume(int id, int k) {
        auto t = tok[size_t(k)];
        if (t.first < 0) {
            put(fmt::format("({},{},null)", id, k));
            return;
        }
        bool before = valid(t);
        bool did = resume(t);
        bool after = valid(t);
        put(fmt::format("({},{},{},{},{},{})", id, k, b(before), b(did), b(after), "false"));
    }

    // Stores a token in slot and waits.
    void wait(int self, int slot) {
        auto& c = coros[size_t(self)];
        tok[size_t(slot)] = {self, current_token(c)};
        put(fmt::format("({},<#wait>)", slot));
        c.state = Waiting;
    }
    void panicked(Coro& c) {
        c.state = Done;
        c.token = 0;
        c.result = fmt::format("error(exception(\"panic {}\"))", c.id);
        if (c.root)
            put(fmt::format("done {} {}", c.id, c.result));
    }

    // Runs a coroutine until it yields or is done.
    void run(int self) {
        auto& c = coros[size_t(self)];
        c.state = Running;
        if (c.pc == 0 && c.sub == 0)
            put(fmt::format("({},<#start>)", c.id));
        while (c.pc < c.script.size()) {
            const int id = c.id;
            switch (c.script[c.pc]) {
            case Dispatch:
                if (c.sub == 0) {
                    put(fmt::format("({},<#dispatch>)", id));
                    c.sub = 1;
                    wake(self);
                    return;
                }
                break;
            case Yield:
                if (c.sub++ == 0)
                    return wait(self, id);
                put(fmt::format("({},<#woken>)", id));
                break;
            case Wait:
                if (c.sub++ == 0) {
                    put(fmt::format("({},<#silent>)", id));
                    c.state = Waiting;
                    return;
                }
                break;
            case Token: {
                auto old = tok[size_t(id)];
                int cur = current_token(c);
                put(fmt::format("({},<#token>,true,true,{},true)", id, b(old.first == self && old.second == cur)));
                tok[size_t(id)] = {self, cur};
                break;
            }
            case Async:
                if (c.sub++ == 0) {
                    c.token = ++serial; // belongs to the native call
                    c.state = Waiting;
                    c.in_async = true;
                    pending.push_back({self, id * 100 + int64_t(c.pc)});
                    return;
                }
                put(fmt::format("({},{})", id, c.delivered));
                break;
            case Launch: {
                int child = add(id + 3, {Dispatch}, false);
                start(child);
                put(fmt::format("({},<#launched>,false)", id));
                break;
            }
            case Panic:
                return panicked(c);
            case CatchYield:
                if (c.sub++ == 0)
                    return wait(self, id);
                put(fmt::format("({},<#woken>)", id));
                put(fmt::format("({},\"inner {}\")", id, id));
                break;
            case NativeYield:
                if (c.sub++ == 0)
                    return wait(self, id);
                put(fmt::format("({},<#woken>)", id));
                put(fmt::format("({},(\"value\",\"value\",\"closure of call\",(\"value\",\"value\")))", id));
                break;
            case DeferYield:
                if (c.sub++ == 0)
                    return wait(self, id);
                put(fmt::format("({},<#woken>)", id));
                put(fmt::format("({},<#deferred>)", id));
                break;
            case LoopYield: {
                int phase = c.sub++;
                if (phase > 0) {
                    put(fmt::format("({},<#woken>)", id));
                    put(std::to_string(phase == 1 ? id : id + 10));
                }
                if (phase < 2) {
                    put(std::to_string(phase == 0 ? id : id + 10));
                    return wait(self, id);
                }
                break;
            }
            default:
                log_resume(id, c.script[c.pc] - Res0);
            }
            c.sub = 0;
            ++c.pc;
            put(fmt::format("({},{})", id, c.pc));
        }
        put(fmt::format("({},<#end>)", c.id));
        c.state = Done;
        c.token = 0;
        c.result = fmt::format("success([{},{}])", c.id, c.pc);
        if (c.root)
            put(fmt::format("done {} {}", c.id, c.result));
    }

    void run_ready() {
        while (!queue.empty()) {
            int i = queue.front();
            queue.pop_front();
            run(i);
        }
    }
    void deliver(size_t i) {
        auto p = pending[i];
        pending.erase(pending.begin() + ptrdiff_t(i));
        coros[size_t(p.first)].delivered = p.second;
        wake(p.first);
    }
    void kick(int k) {
        log_resume(9, k);
        run_ready();
    }
    std::vector<int> kickable() {
        std::vector<int> r;
        for (int k = 0; k < 6; ++k)
            if (valid(tok[size_t(k)]) && coros[size_t(tok[size_t(k)].first)].state == Waiting)
                r.push_back(k);
        return r;
    }
};

// ---- Execution ----

struct Root {
    XVm* vm;
    int id;
    int done = 0, cleaned = 0;
};

void done_callback(tiro_vm_t vm, tiro_handle_t coro, void* userdata) {
    auto* r = static_cast<Root*>(userdata);
    H res(vm);
    tiro_coroutine_result(vm, coro, res, Err());
    ++r->done;
    r->vm->log.push_back(fmt::format("done {} {}{}", r->id, r->vm->dump(res), tiro_coroutine_completed(vm, coro) ? "" : " (not completed)"));
}
void done_cleanup(void* userdata) {
    static_cast<Root*>(userdata)->cleaned++;
}

void set_arg(tiro_vm_t vm, tiro_handle_t args, size_t i, int64_t v) {
    H n = make_int(vm, v);
    tiro_tuple_set(vm, args, i, n, Err());
}

// One schedule. `choices` is extended at new choice points (first alternative).
struct Choices {
    std::vector<std::pair<int, int>> taken; // choice, alternatives
    size_t pos = 0;
    int choose(int n) {
        if (n <= 1)
            return 0;
        if (pos == taken.size())
            taken.push_back({0, n});
        return taken[pos++].first;
    }
    bool next() {
        pos = 0;
        while (!taken.empty()) {
            if (++taken.back().first < taken.back().second)
                return true;
            taken.pop_back();
        }
        return false;
    }
    std::string str() const {
        std::string r;
        for (auto& t : taken)
            r += std::to_string(t.first);
        return r;
    }
};

enum Mode { Together, Separately };

void schedule(XVm& vm, const std::vector<Script>& scripts, Choices& ch, Mode mode, bool collect) {
    vm.log.clear();
    MC_CHECK(vm.pending() == 0, "leftover asynchronous calls");
    Machine m;
    std::vector<Root> roots(scripts.size());
    std::vector<H> coros;
    std::string story;
    H fn(vm), kick(vm), tok(vm);
    MC_CHECK(vm.get_export("m", "body", fn).ok() && vm.get_export("m", "kick", kick).ok(), "no function");
    tiro_make_array(vm, 7, tok, Err());
    {
        H null(vm);
        for (int i = 0; i < 7; ++i)
            tiro_array_push(vm, tok, null, Err());
    }
    auto run = [&] {
        if (collect)
            gc::collect(vm.get());
        tiro_error_t e = nullptr;
        tiro_vm_run_ready(vm, &e);
        auto err = take_error(e);
        MC_CHECK(err.ok(), "the virtual machine reported {} {}", err.message, err.details);
        MC_CHECK(!tiro_vm_has_ready(vm), "coroutines are still ready");
        m.run_ready();
    };
    auto compare = [&](const char* when) {
        R.states(1);
        if (vm.log == m.log)
            return;
        std::string a, b;
        for (auto& s : m.log)
            a += s + " ";
        for (auto& s : vm.log)
            b += s + " ";
        fail("{} ({})\nexpected {}\nobserved {}", when, story, a, b);
    };
    for (size_t i = 0; i < scripts.size(); ++i) {
        roots[i].vm = &vm;
        roots[i].id = int(i);
        coros.emplace_back(vm);
        H args(vm);
        tiro_make_tuple(vm, 3, args, Err());
        set_arg(vm, args, 0, int64_t(i));
        set_arg(vm, args, 1, encode(scripts[i]));
        tiro_tuple_set(vm, args, 2, tok, Err());
        tiro_make_coroutine(vm, fn, args, coros[i], Err());
        tiro_coroutine_set_callback(vm, coros[i], done_callback, done_cleanup, &roots[i], Err());
        MC_CHECK(!tiro_coroutine_started(vm, coros[i]), "started before it was started");
        tiro_coroutine_start(vm, coros[i], Err());
        MC_CHECK(tiro_coroutine_started(vm, coros[i]) && !tiro_coroutine_completed(vm, coros[i]), "not started");
        {
            tiro_error_t e = nullptr;
            tiro_coroutine_start(vm, coros[i], &e);
            MC_CHECK(take_error(e).code == TIRO_ERROR_BAD_STATE, "started twice");
        }
        m.start(m.add(int(i), scripts[i], true));
        if (mode == Separately) {
            run();
            compare("after start");
        }
    }
    if (mode == Together) {
        run();
        compare("after the first run");
    }
    for (int round = 0; round < 40; ++round) {
        MC_CHECK(vm.pending() == m.pending.size(), "{} pending calls, expected {}", vm.pending(), m.pending.size());
        if (!m.pending.empty()) {
            // deliver any one, or two before the coroutines run
            int n = int(m.pending.size());
            int i = ch.choose(n > 1 ? 2 * n : n);
            bool again = i >= n;
            i %= n;
            for (int k = 0; k < (again ? 2 : 1); ++k) {
                if (k)
                    i = ch.choose(int(m.pending.size()));
                story += fmt::format("deliver {} ", i);
                std::swap(vm.pending_[0], vm.pending_[size_t(i)]);
                // keep the order of the others
                auto front = vm.pending_[0];
                std::deque<XVm::Pending> rest;
                std::swap(vm.pending_[0], vm.pending_[size_t(i)]);
                for (size_t j = 0; j < vm.pending_.size(); ++j)
                    if (j != size_t(i))
                        rest.push_back(vm.pending_[j]);
                vm.pending_ = rest;
                vm.pending_.push_front(front);
                MC_CHECK(vm.deliver().ok(), "delivery failed");
                m.deliver(size_t(i));
            }
            run();
        } else {
            auto ks = m.kickable();
            if (ks.empty())
                break;
            int k = ks[size_t(ch.choose(int(ks.size())))];
            story += fmt::format("kick {} ", k);
            H args(vm), coro(vm);
            tiro_make_tuple(vm, 2, args, Err());
            tiro_tuple_set(vm, args, 0, tok, Err());
            set_arg(vm, args, 1, k);
            tiro_make_coroutine(vm, kick, args, coro, Err());
            tiro_coroutine_start(vm, coro, Err());
            m.log_resume(9, k);
            run();
        }
        R.transitions(1);
        compare("after a delivery");
    }
    for (size_t i = 0; i < scripts.size(); ++i) {
        auto& mc = m.coros[i];
        // roots come first unless children were launched in between
        for (auto& c : m.coros)
            if (c.root && c.id == int(i)) {
                MC_CHECK(tiro_coroutine_completed(vm, coros[i]) == (c.state == Machine::Done), "completed: {}", story);
                MC_CHECK(roots[i].done == (c.state == Machine::Done) && roots[i].cleaned == roots[i].done, "callback called {} times, cleanup {} times", roots[i].done, roots[i].cleaned);
                tiro_error_t e = nullptr;
                H r(vm);
                tiro_coroutine_result(vm, coros[i], r, &e);
                auto err = take_error(e);
                if (c.state == Machine::Done)
                    MC_CHECK(err.ok() && vm.dump(r) == c.result, "result {}", vm.dump(r));
                else
                    MC_CHECK(err.code == TIRO_ERROR_BAD_STATE, "result of an unfinished coroutine: {}", err.message);
            }
        (void) mc;
    }
    // Unfinished coroutines: replace the callback, its data goes out of scope.
    for (size_t i = 0; i < scripts.size(); ++i)
        if (!roots[i].done) {
            static Root dummy;
            dummy.vm = &vm;
            dummy.id = -1;
            tiro_coroutine_set_callback(vm, coros[i], done_callback, done_cleanup, &dummy, Err());
        }
    coros.clear();
    gc::collect(vm.get());
    for (auto& r : roots)
        MC_CHECK(r.cleaned == 1, "cleanup called {} times", r.cleaned);
    for (auto& p : vm.pending_) {
        tiro_async_token_free(p.token);
        tiro_global_free(p.value);
    }
    vm.pending_.clear();
    R.outcome(fmt::format("{}", fmt::join(m.log, "")));
}

struct Feeder {
    size_t count = 0;
    bool mine = false;
    std::vector<std::vector<Script>> items;
    ~Feeder() noexcept(false) {
        if (!std::uncaught_exceptions())
            flush();
    }
    void add(std::vector<Script> s) {
        if (count == 0)
            mine = R.claim();
        if (mine)
            items.push_back(std::move(s));
        if (++count >= 200)
            flush();
    }
    void flush() {
        count = 0;
        if (items.empty())
            return;
        auto work = std::move(items);
        items.clear();
        R.exec_batch(
            work.size(),
            [&](size_t i) {
                std::string r;
                for (auto& s : work[i])
                    r += show(s);
                return r;
            },
            [&](size_t begin, size_t end) {
                auto vm = std::make_unique<XVm>();
                vm->load_source(program, "m");
                for (size_t i = begin; i < end; ++i) {
                    R.sub(i);
                    for (int mode = 0; mode < 2; ++mode) {
                        Choices ch;
                        int n = 0;
                        do {
                            ch.pos = 0;
                            try {
                                schedule(*vm, work[i], ch, Mode(mode), n % 2 == 1);
                            } catch (const Failure& f) {
                                R.sub_fail(i, fmt::format("{}schedule {}: {}", mode ? "started separately, " : "", ch.str(), f.what));
                                vm = std::make_unique<XVm>();
                                vm->load_source(program, "m");
                                break;
                            }
                            R.traces(1);
                            R.evaluations(1);
                            R.nontrivial(!ch.taken.empty());
                            if (++n >= 400) {
                                R.capped("schedules of one set of scripts");
                                break;
                            }
                        } while (ch.next());
                        if (R.want_sample())
                            R.sample(fmt::format("{} schedules, last: {}", n, fmt::join(vm->log, " ")));
                    }
                }
            });
    }
};

std::vector<Script> scripts(const std::vector<int>& ops, size_t max, size_t min = 0) {
    std::vector<Script> r;
    for (size_t n = min; n <= max; ++n)
        all_sequences(ops.size(), n, [&](const std::vector<int>& seq) {
            Script s;
            for (int x : seq)
                s.push_back(ops[size_t(x)]);
            r.push_back(s);
        });
    return r;
}

void pairs(const std::vector<Script>& a, const std::vector<Script>& b) {
    Feeder f;
    for (auto& x : a)
        for (auto& y : b)
            f.add({x, y});
}
void triples(const std::vector<Script>& a, const std::vector<Script>& b, const std::vector<Script>& c) {
    Feeder f;
    for (auto& x : a)
        for (auto& y : b)
            for (auto& z : c)
                f.add({x, y, z});
}

// ---- Completion callbacks: histories of host operations on one coroutine ----

struct Cb {
    int called = 0, cleaned = 0;
    bool has_cleanup = true, cleaned_directly = false;
    int result_kind = -1;
    int flavour = 0;
    struct History* h = nullptr;
};
struct History {
    XVm* vm = nullptr;
    std::vector<std::unique_ptr<Cb>> cbs;
    std::vector<std::string> errors;
    int extra_runs = 0;
    Cb* inside = nullptr;
    int last_called = -1;
};

void cb_cleanup(void* u) {
    auto* c = static_cast<Cb*>(u);
    ++c->cleaned;
}
void cb_extra(tiro_vm_t vm, tiro_handle_t, void* u) {
    static_cast<History*>(u)->extra_runs++;
}
void cb_done(tiro_vm_t vm, tiro_handle_t coro, void* u) {
    auto* c = static_cast<Cb*>(u);
    auto* h = c->h;
    ++c->called;
    if (c->cleaned)
        h->errors.push_back("callback called after its cleanup");
    H r(vm);
    tiro_error_t e = nullptr;
    tiro_coroutine_result(vm, coro, r, &e);
    if (!take_error(e).ok() || tiro_value_kind(vm, r) != TIRO_KIND_RESULT)
        h->errors.push_back("no result in the callback");
    else
        c->result_kind = tiro_result_is_success(vm, r);
    // Nested runs are refused.
    tiro_vm_run_ready(vm, &e);
    if (take_error(e).ok())
        h->errors.push_back("nested run was accepted");
    if (c->flavour == 1) {
        // replaces itself
        h->cbs.push_back(std::make_unique<Cb>());
        h->cbs.back()->h = h;
        tiro_coroutine_set_callback(vm, coro, cb_done, cb_cleanup, h->cbs.back().get(), &e);
        if (!take_error(e).ok())
            h->errors.push_back("cannot set a callback in a callback");
        gc::collect(vm);
        if (c->cleaned)
            h->errors.push_back("cleaned up while it was running");
    } else if (c->flavour == 2) {
        // starts another coroutine, which runs before run_ready returns
        H fn(vm), c2(vm);
        h->vm->get_export("m", "quick", fn);
        tiro_make_coroutine(vm, fn, nullptr, c2, &e);
        take_error(e);
        tiro_coroutine_set_callback(vm, c2, cb_extra, nullptr, h, &e);
        take_error(e);
        tiro_coroutine_start(vm, c2, &e);
        if (!take_error(e).ok())
            h->errors.push_back("cannot start a coroutine in a callback");
    }
}

const char* const cb_program = R"(
import std; import g;
export func quick() = 1;
export func panics() { std.panic("msg"); }
export func later() = g.later(3);
export func forever() { std.yield_coroutine(); }
)";

enum HostOp { HStart, HSet, HSetNoCleanup, HSetNull, HSetBad, HSetReplacing, HSetStarting, HRun, HDeliver, HCollect, HFree, HOps };
const char* const host_names[] = {"start", "set", "set-without-cleanup", "set-null", "set-on-integer", "set-replacing", "set-starting", "run", "deliver", "collect", "free"};

void history(const char* function, const std::vector<int>& ops) {
    History h;
    {
        XVm vm;
        h.vm = &vm;
        vm.load_source(cb_program, "m");
        auto coro = std::make_unique<H>(vm);
        {
            H fn(vm);
            vm.get_export("m", function, fn);
            tiro_make_coroutine(vm, fn, nullptr, *coro, Err());
        }
        enum { New, Started, Waiting, WaitingForever, Done } state = New;
        Cb* active = nullptr;
        bool ready = false;
        int expected_extra = 0;
        const std::string f = function;
        auto set = [&](tiro_coroutine_callback_t cb, tiro_coroutine_cleanup_t cleanup, int flavour, tiro_errc_t expect, tiro_handle_t target) {
            h.cbs.push_back(std::make_unique<Cb>());
            Cb* c = h.cbs.back().get();
            c->h = &h;
            c->flavour = flavour;
            c->has_cleanup = cleanup != nullptr;
            tiro_error_t e = nullptr;
            tiro_coroutine_set_callback(vm, target, cb, cleanup, c, &e);
            auto err = take_error(e);
            MC_CHECK(err.code == expect, "set_callback: {} {}", int(err.code), err.message);
            if (expect == TIRO_OK) {
                MC_CHECK(c->cleaned == 0 && c->called == 0, "cleanup or callback called too early");
                if (state != Done)
                    active = c;
            } else {
                MC_CHECK(c->cleaned == 1 && c->called == 0, "cleanup called {} times after an error", c->cleaned);
            }
        };
        auto finished = [&] {
            state = Done;
            if (active) {
                MC_CHECK(active->called == 1, "callback called {} times at completion", active->called);
                MC_CHECK(!active->has_cleanup || active->cleaned == 1, "cleanup not called directly after the callback");
                MC_CHECK(active->result_kind == (f != "panics"), "wrong result in the callback");
                if (active->flavour == 2)
                    ++expected_extra;
            }
            MC_CHECK(h.extra_runs == expected_extra, "{} coroutines started in callbacks ran, expected {}", h.extra_runs, expected_extra);
        };
        for (int op : ops) {
            R.transitions(1);
            const int called_before = active ? active->called : 0;
            switch (op) {
            case HStart: {
                if (!coro)
                    break;
                tiro_error_t e = nullptr;
                tiro_coroutine_start(vm, *coro, &e);
                auto err = take_error(e);
                MC_CHECK(err.code == (state == New ? TIRO_OK : TIRO_ERROR_BAD_STATE), "start: {}", err.message);
                if (state == New) {
                    state = Started;
                    ready = true;
                }
                break;
            }
            case HSet:
                if (coro)
                    set(cb_done, cb_cleanup, 0, TIRO_OK, *coro);
                break;
            case HSetNoCleanup:
                if (coro)
                    set(cb_done, nullptr, 0, TIRO_OK, *coro);
                break;
            case HSetNull:
                if (coro)
                    set(nullptr, cb_cleanup, 0, TIRO_ERROR_BAD_ARG, *coro);
                break;
            case HSetBad: {
                H i = make_int(vm, 3);
                set(cb_done, cb_cleanup, 0, TIRO_ERROR_BAD_TYPE, i);
                break;
            }
            case HSetReplacing:
                if (coro)
                    set(cb_done, cb_cleanup, 1, TIRO_OK, *coro);
                break;
            case HSetStarting:
                if (coro)
                    set(cb_done, cb_cleanup, 2, TIRO_OK, *coro);
                break;
            case HRun: {
                MC_CHECK(tiro_vm_has_ready(vm) == ready, "has_ready");
                tiro_vm_run_ready(vm, Err());
                MC_CHECK(!tiro_vm_has_ready(vm), "has_ready after run");
                if (ready) {
                    ready = false;
                    if (state == Waiting)
                        finished();
                    else if (f == "later")
                        state = Waiting;
                    else if (f == "forever")
                        state = WaitingForever;
                    else
                        finished();
                }
                break;
            }
            case HDeliver:
                if (vm.pending()) {
                    MC_CHECK(vm.deliver().ok(), "delivery failed");
                    ready = true;
                }
                break;
            case HCollect:
                gc::collect(vm.get());
                break;
            case HFree:
                coro.reset();
                break;
            }
            if (active && state != Done)
                MC_CHECK(active->called == 0, "callback called before completion");
            if (active && state == Done && op != HRun)
                MC_CHECK(active->called == called_before, "callback called again");
            for (auto& c : h.cbs) {
                MC_CHECK(c->cleaned <= 1 && c->called <= 1, "callback called {} times, cleanup {} times", c->called, c->cleaned);
                if (c.get() != active)
                    MC_CHECK(c->called == 0, "a replaced callback was called");
            }
            MC_CHECK(h.errors.empty(), "{}", h.errors[0]);
            R.states(1);
        }
        if (state != Done && coro && active)
            MC_CHECK(active->cleaned == 0, "cleanup of a live coroutine");
        if (coro) {
            MC_CHECK(tiro_coroutine_completed(vm, *coro) == (state == Done), "completed");
            MC_CHECK(tiro_coroutine_started(vm, *coro) == (state != New), "started");
        }
        R.outcome(fmt::format("{} {} {}", function, int(state), h.cbs.size()));
        R.nontrivial(h.cbs.size() > 0);
        h.last_called = active ? active->called : 0;
        for (auto& c : h.cbs)
            c->result_kind = c->called;
    }
    // After the virtual machine is gone
    for (auto& c : h.cbs) {
        MC_CHECK(c->called == c->result_kind, "callback called during shutdown");
        MC_CHECK(c->cleaned == (c->has_cleanup ? 1 : 0), "cleanup called {} times in total", c->cleaned);
    }
    R.traces(1);
    R.evaluations(1);
}

void callbacks(size_t max) {
    for (const char* f : {"quick", "panics", "later", "forever"})
        for (size_t n = 1; n <= max; ++n)
            all_sequences(HOps, n, [&](const std::vector<int>& ops) {
                if (std::count(ops.begin(), ops.end(), int(HFree)) > 1)
                    return;
                if (!R.claim())
                    return;
                std::string key = std::string("callbacks ") + f;
                for (int o : ops)
                    key += std::string(" ") + host_names[o];
                R.exec(key, [&] { history(f, ops); });
            });
}

} // namespace

void mc::enumerate() {
    const std::vector<int> all = {Dispatch, Yield, Wait, Token, Async, Launch, Panic, CatchYield, NativeYield, DeferYield, LoopYield, Res0, Res1};
    const std::vector<int> core = {Dispatch, Yield, Async, Res0, Res1};
    const std::vector<int> core3 = {Dispatch, Yield, Async, Res0, Res1, Res2};
    const std::vector<int> tokens = {Dispatch, Wait, Token, Async, Res0};
    const bool t = R.thorough;
    pairs(scripts(all, t ? 3 : 2), scripts(all, 2));
    pairs(scripts(core, t ? 4 : 3), scripts(core, t ? 4 : 3));
    pairs(scripts(tokens, t ? 4 : 3), scripts({Res0, Dispatch, Async}, 3));
    triples(scripts(core3, 2), scripts(core3, t ? 2 : 1), scripts(core3, 2));
    if (t)
        triples(scripts({Dispatch, Yield, Res1, Res2}, 3), scripts({Dispatch, Yield, Res0, Res2}, 2), scripts({Yield, Res0, Res1}, 3));
    callbacks(t ? 5 : 4);
}
