#include "common/mc.hpp"

#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {
struct StopEnumeration {};

Runner R;

namespace {

constexpr size_t key_max = 1 << 15;
constexpr size_t note_max = 1 << 16;
constexpr int max_workers = 64;

struct Slot {
    std::atomic<uint64_t> beat;
    std::atomic<uint64_t> current; // index of the executing case, 1 based
    std::atomic<uint64_t> chunk_end;
    std::atomic<uint32_t> done;
    std::atomic<uint32_t> in_case;
    std::atomic<uint32_t> batch; // executing a batch
    std::atomic<uint32_t> sub;   // 1 based item in the batch, 0: before the first item
    std::atomic<uint32_t> key_len;
    std::atomic<uint32_t> note_len;
    std::atomic<uint32_t> bkey_len; // first item of the current batch
    char bkey[key_max];
    char key[key_max];
    char note[note_max];
};

struct Shared {
    std::atomic<uint64_t> next_chunk;
    std::atomic<uint64_t> cases;
    std::atomic<uint64_t> states, transitions, traces, evaluations, nontrivial;
    std::atomic<uint64_t> failures;
    std::atomic<uint32_t> stop;
    Slot slots[max_workers];
};

Shared* shm = nullptr;
Slot* me = nullptr;
int my_id = -1;

enum Mode { Explore, Replay } mode = Explore;
std::string g_replay_key;
bool replay_found = false;
std::string replay_detail;
bool replay_failed = false;

uint64_t idx = 0;
uint64_t chunk_size = 64;
uint64_t chunk_begin_ = 0, chunk_end_ = 0;
uint64_t resume_at = 0; // first index to execute after a crash restart
int64_t resume_sub = -1; // continue inside the batch `resume_at`, one by one, from this item
const std::function<std::string(size_t)>* batch_key = nullptr;
uint64_t max_failures = 24;

std::string run_dir;
std::unordered_set<std::string> known;
std::unordered_set<uint64_t> outcomes;
std::map<std::string, uint64_t> covs;
std::vector<std::string> samples;
std::vector<std::string> caps;
FILE* fail_file = nullptr;
bool stopping = false;

uint64_t h64(std::string_view s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) {
        h ^= c;
        h *= 1099511628211ull;
    }
    return h ^ (h >> 31);
}

std::string json(std::string_view s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if (c < 0x20 || c >= 0x7f) {
            r += fmt::format("\\u{:04x}", unsigned(c)); // bytes, latin-1 style
        } else {
            r += c;
        }
    }
    return r + "\"";
}

double now() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

void record_failure(std::string_view key, std::string_view detail, std::string_view note, std::string_view batch = {}) {
    if (!fail_file)
        return;
    std::string line = "{\"key\":" + json(key) + ",\"detail\":" + json(detail.substr(0, 20000)) + ",\"note\":"
                       + json(note.substr(0, 20000)) + ",\"batch\":" + json(batch) + "}\n";
    fwrite(line.data(), 1, line.size(), fail_file);
    fflush(fail_file);
    if (!known.count(std::string(key)))
        shm->failures.fetch_add(1);
}

std::string slurp(const std::string& p, size_t tail) {
    std::string r;
    FILE* f = fopen(p.c_str(), "rb");
    if (!f)
        return r;
    fseek(f, 0, SEEK_END);
    long n = ftell(f);
    long from = n > long(tail) ? n - long(tail) : 0;
    fseek(f, from, SEEK_SET);
    r.resize(n - from);
    r.resize(fread(r.data(), 1, r.size(), f));
    fclose(f);
    return r;
}

void write_worker_report() {
    std::string p = fmt::format("{}/report-{}-{}.json", run_dir, my_id, getpid());
    FILE* f = fopen(p.c_str(), "wb");
    fprintf(f, "{\"cov\":{");
    bool first = true;
    for (auto& [k, v] : covs) {
        fprintf(f, "%s%s:%llu", first ? "" : ",", json(k).c_str(), (unsigned long long) v);
        first = false;
    }
    fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < samples.size(); ++i)
        fprintf(f, "%s%s", i ? "," : "", json(samples[i]).c_str());
    fprintf(f, "],\"caps\":[");
    for (size_t i = 0; i < caps.size(); ++i)
        fprintf(f, "%s%s", i ? "," : "", json(caps[i]).c_str());
    fprintf(f, "]}\n");
    fclose(f);
    p = fmt::format("{}/outcomes-{}-{}.bin", run_dir, my_id, getpid());
    f = fopen(p.c_str(), "wb");
    for (uint64_t o : outcomes)
        fwrite(&o, 8, 1, f);
    fclose(f);
}

[[noreturn]] void worker_main(int id, uint64_t resume, int64_t rsub) {
    my_id = id;
    me = &shm->slots[id];
    resume_at = resume;
    resume_sub = rsub;
    me->batch = 0;
    me->sub = 0;
    me->in_case = 0;
    std::string err = fmt::format("{}/stderr-{}", run_dir, id);
    int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 2);
    dup2(fd, 1);
    fail_file = fopen(fmt::format("{}/fail-{}.jsonl", run_dir, id).c_str(), "ab");
    if (resume) {
        // Continue inside the chunk in which the previous incarnation of this worker died.
        chunk_end_ = me->chunk_end;
        chunk_begin_ = resume;
    }
    try {
        enumerate();
    } catch (StopEnumeration&) {
    }
    write_worker_report();
    me->done = 1;
    fflush(nullptr);
    _exit(0);
}

} // namespace

std::string quote(std::string_view s) {
    return json(s);
}

bool Runner::claim() {
    ++idx;
    if (mode == Replay)
        return true;
    if (idx < chunk_begin_)
        return false;
    if (idx >= chunk_end_) {
        if (shm->stop)
            throw StopEnumeration{};
        while (true) {
            uint64_t c = shm->next_chunk.fetch_add(1);
            chunk_begin_ = c * chunk_size + 1;
            chunk_end_ = chunk_begin_ + chunk_size;
            if (chunk_end_ > idx)
                break;
        }
        me->chunk_end = chunk_end_;
    }
    me->beat.fetch_add(1, std::memory_order_relaxed);
    return idx >= chunk_begin_ && idx < chunk_end_;
}

void Runner::note(std::string_view text) {
    if (mode == Replay)
        return;
    size_t n = std::min(text.size(), note_max);
    memcpy(me->note, text.data(), n);
    me->note_len = n;
}

void Runner::exec_impl(std::string_view key, const std::function<void()>& f) {
    if (mode == Replay) {
        if (key != g_replay_key && g_replay_key != "BATCH " + std::string(key))
            return;
        replay_found = true;
    } else {
        me->key_len = std::min(key.size(), key_max);
        memcpy(me->key, key.data(), me->key_len);
        me->note_len = 0;
        me->current = idx;
        me->in_case = 1;
    }
    std::string problem;
    bool bad = false;
    static const char* slow = getenv("MC_SLOW"); // seconds
    const double t_start = slow ? now() : 0;
    try {
        f();
        if (slow && now() - t_start > atof(slow))
            fprintf(stderr, "SLOW %.2f %.*s\n", now() - t_start, int(std::min<size_t>(key.size(), 200)), key.data());
    } catch (const Failure& e) {
        problem = e.what;
        bad = true;
    } catch (const StopEnumeration&) {
        throw;
    } catch (const std::exception& e) {
        problem = fmt::format("uncaught exception: {}", e.what());
        bad = true;
    } catch (...) {
        problem = "uncaught exception";
        bad = true;
    }
    if (mode == Replay) {
        if (bad) {
            replay_failed = true;
            replay_detail = problem;
        }
        throw StopEnumeration{};
    }
    me->in_case = 0;
    shm->cases.fetch_add(1, std::memory_order_relaxed);
    if (bad) {
        record_failure(key, problem, std::string_view(me->note, me->note_len));
        if (shm->failures >= max_failures) {
            shm->stop = 1;
            throw StopEnumeration{};
        }
    }
}

static void set_key(const std::string& key) {
    me->key_len = std::min(key.size(), key_max);
    memcpy(me->key, key.data(), me->key_len);
    me->note_len = 0;
}

void Runner::exec_batch(
    size_t n, const std::function<std::string(size_t)>& key, const std::function<void(size_t, size_t)>& body) {
    if (mode == Replay) {
        if (g_replay_key == "BATCH " + key(0)) {
            exec_impl(key(0), [&] { body(0, n); });
        } else {
            for (size_t i = 0; i < n; ++i)
                if (key(i) == g_replay_key)
                    exec_impl(g_replay_key, [&] { body(i, i + 1); });
        }
        return;
    }
    size_t start = 0;
    bool single = false;
    if (resume_sub >= 0 && idx == resume_at) {
        single = true;
        start = size_t(resume_sub);
        resume_sub = -1;
    }
    batch_key = &key;
    me->current = idx;
    me->batch = 1;
    if (!single) {
        me->sub = 0;
        set_key("BATCH " + key(0));
        me->bkey_len = std::min(key(0).size(), key_max);
        memcpy(me->bkey, key(0).data(), me->bkey_len);
        me->in_case = 1;
        try {
            body(0, n);
            start = n;
        } catch (const StopEnumeration&) {
            throw;
        } catch (const Failure&) {
        } catch (const std::exception&) {
        }
    }
    for (size_t i = start; i < n; ++i) {
        sub(i);
        me->in_case = 1;
        std::string problem;
        bool bad = true;
        try {
            body(i, i + 1);
            bad = false;
        } catch (const Failure& e) {
            problem = e.what;
        } catch (const StopEnumeration&) {
            throw;
        } catch (const std::exception& e) {
            problem = fmt::format("uncaught exception: {}", e.what());
        }
        if (bad)
            sub_fail(i, problem);
    }
    me->in_case = 0;
    me->batch = 0;
    shm->cases.fetch_add(n, std::memory_order_relaxed);
    if (shm->failures >= max_failures) {
        shm->stop = 1;
        throw StopEnumeration{};
    }
}

void Runner::sub(size_t i) {
    if (mode == Replay)
        return;
    set_key((*batch_key)(i));
    me->sub = i + 1;
    heartbeat();
}

void Runner::sub_fail(size_t i, std::string_view detail) {
    if (mode == Replay) {
        replay_failed = true;
        replay_detail = std::string(detail);
        return;
    }
    record_failure((*batch_key)(i), detail, std::string_view(me->note, me->note_len),
        std::string_view(me->bkey, me->bkey_len));
}

bool Runner::replaying() const {
    return mode == Replay;
}
const std::string& Runner::replay_key() const {
    return g_replay_key;
}

void Runner::heartbeat() {
    if (me)
        me->beat.fetch_add(1, std::memory_order_relaxed);
}

static void add(std::atomic<uint64_t> Shared::*m, uint64_t n) {
    if (shm)
        (shm->*m).fetch_add(n, std::memory_order_relaxed);
}
void Runner::states(uint64_t n) {
    add(&Shared::states, n);
}
void Runner::transitions(uint64_t n) {
    add(&Shared::transitions, n);
}
void Runner::traces(uint64_t n) {
    add(&Shared::traces, n);
}
void Runner::evaluations(uint64_t n) {
    add(&Shared::evaluations, n);
}
void Runner::nontrivial(uint64_t n) {
    add(&Shared::nontrivial, n);
}
void Runner::outcome(std::string_view s) {
    if (outcomes.size() < 3000000)
        outcomes.insert(h64(s));
}
void Runner::cov(const std::string& name, uint64_t n) {
    covs[name] += n;
}
bool Runner::want_sample() const {
    return samples.size() < 2 || (samples.size() < 5 && idx % 977 == 0);
}
void Runner::sample(std::string_view text) {
    if (want_sample())
        samples.emplace_back(text.substr(0, 3000));
}
void Runner::capped(std::string_view what) {
    for (auto& c : caps)
        if (c == what)
            return;
    caps.emplace_back(what);
}

static int explore(int workers, double budget, double hang_limit) {
    std::vector<pid_t> pids(workers, -1);
    std::vector<uint64_t> last_beat(workers, 0);
    std::vector<double> last_change(workers, now());
    std::vector<int> restarts(workers, 0);
    const double t0 = now();
    bool timed_out = false;

    auto spawn = [&](int i, uint64_t resume, int64_t rsub = -1) {
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            worker_main(i, resume, rsub);
        }
        pids[i] = p;
        last_change[i] = now();
    };
    for (int i = 0; i < workers; ++i)
        spawn(i, 0);

    int alive = workers;
    FILE* pf = fopen(fmt::format("{}/fail-parent.jsonl", run_dir).c_str(), "ab");
    fail_file = pf;
    bool lost = false;
    while (alive > 0) {
        int status = 0;
        pid_t p = waitpid(-1, &status, WNOHANG);
        if (p > 0) {
            int i = -1;
            for (int k = 0; k < workers; ++k)
                if (pids[k] == p)
                    i = k;
            if (i < 0)
                continue;
            pids[i] = -1;
            Slot& s = shm->slots[i];
            if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && s.done) {
                --alive;
                continue;
            }
            // The worker died.
            std::string how = WIFSIGNALED(status) ? fmt::format("killed by signal {} ({})", WTERMSIG(status),
                                  strsignal(WTERMSIG(status)))
                                                  : fmt::format("exit status {}", WEXITSTATUS(status));
            std::string err = slurp(fmt::format("{}/stderr-{}", run_dir, i), 6000);
            std::string key(s.key, s.key_len);
            std::string note(s.note, s.note_len);
            const bool batch_head = s.in_case && s.batch && s.sub == 0;
            if (batch_head) {
                // retried item by item
            } else if (s.in_case) {
                record_failure(key, "process died: " + how + "\n" + err, note,
                    s.batch ? std::string_view(s.bkey, s.bkey_len) : std::string_view());
            } else {
                record_failure("", "worker died outside of a case: " + how + "\n" + err, "");
            }
            bool go_on = s.in_case && ++restarts[i] < 40 && shm->failures < max_failures && !shm->stop;
            if (!go_on) {
                lost = true;
                if (!shm->stop)
                    shm->stop = 1;
                --alive;
                continue;
            }
            if (s.batch)
                spawn(i, s.current, s.sub);
            else
                spawn(i, s.current + 1);
            continue;
        }
        double t = now();
        for (int i = 0; i < workers; ++i) {
            if (pids[i] < 0)
                continue;
            uint64_t b = shm->slots[i].beat + shm->slots[i].current;
            if (b != last_beat[i]) {
                last_beat[i] = b;
                last_change[i] = t;
            } else if (t - last_change[i] > hang_limit && shm->slots[i].in_case) {
                fprintf(stderr, "worker %d makes no progress, ending it\n", i);
                FILE* f = fopen(fmt::format("{}/stderr-{}", run_dir, i).c_str(), "ab");
                if (f) {
                    fprintf(f, "\nHANG: no progress within %.0f s\n", hang_limit);
                    fclose(f);
                }
                kill(pids[i], SIGKILL);
                last_change[i] = t;
            }
        }
        if (t - t0 > budget && !shm->stop) {
            timed_out = true;
            shm->stop = 1;
        }
        if (t - t0 > budget + 2 * hang_limit) {
            for (int i = 0; i < workers; ++i)
                if (pids[i] > 0)
                    kill(pids[i], SIGKILL);
        }
        usleep(5000);
    }
    fclose(pf);

    FILE* f = fopen(fmt::format("{}/summary.json", run_dir).c_str(), "wb");
    fprintf(f,
        "{\"cases\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"evaluations\":%llu,"
        "\"nontrivial\":%llu,\"timed_out\":%s,\"stopped\":%s,\"wall\":%.2f}\n",
        (unsigned long long) shm->cases.load(), (unsigned long long) shm->states.load(),
        (unsigned long long) shm->transitions.load(), (unsigned long long) shm->traces.load(),
        (unsigned long long) shm->evaluations.load(), (unsigned long long) shm->nontrivial.load(),
        timed_out ? "true" : "false", (shm->stop || lost) ? "true" : "false", now() - t0);
    fclose(f);
    return 0;
}

static int main_impl(int argc, char** argv) {
    int workers = 8;
    double budget = 600;
    double hang = 60;
    std::string known_file;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(argv[++i]); };
        if (a == "--thorough")
            R.thorough = true;
        else if (a == "--workers")
            workers = std::min(max_workers, std::stoi(next()));
        else if (a == "--budget")
            budget = std::stod(next());
        else if (a == "--hang")
            hang = std::stod(next());
        else if (a == "--chunk")
            chunk_size = std::stoull(next());
        else if (a == "--dir")
            run_dir = next();
        else if (a == "--seed")
            R.seed = std::stoull(next());
        else if (a == "--max-failures")
            max_failures = std::stoull(next());
        else if (a == "--known")
            known_file = next();
        else if (a == "--replay") {
            mode = Replay;
            g_replay_key = slurp(next(), 1 << 24);
        } else {
            fprintf(stderr, "unknown option %s\n", a.c_str());
            return 2;
        }
    }
    if (!known_file.empty()) {
        // length-prefixed keys
        std::string all = slurp(known_file, 1 << 28);
        size_t p = 0;
        while (p < all.size()) {
            size_t e = all.find('\n', p);
            size_t n = std::stoull(all.substr(p, e - p));
            known.insert(all.substr(e + 1, n));
            p = e + 1 + n + 1;
        }
    }
    signal(SIGPIPE, SIG_IGN);
    rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
#ifndef MC_SAN
    rlimit as{rlim_t(3) << 30, rlim_t(3) << 30};
    setrlimit(RLIMIT_AS, &as);
#endif
    if (mode == Replay) {
        try {
            enumerate();
        } catch (StopEnumeration&) {
        }
        if (!replay_found) {
            printf("REPLAY: case not part of this enumeration\n");
            return 3;
        }
        if (replay_failed) {
            printf("REPLAY: violated\n%s\n", replay_detail.c_str());
            return 1;
        }
        printf("REPLAY: held\n");
        return 0;
    }
    shm = static_cast<Shared*>(
        mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    new (shm) Shared();
    return explore(workers, budget, hang);
}

} // namespace mc

int main(int argc, char** argv) {
    return mc::main_impl(argc, argv);
}
