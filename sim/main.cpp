// Driver: seeded search in forked workers, confirmation, minimisation, replay, evidence.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <sstream>
#include "shared.h"

static double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + (double)t.tv_nsec / 1e9;
}
static const Prop* find_prop(const Str& id) {
    for (auto& p : props())
        if (id == p.id) return &p;
    return nullptr;
}
static uint64_t seed_of(const Prop& p, uint64_t base, uint64_t idx) {
    uint64_t h = hash_str(p.id, strlen(p.id));
    return hash_u64(idx, hash_u64(base, h));
}
static void make_choices(Choices& c, uint64_t seed) {
    for (int i = 0; i < NSTREAMS; i++) {
        c.st[i] = Stream();
        c.st[i].rng = Rng(seed * 31 + (uint64_t)i * 0x51ED27);
    }
}
static void run_once(const Prop& p, Choices& c) {
    g_prop_id = p.id;
    begin_run(c);
    p.run(c);
    COUNT(K_STEPS, g_steps);
}

// ------------------------------------------------------------------ one trial in a child
struct Trial {
    std::vector<uint32_t> s[NSTREAMS];
};
struct TrialResult {
    bool violated = false, error = false;
    Str kind, msg;
    uint64_t loghash = 0;
    Trial used;
    std::vector<uint32_t> marks[NSTREAMS];
};
static void quiet() {  // sanitizer reports of workers and trials
    int fd = open("/dev/null", O_WRONLY);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
}
static Report* g_trial_report;
static TrialResult run_trial(const Prop& p, const Trial* t, uint64_t seed, uint64_t seed_index, bool verbose, unsigned limit_s) {
    g_trial_report->valid = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        if (!verbose) quiet();
        g_report = g_trial_report;
        g_verbose = verbose;
        g_seed_index = seed_index;
        stuck_handler();
        stuck_limit(limit_s);
        static uint64_t dummy[K_N];
        g_count = dummy;
        Choices c;
        make_choices(c, seed);
        if (t)
            for (int i = 0; i < NSTREAMS; i++) {
                c.st[i].replay = true;
                c.st[i].v = t->s[i];
            }
        run_once(p, c);
        g_trial_report->loghash = g_loghash;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    TrialResult r;
    r.loghash = g_trial_report->loghash;
    if (g_trial_report->valid && !WIFSIGNALED(st)) {
        r.violated = true;
        r.kind = g_trial_report->kind;
        r.msg = g_trial_report->msg;
        uint32_t o = 0;
        for (int i = 0; i < NSTREAMS; i++) {
            r.used.s[i].assign(g_trial_report->data + o, g_trial_report->data + o + g_trial_report->n[i]);
            o += g_trial_report->n[i];
            r.marks[i].assign(g_trial_report->marks[i], g_trial_report->marks[i] + g_trial_report->nm[i]);
        }
    } else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        r.error = true;
        r.msg = WIFSIGNALED(st) ? sfmt("killed by signal %d", WTERMSIG(st)) : sfmt("exit status %d", WEXITSTATUS(st));
    }
    return r;
}

static TrialResult minimise(const Prop& p, TrialResult best, double deadline, uint32_t& trials) {
    auto attempt = [&](const Trial& t) {
        if (now() > deadline) return false;
        trials++;
        TrialResult r = run_trial(p, &t, 1, 0, false, 10);
        if (!r.violated || r.kind != best.kind) return false;
        // the used prefix is all that matters
        size_t a = 0, b = 0;
        for (int i = 0; i < NSTREAMS; i++) { a += r.used.s[i].size(); b += best.used.s[i].size(); }
        uint64_t sa = 0, sb = 0;
        for (int i = 0; i < NSTREAMS; i++) {
            for (auto x : r.used.s[i]) sa += x;
            for (auto x : best.used.s[i]) sb += x;
        }
        if (a > b || (a == b && sa >= sb)) return false;
        best = r;
        return true;
    };
    bool progress = true;
    while (progress && now() < deadline) {
        progress = false;
        // empty fault and schedule streams
        for (int i = 1; i < NSTREAMS; i++)
            if (!best.used.s[i].empty()) {
                Trial t = best.used;
                t.s[i].clear();
                if (attempt(t)) progress = true;
            }
        // drop whole operations, from the end
        for (int i = 0; i < NSTREAMS; i++) {
            for (size_t width = 8; width >= 1; width /= 2) {
                for (size_t k = best.marks[i].size(); k-- > 0 && now() < deadline;) {
                    if (k >= best.marks[i].size()) continue;
                    uint32_t a = best.marks[i][k];
                    uint32_t b = k + width < best.marks[i].size() ? best.marks[i][k + width] : (uint32_t)best.used.s[i].size();
                    if (a >= best.used.s[i].size() || b <= a) continue;
                    Trial t = best.used;
                    t.s[i].erase(t.s[i].begin() + a, t.s[i].begin() + std::min<size_t>(b, t.s[i].size()));
                    if (attempt(t)) progress = true;
                }
            }
            // drop chunks
            for (size_t w = std::max<size_t>(best.used.s[i].size() / 4, 1); w >= 1; w /= 2) {
                for (size_t a = best.used.s[i].size(); a > 0 && now() < deadline;) {
                    size_t lo = a > w ? a - w : 0;
                    if (a <= best.used.s[i].size()) {
                        Trial t = best.used;
                        t.s[i].erase(t.s[i].begin() + lo, t.s[i].begin() + a);
                        if (attempt(t)) progress = true;
                    }
                    a = lo;
                }
                if (w == 1) break;
            }
            // smaller numbers
            for (size_t k = 0; k < best.used.s[i].size() && now() < deadline; k++) {
                uint32_t x = best.used.s[i][k];
                if (!x) continue;
                for (uint32_t y : {0u, 1u, x / 2, x - 1}) {
                    if (y >= x || k >= best.used.s[i].size()) continue;
                    Trial t = best.used;
                    t.s[i][k] = y;
                    if (attempt(t)) { progress = true; break; }
                }
            }
        }
    }
    return best;
}

static void write_replay(const Str& path, const Prop& p, const TrialResult& r, uint64_t base, uint64_t idx, const Str& orig, const Str& repo) {
    std::ofstream o(path);
    o << "argtable3-sim-replay 1\nproperty " << p.id << "\nkind " << r.kind << "\nmessage " << r.msg << "\nbase_seed " << base << "\nseed_index " << idx
      << "\nhash " << r.loghash << "\nsource " << repo << "\noriginal " << orig << "\n";
    const char* names[] = {"program", "faults", "schedule", "program1", "program2", "program3"};
    for (int i = 0; i < NSTREAMS; i++) {
        o << "stream " << names[i] << " " << r.used.s[i].size();
        for (auto x : r.used.s[i]) o << " " << x;
        o << "\n";
    }
}
static bool read_replay(const Str& path, Str& prop, Str& kind, uint64_t& hash, Trial& t) {
    std::ifstream f(path);
    Str line;
    if (!std::getline(f, line) || line.find("argtable3-sim-replay") != 0) return false;
    int si = 0;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        Str k;
        is >> k;
        if (k == "property") is >> prop;
        else if (k == "kind") { std::getline(is, kind); if (!kind.empty()) kind.erase(0, 1); }
        else if (k == "hash") is >> hash;
        else if (k == "stream" && si < NSTREAMS) {
            Str n;
            size_t cnt;
            is >> n >> cnt;
            t.s[si].resize(cnt);
            for (auto& x : t.s[si]) is >> x;
            si++;
        } else if (k == "trace") break;
    }
    return si == NSTREAMS;
}

static Str jstr(const Str& s) {
    Str r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32) r += sfmt("\\u%04x", c);
        else if (c > 126) r += sfmt("\\u%04x", c);
        else r += (char)c;
    }
    return r + "\"";
}

static int cmd_replay(const Str& file) {
    Str prop, kind;
    uint64_t hash = 0;
    Trial t;
    if (!read_replay(file, prop, kind, hash, t)) { fprintf(stderr, "not a replay file: %s\n", file.c_str()); return 2; }
    const Prop* p = find_prop(prop);
    if (!p) return 2;
    TrialResult r = run_trial(*p, &t, 1, 0, true, 60);
    if (r.violated) {
        printf("%s: %s\n", r.kind.c_str(), r.msg.c_str());
        printf("hash %llu (%s)\n", (unsigned long long)r.loghash, r.loghash == hash ? "as recorded" : "DIFFERENT from the recording");
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), file.c_str());
        return 1;
    }
    if (r.error) { printf("error: %s\n", r.msg.c_str()); return 2; }
    printf("no violation in this tree\n");
    return 0;
}

// The log of one seed, written out.
static Str sample_log(const Prop& p, uint64_t base, uint64_t idx) {
    FILE* f = tmpfile();
    if (!f) return "";
    fflush(nullptr);
    int save = dup(2);
    dup2(fileno(f), 2);
    run_trial(p, nullptr, seed_of(p, base, idx), idx, true, 60);
    fflush(nullptr);
    dup2(save, 2);
    close(save);
    Str r = sfmt("seed %llu index %llu:", (unsigned long long)base, (unsigned long long)idx);
    rewind(f);
    char line[600];
    int n = 0;
    while (n < 40 && fgets(line, sizeof line, f)) {
        Str l = line;
        while (!l.empty() && l.back() == '\n') l.pop_back();
        if (l.find("ASan doesn't fully support makecontext") != Str::npos) continue;
        if (l.size() > 260) l = l.substr(0, 260) + "...";
        r += "\n" + l;
        n++;
    }
    fclose(f);
    return r;
}

static void load_dict(const char* path) {
    std::ifstream f(path);
    Str line;
    while (std::getline(f, line)) {
        if (line.size() > 2 && line[0] == 'n') g_dict_nums.push_back((uint32_t)strtoul(line.c_str() + 2, nullptr, 10));
        else if (line.size() > 2 && line[0] == 's') g_dict_strs.push_back(line.substr(2));
    }
    if (g_dict_nums.empty()) g_dict_nums.push_back(200);
    if (g_dict_strs.empty()) g_dict_strs.push_back("help");
}

int main(int argc, char** argv) {
    // the same addresses in every process
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        setenv("SIM_REEXEC", "1", 1);
        if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::map<Str, Str> o;
    Str cmd = argc > 1 ? argv[1] : "";
    std::vector<Str> pos;
    for (int i = 2; i < argc; i++) {
        Str a = argv[i];
        if (a.rfind("--", 0) == 0) {
            size_t e = a.find('=');
            o[a.substr(2, e == Str::npos ? Str::npos : e - 2)] = e == Str::npos ? "1" : a.substr(e + 1);
        } else pos.push_back(a);
    }
    if (cmd == "list") {
        for (auto& p : props()) printf("%s\n", p.id);
        return 0;
    }
    Str dir = o.count("lib") ? o["lib"] : ".";
    load_dict((dir + "/dict.txt").c_str());
    seams_init();
    const Prop* run_prop = nullptr;
    if (cmd == "replay" && !pos.empty()) {
        Str pn, k;
        uint64_t hs = 0;
        Trial t;
        if (read_replay(pos[0], pn, k, hs, t)) run_prop = find_prop(pn);
    } else if (!pos.empty()) run_prop = find_prop(pos[0]);
    LA.load((dir + "/" + (run_prop ? run_prop->lib : "libA.so")).c_str(), 0x200000000000ull, (size_t)1 << 30);
    LB.load((dir + "/libB.so").c_str(), 0x210000000000ull, (size_t)1 << 30);
    IN.init(0x220000000000ull, (size_t)256 << 20);
    g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_trial_report = (Report*)mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_count = g_sh->counters[0];

    if (cmd == "replay") return cmd_replay(pos.at(0));
    if (pos.empty()) { fprintf(stderr, "usage: sim check|run|replay ...\n"); return 2; }
    const Prop* p = find_prop(pos[0]);
    if (!p) { fprintf(stderr, "unknown property %s\n", pos[0].c_str()); return 2; }
    uint64_t base = o.count("seed") ? strtoull(o["seed"].c_str(), nullptr, 10) : 1;
    if (cmd == "run") {  // one seed, verbose
        uint64_t idx = strtoull(o["index"].c_str(), nullptr, 10);
        TrialResult r = run_trial(*p, nullptr, seed_of(*p, base, idx), idx, !o.count("quiet"), 60);
        printf("hash %llu %s %s %s\n", (unsigned long long)r.loghash, r.violated ? "VIOLATED" : r.error ? "ERROR" : "ok", r.kind.c_str(), r.msg.c_str());
        return r.violated ? 1 : r.error ? 2 : 0;
    }
    if (cmd == "known") {
        print_known(p->id);
        return 0;
    }
    // ---- check
    bool thorough = o["tier"] == "thorough";
    uint64_t nruns = thorough ? p->thorough_runs : p->quick_runs;
    if (o.count("runs")) nruns = strtoull(o["runs"].c_str(), nullptr, 10);
    double cap = thorough ? 780 : 150;
    if (o.count("cap")) cap = atof(o["cap"].c_str());
    unsigned nw = o.count("workers") ? (unsigned)atoi(o["workers"].c_str()) : 8;
    if (nw > Shared::NW) nw = Shared::NW;
    Str replaydir = o.count("replays") ? o["replays"] : "replays";
    double t0 = now();
    std::vector<Report*> reps(nw);
    for (auto& r : reps) r = (Report*)mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    bool dump = o.count("hashes");
    int first = -1;
    Str err;
    std::vector<uint64_t> from(nw);
    for (unsigned w = 0; w < nw; w++) from[w] = w;
    // A violation that does not repeat itself is an error of the check (or of the memory the code reads); the search
    // goes on past it, and the error is reported unless a repeatable violation is found.
    TrialResult conf;
    Str unrep;
    uint32_t nunrep = 0;
search:
    first = -1;
    g_sh->stop = 0;
    for (auto r : reps) r->valid = 0;
    std::vector<pid_t> pids(nw);
    for (unsigned w = 0; w < nw; w++) {
        fflush(nullptr);
        pids[w] = fork();
        if (pids[w] == 0) {
            quiet();
            g_report = reps[w];
            g_count = g_sh->counters[w];
            stuck_handler();
            for (uint64_t i = from[w]; i < nruns; i += nw) {
                if (g_sh->stop) break;
                if (now() - t0 > cap) break;
                g_seed_index = i;
                g_sh->slot[w].seed_index = i;
                stuck_limit(30);
                Choices c;
                make_choices(c, seed_of(*p, base, i));
                run_once(*p, c);
                uint64_t h = g_loghash, sig = g_sig;
                COUNT(K_RUNS);
                __atomic_add_fetch(&g_sh->done_runs, 1, __ATOMIC_RELAXED);
                if (g_steps > g_sh->max_steps) g_sh->max_steps = g_steps;
                if (dump) { Str l = sfmt("%llu %llu\n", (unsigned long long)i, (unsigned long long)h); if (write(1, l.data(), l.size())) {} }
                if (sig != 1469598103934665603ull) {
                    uint64_t k = sig | 1;
                    bool ok = false;
                    for (uint32_t j = 0; j < 64 && !ok; j++) {
                        uint64_t* s = &g_sh->sig[(k + j) % Shared::NSIGS];
                        uint64_t z = 0;
                        if (*s == k) ok = true;
                        else if (*s == 0 && __atomic_compare_exchange_n(s, &z, k, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                            __atomic_add_fetch(&g_sh->nsig, 1, __ATOMIC_RELAXED);
                            ok = true;
                        }
                    }
                    if (!ok) __atomic_add_fetch(&g_sh->nsig_overflow, 1, __ATOMIC_RELAXED);
                }
                if (i % 61 == 0) {  // same seed again, same execution
                    Choices c2;
                    make_choices(c2, seed_of(*p, base, i));
                    run_once(*p, c2);
                    COUNT(K_DETCHECK);
                    if (g_loghash != h) { printf("seed index %llu does not repeat itself\n", (unsigned long long)i); fflush(stdout); __atomic_add_fetch(&g_sh->nondet, 1, __ATOMIC_RELAXED); }
                }
            }
            if (dump) fflush(stdout);
            _exit(0);
        }
    }
    for (unsigned left = nw; left > 0;) {
        int st;
        pid_t q = waitpid(-1, &st, 0);
        if (q < 0) { if (errno == EINTR) continue; break; }
        unsigned w = 0;
        while (w < nw && pids[w] != q) w++;
        if (w == nw) continue;
        left--;
        from[w] = g_sh->slot[w].seed_index + nw;
        if (reps[w]->valid) {
            g_sh->stop = 1;
            if (first < 0 || reps[w]->seed_index < reps[first]->seed_index) first = (int)w;
        } else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            err = sfmt("worker died (%s %d) at seed index %llu", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st),
                       (unsigned long long)g_sh->slot[w].seed_index);
        }
    }
    if (first >= 0) {
        uint64_t idx = reps[first]->seed_index, seed = seed_of(*p, base, idx);
        printf("seed index %llu: %s: %s\n", (unsigned long long)idx, reps[first]->kind, reps[first]->msg);
        TrialResult a = run_trial(*p, nullptr, seed, idx, false, 30);
        conf = run_trial(*p, nullptr, seed, idx, false, 30);
        if (!a.violated || !conf.violated || a.kind != conf.kind || a.loghash != conf.loghash || a.kind != reps[first]->kind) {
            unrep = sfmt("seed index %llu does not reproduce its violation (%s / %s / %s)", (unsigned long long)idx, reps[first]->kind,
                         a.violated ? a.kind.c_str() : a.msg.c_str(), conf.violated ? conf.kind.c_str() : conf.msg.c_str());
            printf("NOTE: %s\n", unrep.c_str());
            if (++nunrep < 12 && now() - t0 < cap) goto search;
            first = -1;
        }
    }
    double t_search = now() - t0;
    int rc = 0;
    Str vio_line, vkind, vmsg;
    if (first >= 0) {
        uint64_t idx = reps[first]->seed_index;
        {
            TrialResult& a = conf;
            Trial full = a.used;
            TrialResult r0 = run_trial(*p, &full, 1, idx, false, 30);
            uint32_t trials = 0;
            TrialResult m = r0.violated && r0.kind == a.kind ? minimise(*p, r0, now() + (thorough ? 90 : 25), trials) : a;
            mkdir(replaydir.c_str(), 0777);
            Str path = replaydir + "/" + p->id + sfmt("-%llu-%llu.replay", (unsigned long long)base, (unsigned long long)idx);
            size_t n0 = 0, n1 = 0;
            for (int i = 0; i < NSTREAMS; i++) { n0 += a.used.s[i].size(); n1 += m.used.s[i].size(); }
            write_replay(path, *p, m, base, idx, sfmt("%zu choices, reduced to %zu in %u trials", n0, n1, trials), o.count("source") ? o["source"] : "");
            // the file itself, in a new process, must show the same violation
            char exe[4096];
            ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1);
            exe[k > 0 ? k : 0] = 0;
            fflush(nullptr);
            Str trace = path + ".trace";
            Str cmdl = Str("'") + exe + "' replay --lib='" + dir + "' '" + path + "' >'" + trace + "' 2>&1";
            auto replays = [&](Str& tx) {
                int st = system(cmdl.c_str());
                std::ifstream tf(trace);
                std::stringstream ts;
                ts << tf.rdbuf();
                tx = ts.str();
                return WIFEXITED(st) && WEXITSTATUS(st) == 1;
            };
            Str tx;
            bool same = replays(tx);
            if (!same || tx.find("DIFFERENT") != Str::npos) {   // then the execution as it was found
                m = a;
                write_replay(path, *p, m, base, idx, sfmt("%zu choices, not reduced", n0), o.count("source") ? o["source"] : "");
                same = replays(tx);
            }
            if (!same) {
                printf("ERROR: replay of %s does not reproduce the violation\n", path.c_str());
                rc = 2;
            } else {
                if (tx.find("DIFFERENT") != Str::npos) printf("NOTE: the replay shows the violation with another trace: the code depends on something outside the simulation\n");
                std::ofstream app(path, std::ios::app);
                app << "trace\n" << tx;
                rc = 1;
                vkind = m.kind;
                vmsg = m.msg;
                printf("%s: %s\n", m.kind.c_str(), m.msg.c_str());
                vio_line = sfmt("VIOLATION property=%s replay=%s", p->id, path.c_str());
            }
            unlink(trace.c_str());
        }
    } else if (!err.empty() || g_sh->nondet || !unrep.empty()) {
        printf("ERROR: %s %s%s\n", err.c_str(), unrep.c_str(), g_sh->nondet ? " (nondeterministic run)" : "");
        rc = 2;
    }
    // ---- evidence
    uint64_t tot[K_N] = {0};
    for (unsigned w = 0; w < nw; w++)
        for (int k = 0; k < K_N; k++) tot[k] += g_sh->counters[w][k];
    uint64_t covn = 0;
    for (auto x : g_sh->cov) covn += x;
    double wall = now() - t0;
    if (o.count("evidence")) {
        std::ofstream e(o["evidence"]);
        e << "{\n \"property\": " << jstr(p->id) << ",\n \"tier\": " << jstr(thorough ? "thorough" : "quick") << ",\n \"seed\": " << base
          << ",\n \"level\": \"exploration\",\n \"wall_s\": " << sfmt("%.2f", wall) << ",\n \"violations\": " << (rc == 1 ? 1 : 0) << ",\n";
        if (rc == 1) e << " \"violation\": {\"kind\": " << jstr(vkind) << ", \"message\": " << jstr(vmsg) << "},\n";
        e << " \"coverage\": {\n  \"evaluations\": " << tot[K_RUNS] << ",\n  \"distinct_nontrivial\": " << g_sh->nsig << ",\n  \"rule\": " << jstr(p->rule) << ",\n";
              e << "  \"samples\": [";
        for (int i = 0, k = 0; i < 40 && k < 3; i++) {
            Str l = sample_log(*p, base, (uint64_t)i);
            if (l.find('\n') == Str::npos) continue;
            e << (k++ ? ", " : "") << jstr(l);
        }
        e << "],\n  \"runs_per_hour\": " << (uint64_t)((double)tot[K_RUNS] / std::max(t_search, 0.01) * 3600) << ",\n  \"seeds_per_hour\": "
          << (uint64_t)((double)tot[K_RUNS] / std::max(t_search, 0.01) * 3600) << ",\n  \"simulated_time\": {\"unit\": \"library basic blocks executed\", \"total\": "
          << tot[K_STEPS] << ", \"longest_run\": " << g_sh->max_steps << "},\n  \"library_code_points_reached\": " << covn << ",\n  \"faults_injected\": {";
        bool c1 = false;
        for (int k = K_F_NTH; k <= K_F_EDIT; k++)
            if (tot[k]) { e << (c1 ? ", " : "") << jstr(counter_names[k]) << ": " << tot[k]; c1 = true; }
        e << "},\n  \"activity\": {";
        c1 = false;
        for (int k = 0; k < K_N; k++)
            if ((k < K_F_NTH || k > K_F_EDIT) && tot[k]) { e << (c1 ? ", " : "") << jstr(counter_names[k]) << ": " << tot[k]; c1 = true; }
        e << "},\n  \"probes\": {";
        c1 = false;
        std::map<Str, uint64_t> pr;
        for (auto& x : g_sh->probe)
            if (x.hash) pr[x.name] += x.n;
        for (auto& x : pr) { e << (c1 ? ", " : "") << jstr(x.first) << ": " << x.second; c1 = true; }
        e << "},\n  \"real\": [\"all of /repo/src, compiled from the working tree\", \"glibc stdio and string functions\"],\n"
          << "  \"stub\": [\"heap allocator\", \"process exit and abort\", \"environment\", \"standard output and standard error\", \"printing targets (cookie streams)\", \"callers, callbacks and their scheduler\"]\n },\n";
        e << " \"assumptions\": [\"callers respect the documented preconditions of each call\", \"memory errors are those AddressSanitizer with a poisoned arena can see\"]\n}\n";
    }
    printf("%s %s: %llu runs in %.1f s, %llu distinct, %llu operations, %llu basic blocks\n", p->id, thorough ? "thorough" : "quick",
           (unsigned long long)tot[K_RUNS], t_search, (unsigned long long)g_sh->nsig, (unsigned long long)tot[K_OPS], (unsigned long long)tot[K_STEPS]);
    if (!vio_line.empty()) printf("%s\n", vio_line.c_str());
    return rc;
}
