// Deterministic simulation core: seams, memory, choices, fibers, violations.
#pragma once
extern "C" {
#include "argtable3.h"
}
#include <setjmp.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

typedef std::string Str;

// ---------------------------------------------------------------- randomness
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
};

// A recorded choice stream. In replay the recorded values are used (missing ones are 0),
// so that a replay file is just the streams, and shrinking works on the numbers.
struct Stream {
    std::vector<uint32_t> v;
    std::vector<uint32_t> marks;  // positions where an operation starts
    size_t pos = 0;
    bool replay = false;
    Rng rng{1};
    void rewind() { pos = 0; marks.clear(); }  // read the same choices again
    uint32_t below(uint32_t n) {
        if (n <= 1) return 0;
        uint32_t x;
        if (replay) {
            x = pos < v.size() ? v[pos] % n : 0;
        } else {
            if (pos < v.size()) {
                x = v[pos] % n;
            } else {
                x = (uint32_t)(rng.next() % n);
                v.push_back(x);
            }
        }
        pos++;
        return x;
    }
    uint32_t range(uint32_t a, uint32_t b) { return a + below(b - a + 1); }  // inclusive
    bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }  // 0 means no
    bool more(uint32_t mean) { return below(mean + 1) != 0; }                    // 0 means stop
    void mark() { marks.push_back((uint32_t)pos); }
    template <class T>
    const T& pick(const std::vector<T>& x) { return x[below((uint32_t)x.size())]; }
};

enum { ST_PROG, ST_FAULT, ST_SCHED, ST_PROG1, ST_PROG2, ST_PROG3, NSTREAMS };
struct Choices {
    Stream st[NSTREAMS];
};

// ---------------------------------------------------------------- memory
enum ReusePolicy { REUSE_LIFO, REUSE_FIFO, REUSE_NEVER };
enum FillPolicy { FILL_ZERO, FILL_FF, FILL_A5, FILL_STALE, FILL_RANDOM, FILL_TEXT };

enum Owner { OWN_LIB, OWN_USER, OWN_HANDED };  // handed: user block whose release the library took over

struct Block {
    uintptr_t addr;
    size_t size, cap;
    bool live;
    int owner;
    uint32_t op;      // operation that allocated it
    uint32_t serial;  // allocation number
    bool doomed;      // belongs to an interrupted operation
};

struct FaultPlan {
    enum Mode { NONE, NTH, FROM_NTH, SIZE_GE, BUDGET } mode = NONE;
    uint64_t n = 0;        // NTH, FROM_NTH: 1-based; SIZE_GE: bytes; BUDGET: live bytes allowed
    uint64_t seen = 0;     // allocations since armed
    uint32_t fired = 0;    // failures since armed
};

struct Arena {
    uintptr_t base = 0, top = 0, end = 0;
    ReusePolicy reuse = REUSE_LIFO;
    FillPolicy fill = FILL_A5;
    uint32_t gap = 16;  // redzone bytes, varied to move addresses
    uint64_t fillseed = 1;
    std::unordered_map<uintptr_t, Block> blocks;  // live and dead by address (dead until reused)
    std::map<size_t, std::vector<uintptr_t>> freelist;
    size_t live_blocks = 0, live_bytes = 0;
    uint32_t serial = 0, frees = 0;
    FaultPlan* fault = nullptr;
    void init(uintptr_t b, size_t len);
    void reset(ReusePolicy r, FillPolicy f, uint32_t g, uint64_t seed);
    void* alloc(size_t n, int owner);        // never fails except on exhaustion
    void* lib_alloc(size_t n, bool zero);    // subject to the fault plan
    void* lib_realloc(void* p, size_t n);
    void release(void* p, bool by_user);
    Block* find(const void* p);              // live block starting at p
    Block* containing(const void* p);        // live block containing p
    void die(Block& b);
};

// Read-only input memory: argument vectors, strings, tables. Write protected while the library runs.
struct InPool {
    uintptr_t base = 0, top = 0, end = 0, high = 0;
    bool sealed = false;
    void init(uintptr_t b, size_t len);
    void reset();
    void seal();
    void unseal();
    char* alloc(size_t n, size_t align = 1);
    char* str(const Str& s, int role = 0);   // with a role: may lie where a recycled text of that role was
    void recycle_all(int role);
    void recycle(const char* p, int role);   // the caller gave the text up
    struct Slot { char* p; size_t cap; };
    std::vector<Slot> given[8], freed[8];
    uintptr_t save() { return top; }
    bool has(const void* p) { return (uintptr_t)p >= base && (uintptr_t)p < end; }
};

// ---------------------------------------------------------------- the library under test
typedef void panicfn_t(const char* fmt, ...);
typedef void* ht_t;
typedef void* hti_t;
#define API_PUBLIC(X) \
    X(arg_rem) X(arg_litn) X(arg_lit0) X(arg_lit1) X(arg_int0) X(arg_int1) X(arg_intn) X(arg_dbl0) X(arg_dbl1) X(arg_dbln) \
    X(arg_str0) X(arg_str1) X(arg_strn) X(arg_rex0) X(arg_rex1) X(arg_rexn) X(arg_file0) X(arg_file1) X(arg_filen) \
    X(arg_date0) X(arg_date1) X(arg_daten) X(arg_end) X(arg_nullcheck) X(arg_parse) X(arg_print_option) \
    X(arg_print_option_ds) X(arg_print_syntax) X(arg_print_syntax_ds) X(arg_print_syntaxv) X(arg_print_syntaxv_ds) \
    X(arg_print_glossary) X(arg_print_glossary_ds) X(arg_print_glossary_gnu) X(arg_print_glossary_gnu_ds) \
    X(arg_print_errors) X(arg_print_errors_ds) X(arg_print_formatted) X(arg_freetable) X(arg_free) X(arg_dstr_create) \
    X(arg_dstr_destroy) X(arg_dstr_reset) X(arg_dstr_free) X(arg_dstr_set) X(arg_dstr_cat) X(arg_dstr_catc) \
    X(arg_dstr_catf) X(arg_dstr_cstr) X(arg_cmd_init) X(arg_cmd_uninit) X(arg_cmd_register) X(arg_cmd_unregister) \
    X(arg_cmd_dispatch) X(arg_cmd_count) X(arg_cmd_info) X(arg_cmd_itr_create) X(arg_cmd_itr_destroy) \
    X(arg_cmd_itr_advance) X(arg_cmd_itr_key) X(arg_cmd_itr_value) X(arg_cmd_itr_search) X(arg_mgsort) \
    X(arg_make_get_help_msg) X(arg_make_help_msg) X(arg_make_syntax_err_msg) X(arg_make_syntax_err_help_msg) \
    X(arg_set_module_name) X(arg_set_module_version)

struct Api {
#define X(n) decltype(&::n) n;
    API_PUBLIC(X)
#undef X
    void (*arg_set_panic)(panicfn_t*);
    ht_t (*ht_create)(unsigned, unsigned (*)(const void*), int (*)(const void*, const void*));
    void (*ht_insert)(ht_t, void*, void*);
    void* (*ht_search)(ht_t, const void*);
    void (*ht_remove)(ht_t, const void*);
    unsigned (*ht_count)(ht_t);
    int (*ht_change)(ht_t, void*, void*);
    void (*ht_destroy)(ht_t, int);
    hti_t (*hti_create)(ht_t);
    void (*hti_destroy)(hti_t);
    void* (*hti_key)(hti_t);
    void* (*hti_value)(hti_t);
    int (*hti_advance)(hti_t);
    int (*hti_remove)(hti_t);
    int (*hti_search)(hti_t, ht_t, void*);
};

struct Lib {
    Str path;
    void* dl = nullptr;
    uintptr_t base = 0, text_end = 0;
    struct Seg { uintptr_t a; std::vector<uint8_t> img; };
    std::vector<Seg> segs;
    Api f;
    Arena arena;
    void load(const char* p, uintptr_t arena_base, size_t arena_len);
    void restore();   // put the data segment back to its load-time image
    bool reachable_from_globals(std::set<uintptr_t>& out);
};
extern Lib LA, LB;      // subject, pristine twin
extern InPool IN;       // definitions
extern Lib* g_lib;      // library whose calls are running (decides the arena of allocations)

// ---------------------------------------------------------------- simulated process
struct Proc {
    std::map<Str, Str> env;
    Str out, err;             // what was written to standard output and standard error
    bool err_fails = false;   // standard error accepts nothing
    bool err_buffered = false;
    uint32_t panics = 0;
    Str panic_text;
};
extern Proc PR;
extern "C" FILE *sim_stdout, *sim_stderr;
void stderr_buffering(bool on);

// ---------------------------------------------------------------- guarded calls
enum Exit { X_RET, X_PANIC, X_EXIT, X_ABORT, X_UNWIND, X_ASSERT };
const char* exit_name(int x);
struct Guard {
    jmp_buf jb;
    volatile int code = X_RET;
    int exit_status = 0;
    Guard* prev = nullptr;
    Lib* lib = nullptr;
    uint64_t steps = 0;
    bool limited = false;
};
struct Fiber;
extern Guard* g_guard;
// Runs f (which must call the library and hold no objects with destructors) and returns how it ended.
int guarded_enter(Guard& g, Lib& lib);
void guarded_leave(Guard& g);
[[noreturn]] void unwind(int code, int status = 0);  // from a callback: abandon the running library call
struct CallInfo {
    int code = X_RET;
    int status = 0;
    uint64_t steps = 0;
};
extern uint32_t g_dirty_stack;  // bytes of stack to overwrite before a call (0: off)
void dirty_stack(uint32_t n, uint64_t pat);

template <class F>
__attribute__((noinline)) CallInfo guarded(Lib& lib, F f) {
    Guard g;
    CallInfo ci;
    guarded_enter(g, lib);
    if (setjmp(g.jb) == 0) {
        f();
        g.code = X_RET;
    }
    guarded_leave(g);
    ci.code = g.code;
    ci.status = g.exit_status;
    ci.steps = g.steps;
    return ci;
}

// ---------------------------------------------------------------- steps, coverage, scheduling
extern uint64_t g_steps;        // basic blocks of the library executed in this run
extern uint64_t g_step_limit;   // absolute; exceeded: violation
extern uint64_t g_preempt_at;   // absolute step at which the scheduler takes over (UINT64_MAX: never)
extern void (*g_on_preempt)();
extern "C" void fresh_point(uintptr_t pc, uintptr_t ra);

struct Fiber {
    void* ctx = nullptr;   // ucontext_t
    char* stack = nullptr;
    size_t stack_size = 0;
    void* fake = nullptr;
    std::function<void()> body;
    bool done = false;
    bool waiting = false;  // for the simulated lock
    Guard* guard = nullptr;
    Lib* lib = nullptr;
    Stream* prog = nullptr;
    void* uctx = nullptr;
    char op[256] = "";
    uint32_t opno = 0;
    std::vector<bool> seen;   // (block, call site) pairs this caller has been at
};
struct Sched {
    std::vector<Fiber*> fibers;
    Fiber* current = nullptr;
    Fiber* lock_owner = nullptr;
    uint32_t switches = 0;
    uint64_t trace = 0;  // hash of (fiber, step) decisions
    std::function<uint64_t()> quantum;           // basic blocks until the next preemption
    std::function<size_t(size_t)> choose;        // which runnable fiber
    std::function<bool()> fresh;                 // preempt where the caller gets to for the first time?
    uint32_t mod = 0, res = 0;                   // preempt at the places in this class (mod > 0)
    bool on_data = false;                        // preempt at accesses to the library's static data
    std::function<bool()> at_place;
    void run(std::vector<std::function<void()>> bodies);
    void lock();
    void unlock();
    void yield_to_main();
};
extern Sched* g_sched;

// ---------------------------------------------------------------- log, violations, statistics
extern bool g_verbose;
extern uint64_t g_loghash;
void LOG(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t hash_str(const char* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash_str(const Str& s, uint64_t h = 1469598103934665603ull) { return hash_str(s.data(), s.size(), h); }
inline uint64_t hash_u64(uint64_t x, uint64_t h) { return hash_str((const char*)&x, sizeof x, h); }
[[noreturn]] void violate(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define REQUIRE(c, kind, ...) do { if (!(c)) violate(kind, __VA_ARGS__); } while (0)
void set_op(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
extern char g_op[256];
extern uint32_t g_opno;
Str fmtq(const Str& s);              // printable, shortened
Str fmtq(const char* s);
Str sfmt(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

enum Counter {
    K_RUNS, K_OPS, K_CALLS, K_STEPS, K_ALLOCS,
    K_F_NTH, K_F_FROM, K_F_SIZE, K_F_BUDGET, K_F_STREAM_ERR, K_F_STREAM_SHORT, K_F_STDERR, K_F_UNWIND, K_F_REJECT,
    K_F_ENV, K_F_ERRNO, K_F_PREEMPT, K_F_MEMORY, K_F_EDIT, K_EXITS, K_PANICS, K_ABORTS,
    K_PARSES, K_PARSE_ERR, K_TWIN, K_PRINTS, K_DSTR, K_REG, K_HASH, K_SORT, K_MSG, K_NESTED, K_TABLES, K_RETRIES,
    K_DETCHECK, K_LEAKSCAN, K_MODELCHK, K_N
};
extern const char* const counter_names[K_N];
struct Shared;
extern uint64_t* g_count;  // K_N counters of this worker
inline void COUNT(Counter c, uint64_t n = 1) { g_count[c] += n; }
void PROBE(const char* name);           // "this rare situation was reached"
void SIG(uint64_t x);                   // contributes to the run's signature
extern uint64_t g_sig;

// the property checks
struct Prop {
    const char* id;
    void (*run)(Choices& c);
    uint32_t quick_runs, thorough_runs;
    const char* rule;   // what counts as a distinct, non-trivial execution
    const char* lib = "libA.so";
};
extern std::vector<Prop>& props();
struct RegProp { RegProp(Prop p) { props().push_back(p); } };

// literals found in the library's source at build time
extern std::vector<uint32_t> g_dict_nums;
extern std::vector<Str> g_dict_strs;

void begin_run(Choices& c);   // restore libraries, reset memory and process
extern Choices* g_ch;
extern void* g_ctx;     // the running caller
extern Stream* g_prog;  // the program stream of the running caller
inline Stream& P() { return *g_prog; }
inline Stream& FS() { return g_ch->st[ST_FAULT]; }
inline Stream& SC() { return g_ch->st[ST_SCHED]; }
void raw_copy(void* d, const void* s, size_t n);
extern bool g_seam_exit_unwinds;
extern "C" void sim_panic(const char* fmt, ...);
