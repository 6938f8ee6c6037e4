#include "core.h"
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>
#include "shared.h"

Lib LA, LB;
InPool IN;
Lib* g_lib = nullptr;
Proc PR;
Guard* g_guard = nullptr;
uint64_t g_steps = 0, g_step_limit = UINT64_MAX, g_preempt_at = UINT64_MAX;
static uint64_t g_twin_steps = 0;
void (*g_on_preempt)() = nullptr;
Sched* g_sched = nullptr;
bool g_verbose = false;
uint64_t g_loghash = 0, g_sig = 0;
char g_op[256] = "";
uint32_t g_opno = 0;
static uint32_t g_opcur = 0;   // of the caller that is running
uint32_t g_dirty_stack = 0;
uint64_t* g_count = nullptr;
Choices* g_ch = nullptr;
Stream* g_prog = nullptr;
void* g_ctx = nullptr;
std::vector<uint32_t> g_dict_nums;
std::vector<Str> g_dict_strs;
bool g_seam_exit_unwinds = true;
Shared* g_sh = nullptr;
Report* g_report = nullptr;
const char* g_prop_id = "?";
uint64_t g_seed_index = 0;

std::vector<Prop>& props() {
    static std::vector<Prop> p;
    return p;
}
const char* const counter_names[K_N] = {
    "runs", "operations", "library_calls", "steps", "allocations",
    "alloc_fail_nth", "alloc_fail_from_nth", "alloc_fail_by_size", "alloc_fail_budget", "stream_write_error", "stream_short_write",
    "stderr_unwritable", "callback_unwind", "handler_reject", "env_change", "errno_noise", "preemption", "memory_personality", "caller_edit",
    "process_exits", "handler_panics", "process_aborts",
    "parses", "parses_with_errors", "twin_comparisons", "prints", "dstr_ops", "registry_ops", "hash_ops", "sorts", "messages", "nested_calls",
    "tables_built", "retries_after_fault", "determinism_rechecks", "leak_scans", "model_checks"};

void raw_copy(void* d, const void* s, size_t n) {
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}
static void raw_set(void* d, int c, size_t n) {
    __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
}
uint64_t hash_str(const char* p, size_t n, uint64_t h) {
    for (size_t i = 0; i < n; i++) {
        h ^= (uint8_t)p[i];
        h *= 1099511628211ull;
    }
    return h;
}
Str sfmt(const char* fmt, ...) {
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    return buf;
}
Str fmtq(const Str& s) {
    Str r = "\"";
    size_t n = 0;
    for (unsigned char c : s) {
        if (n++ >= 160) { r += sfmt("..(%zu)", s.size()); break; }
        if (c == '\n') r += "\\n";
        else if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c > 126) r += sfmt("\\x%02x", c);
        else r += (char)c;
    }
    return r + "\"";
}
Str fmtq(const char* s) { return s ? fmtq(Str(s)) : Str("NULL"); }

void LOG(const char* fmt, ...) {
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
    g_loghash = hash_str(buf, (size_t)n, g_loghash);
    if (g_verbose) {
        fprintf(stderr, "  [%8llu] %s\n", (unsigned long long)g_steps, buf);
    }
}
void set_op(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(g_op, sizeof g_op, fmt, ap);
    va_end(ap);
    g_opcur = ++g_opno;
    LOG("#%u %s", g_opno, g_op);
}
void SIG(uint64_t x) { g_sig = hash_u64(x, g_sig); }

static void fill_report(const char* kind, const char* msg) {
    Report* r = g_report;
    if (!r) return;
    snprintf(r->prop, sizeof r->prop, "%s", g_prop_id);
    snprintf(r->kind, sizeof r->kind, "%s", kind);
    snprintf(r->msg, sizeof r->msg, "op #%u %s: %s", g_opcur, g_op, msg);
    r->seed_index = g_seed_index;
    r->loghash = g_loghash;
    r->steps = g_steps;
    uint32_t o = 0;
    for (int i = 0; i < NSTREAMS; i++) {
        auto& v = g_ch->st[i].v;
        uint32_t n = (uint32_t)v.size();
        if (g_ch->st[i].replay && g_ch->st[i].pos < n) n = (uint32_t)g_ch->st[i].pos;
        if (o + n > Report::CAP) n = Report::CAP - o;
        r->n[i] = n;
        for (uint32_t k = 0; k < n; k++) r->data[o + k] = v[k];
        o += n;
        auto& m = g_ch->st[i].marks;
        uint32_t mn = (uint32_t)m.size();
        if (mn > Report::MCAP) mn = Report::MCAP;
        r->nm[i] = mn;
        for (uint32_t k = 0; k < mn; k++) r->marks[i][k] = m[k];
    }
    r->valid = 1;
}
void violate(const char* kind, const char* fmt, ...) {
    char buf[1500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    g_loghash = hash_str(kind, strlen(kind), g_loghash);
    fill_report(kind, buf);
    if (g_verbose) {
        fprintf(stderr, "  !! %s at operation #%u %s\n  !! %s\n", kind, g_opcur, g_op, buf);
        fflush(stderr);
    }
    _exit(77);
}

static void on_alarm(int) {
    fill_report("stuck", "the run does not end (no result after 10 to 30 s of processor time)");
    _exit(77);
}
void stuck_handler() { signal(SIGPROF, on_alarm); }
void stuck_limit(unsigned s) {   // processor time, so that a busy machine makes no difference
    struct itimerval t = {{0, 0}, {(time_t)s, 0}};
    setitimer(ITIMER_PROF, &t, nullptr);
}

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=78:detect_stack_use_after_return=0:handle_segv=1:allocator_may_return_null=1:"
           "detect_odr_violation=0:print_summary=0:symbolize=0:allow_user_poisoning=1:intercept_tls_get_addr=0:check_initialization_order=0:replace_str=1";
}
extern "C" void __asan_on_error() {
    static volatile int once = 0;
    if (once) return;
    once = 1;
    const char* d = __asan_get_report_description();
    char kind[64];
    snprintf(kind, sizeof kind, "memory:%.40s", d && *d ? d : "fault");
    uintptr_t pc = (uintptr_t)__asan_get_report_pc(), ad = (uintptr_t)__asan_get_report_address();
    char buf[300];
    const char* where = "";
    if (ad >= IN.base && ad < IN.end) where = " in caller-owned input memory";
    else if (ad >= LA.arena.base && ad < LA.arena.end) where = " in the heap";
    snprintf(buf, sizeof buf, "%s, %s of size %zu%s (library offset 0x%zx)", d ? d : "?",
             __asan_get_report_access_type() ? "write" : "read", __asan_get_report_access_size(), where,
             pc >= LA.base && pc < LA.text_end ? (size_t)(pc - LA.base) : (size_t)0);
    g_loghash = hash_str(kind, strlen(kind), g_loghash);
    fill_report(kind, buf);
    if (g_verbose) {
        fprintf(stderr, "  !! %s at operation #%u %s: %s\n", kind, g_opcur, g_op, buf);
        return;  // let the full report be printed
    }
    _exit(77);
}

// ---------------------------------------------------------------- arena
static const size_t ALIGN = 16;
void Arena::init(uintptr_t b, size_t len) {
    void* p = mmap((void*)b, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (p != (void*)b) { perror("mmap arena"); _exit(3); }
    base = top = b;
    end = b + len;
    __asan_poison_memory_region((void*)b, 1 << 20);
    top = b;
}
void Arena::reset(ReusePolicy r, FillPolicy f, uint32_t g, uint64_t seed) {
    if (top > base) {
        size_t used = top - base;
        __asan_poison_memory_region((void*)base, used + 4096);
        if (used > (8u << 20)) madvise((void*)base, used, MADV_DONTNEED);
    }
    blocks.clear();
    freelist.clear();
    live_blocks = live_bytes = 0;
    serial = frees = 0;
    reuse = r;
    fill = f;
    gap = (g + 15) & ~15u;
    if (gap < 16) gap = 16;
    fillseed = seed;
    fault = nullptr;
    top = base + gap;
}
static void fill_block(Arena& a, void* p, size_t n, bool fresh) {
    switch (a.fill) {
        case FILL_ZERO: raw_set(p, 0, n); break;
        case FILL_FF: raw_set(p, 0xFF, n); break;
        case FILL_A5: raw_set(p, 0xA5, n); break;
        case FILL_STALE: if (fresh) raw_set(p, 0x41, n); break;
        case FILL_TEXT: {
            static const char t[] = "=x%s-a,1";
            char* c = (char*)p;
            for (size_t i = 0; i < n; i++) c[i] = t[i & 7];
        } break;
        case FILL_RANDOM: {
            char* c = (char*)p;
            uint64_t x = 0;
            Rng r(a.fillseed + a.serial);
            for (size_t i = 0; i < n; i++) {
                if (!(i & 7)) x = r.next();
                c[i] = (char)(x >> ((i & 7) * 8));
            }
        } break;
    }
}
void* Arena::alloc(size_t n, int owner) {
    size_t cap = (n + ALIGN - 1) & ~(ALIGN - 1);
    if (!cap) cap = ALIGN;
    if (n > (size_t)1 << 40) return nullptr;
    uintptr_t p = 0;
    bool fresh = false;
    if (reuse != REUSE_NEVER) {
        auto it = freelist.find(cap);
        if (it != freelist.end() && !it->second.empty()) {
            auto& v = it->second;
            if (reuse == REUSE_LIFO) { p = v.back(); v.pop_back(); }
            else if (v.size() > 4) { p = v.front(); v.erase(v.begin()); }
        }
    }
    if (!p) {
        if (top + cap + gap > end) return nullptr;
        p = top;
        top += cap + gap;
        fresh = true;
        // keep the shadow beyond the top poisoned, one megabyte ahead
        if (((p - base) >> 20) != ((top + gap - base) >> 20) || cap > (1u << 19))
            __asan_poison_memory_region((void*)p, (cap + gap + (1u << 20) + 4095) & ~(size_t)4095);
    }
    __asan_unpoison_memory_region((void*)p, cap);
    serial++;
    fill_block(*this, (void*)p, cap, fresh);
    __asan_poison_memory_region((void*)p, cap);
    if (n) __asan_unpoison_memory_region((void*)p, n);
    Block& b = blocks[p];
    b.addr = p; b.size = n; b.cap = cap; b.live = true; b.owner = owner; b.op = g_opno; b.serial = serial; b.doomed = false;
    live_blocks++;
    live_bytes += n;
    return (void*)p;
}
static bool should_fail(Arena& a, size_t n) {
    FaultPlan* f = a.fault;
    if (!f || f->mode == FaultPlan::NONE) return false;
    f->seen++;
    bool fail = false;
    switch (f->mode) {
        case FaultPlan::NTH: fail = f->seen == f->n; if (fail) COUNT(K_F_NTH); break;
        case FaultPlan::FROM_NTH: fail = f->seen >= f->n; if (fail) COUNT(K_F_FROM); break;
        case FaultPlan::SIZE_GE: fail = n >= f->n; if (fail) COUNT(K_F_SIZE); break;
        case FaultPlan::BUDGET: fail = a.live_bytes + n > f->n; if (fail) COUNT(K_F_BUDGET); break;
        default: break;
    }
    if (fail) {
        f->fired++;
        LOG("fault: allocation %llu of %zu bytes fails", (unsigned long long)f->seen, n);
        errno = ENOMEM;
    }
    return fail;
}
void* Arena::lib_alloc(size_t n, bool zero) {
    COUNT(K_ALLOCS);
    if (should_fail(*this, n)) return nullptr;
    void* p = alloc(n, OWN_LIB);
    if (!p) {
        if (n < ((size_t)64 << 20)) violate("memory-runaway", "the library asked for more than %zu MB in all", (size_t)((end - base) >> 20));
        errno = ENOMEM;
        return nullptr;
    }
    if (zero) raw_set(p, 0, n);
    return p;
}
Block* Arena::find(const void* p) {
    auto it = blocks.find((uintptr_t)p);
    return it != blocks.end() && it->second.live ? &it->second : nullptr;
}
Block* Arena::containing(const void* p) {
    uintptr_t a = (uintptr_t)p;
    for (auto& kv : blocks)
        if (kv.second.live && a >= kv.second.addr && a < kv.second.addr + kv.second.cap) return &kv.second;
    return nullptr;
}
void Arena::die(Block& b) {
    b.live = false;
    live_blocks--;
    live_bytes -= b.size;
    frees++;
    if (fill == FILL_FF || fill == FILL_RANDOM || fill == FILL_TEXT) {
        __asan_unpoison_memory_region((void*)b.addr, b.cap);
        raw_set((void*)b.addr, 0xDD, b.cap);
    }
    __asan_poison_memory_region((void*)b.addr, b.cap);
    if (reuse != REUSE_NEVER) freelist[b.cap].push_back(b.addr);
}
void Arena::release(void* p, bool by_user) {
    if (!p) return;
    uintptr_t a = (uintptr_t)p;
    auto it = blocks.find(a);
    if (it == blocks.end()) violate("foreign-free", "release of %s memory that was never allocated", IN.has(p) ? "caller-owned" : (a >= base && a < end) ? "interior heap" : "non-heap");
    Block& b = it->second;
    if (!b.live) violate("double-free", "block of %zu bytes from operation %u released again", b.size, b.op);
    if (!by_user && b.owner == OWN_USER) violate("foreign-free", "library released a block of %zu bytes the caller still owns", b.size);
    die(b);
}
void* Arena::lib_realloc(void* p, size_t n) {
    if (!p) return lib_alloc(n, false);
    auto it = blocks.find((uintptr_t)p);
    if (it == blocks.end() || !it->second.live) violate("foreign-free", "realloc of memory that is not allocated");
    if (it->second.owner == OWN_USER) violate("foreign-free", "realloc of a block the caller owns");
    if (n == 0) { release(p, false); return nullptr; }
    size_t old = it->second.size;
    COUNT(K_ALLOCS);
    if (should_fail(*this, n)) { PROBE("growing a block failed"); return nullptr; }
    void* q = alloc(n, OWN_LIB);
    if (!q) return nullptr;
    raw_copy(q, p, old < n ? old : n);
    release(p, false);
    return q;
}

// ---------------------------------------------------------------- input pool
static const size_t INPAGE = 4096;
void InPool::init(uintptr_t b, size_t len) {
    void* p = mmap((void*)b, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (p != (void*)b) { perror("mmap input"); _exit(3); }
    base = top = high = b;
    end = b + len;
}
void InPool::reset() {
    unseal();
    __asan_unpoison_memory_region((void*)base, high - base + 64);
    raw_set((void*)base, 0x7e, high - base);
    __asan_poison_memory_region((void*)base, high - base + 4096);
    top = base + 32;
    for (auto& x : given) x.clear();
    for (auto& x : freed) x.clear();
}
void InPool::seal() {
    if (sealed) return;
    mprotect((void*)base, (top - base + 2 * INPAGE - 1) & ~(INPAGE - 1), PROT_READ);
    if (top > high) high = top;
    sealed = true;
}
void InPool::unseal() {
    if (!sealed) return;
    uintptr_t h = high > top ? high : top;
    mprotect((void*)base, (h - base + 2 * INPAGE - 1) & ~(INPAGE - 1), PROT_READ | PROT_WRITE);
    sealed = false;
}
char* InPool::alloc(size_t n, size_t align) {
    unseal();
    uintptr_t p = (top + 15) & ~(uintptr_t)15;
    (void)align;
    uintptr_t e = ((p + n + 15) & ~(uintptr_t)15) + 16;
    if (e + 8192 > end) { fprintf(stderr, "input pool exhausted\n"); _exit(3); }
    __asan_poison_memory_region((void*)top, e - top);
    __asan_unpoison_memory_region((void*)p, n);
    top = e;
    if (top > high) high = top;
    return (char*)p;
}
char* InPool::str(const Str& s, int role) {
    if (role) {
        auto& f = freed[role];
        for (size_t i = f.size(); i-- > 0;)
            if (f[i].cap >= s.size() + 1) {
                Slot w = f[i];
                f.erase(f.begin() + (long)i);
                given[role].push_back(w);
                unseal();
                __asan_unpoison_memory_region(w.p, w.cap);
                raw_set(w.p, 0x7e, w.cap);
                raw_copy(w.p, s.c_str(), s.size() + 1);
                __asan_poison_memory_region(w.p, w.cap);
                __asan_unpoison_memory_region(w.p, s.size() + 1);
                return w.p;
            }
        size_t cap = s.size() + 1 < 48 ? 48 : s.size() + 1;
        Slot w = {alloc(cap), cap};
        given[role].push_back(w);
        raw_copy(w.p, s.c_str(), s.size() + 1);
        __asan_poison_memory_region(w.p, cap);
        __asan_unpoison_memory_region(w.p, s.size() + 1);
        return w.p;
    }
    char* p = alloc(s.size() + 1);
    raw_copy(p, s.c_str(), s.size() + 1);
    return p;
}

void InPool::recycle_all(int role) {
    auto& g = given[role];
    freed[role].insert(freed[role].end(), g.begin(), g.end());
    g.clear();
}
void InPool::recycle(const char* p, int role) {
    auto& g = given[role];
    for (size_t i = 0; i < g.size(); i++)
        if (g[i].p == p) {
            freed[role].push_back(g[i]);
            g.erase(g.begin() + (long)i);
            return;
        }
}

// ---------------------------------------------------------------- library loading
static int phdr_cb(struct dl_phdr_info* info, size_t, void* data) {
    Lib* l = (Lib*)data;
    struct link_map* lm = (struct link_map*)l->dl;
    if (info->dlpi_addr != lm->l_addr) return 0;
    l->base = info->dlpi_addr;
    uintptr_t ra = 0, re = 0;
    for (int i = 0; i < info->dlpi_phnum; i++) {
        auto& ph = info->dlpi_phdr[i];
        if (ph.p_type == PT_GNU_RELRO) { ra = l->base + ph.p_vaddr; re = (ra + ph.p_memsz) & ~(uintptr_t)4095; }
    }
    for (int i = 0; i < info->dlpi_phnum; i++) {
        auto& ph = info->dlpi_phdr[i];
        if (ph.p_type != PT_LOAD) continue;
        uintptr_t a = l->base + ph.p_vaddr, e = a + ph.p_memsz;
        if (ph.p_flags & PF_X) l->text_end = e;
        if (!(ph.p_flags & PF_W)) continue;
        if (re > a && ra < e) a = re > e ? e : re;
        if (a >= e) continue;
        Lib::Seg s;
        s.a = a;
        s.img.resize(e - a);
        raw_copy(s.img.data(), (void*)a, e - a);
        l->segs.push_back(s);
    }
    return 1;
}
void Lib::load(const char* p, uintptr_t arena_base, size_t arena_len) {
    path = p;
    arena.init(arena_base, arena_len);
    dl = dlopen(p, RTLD_NOW | RTLD_LOCAL);
    if (!dl && path.size() > 7 && path.compare(path.size() - 7, 7, "libP.so") == 0) {   // something the seams do not know
        path.replace(path.size() - 7, 7, "libA.so");
        dl = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    }
    if (!dl) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(3); }
    dl_iterate_phdr(phdr_cb, this);
    if (segs.empty()) { fprintf(stderr, "no data segment found\n"); _exit(3); }
    auto sym = [&](const char* n, bool must) {
        void* s = dlsym(dl, n);
        if (!s && must) { fprintf(stderr, "missing symbol %s\n", n); _exit(3); }
        return s;
    };
#define X(n) f.n = (decltype(f.n))sym(#n, true);
    API_PUBLIC(X)
#undef X
    f.arg_set_panic = (decltype(f.arg_set_panic))sym("arg_set_panic", false);
#define H(m, n) f.m = (decltype(f.m))sym(n, false);
    H(ht_create, "arg_hashtable_create") H(ht_insert, "arg_hashtable_insert") H(ht_search, "arg_hashtable_search")
    H(ht_remove, "arg_hashtable_remove") H(ht_count, "arg_hashtable_count") H(ht_change, "arg_hashtable_change")
    H(ht_destroy, "arg_hashtable_destroy") H(hti_create, "arg_hashtable_itr_create") H(hti_destroy, "arg_hashtable_itr_destroy")
    H(hti_key, "arg_hashtable_itr_key") H(hti_value, "arg_hashtable_itr_value") H(hti_advance, "arg_hashtable_itr_advance")
    H(hti_remove, "arg_hashtable_itr_remove") H(hti_search, "arg_hashtable_itr_search")
#undef H
}
void Lib::restore() {
    if (this == &LB) g_twin_steps = 0;
    for (auto& s : segs) raw_copy((void*)s.a, s.img.data(), s.img.size());
}
// Live library-owned blocks reachable from the library's own data (conservatively).
bool Lib::reachable_from_globals(std::set<uintptr_t>& out) {
    std::map<uintptr_t, Block*> live;
    for (auto& kv : arena.blocks)
        if (kv.second.live) live[kv.first] = &kv.second;
    std::vector<uintptr_t> todo;
    auto scan = [&](uintptr_t a, size_t n) {
        a = (a + 7) & ~(uintptr_t)7;
        for (size_t i = 0; i + 8 <= n; i += 8) {
            uintptr_t w;
            raw_copy(&w, (void*)(a + i), 8);
            if (w < arena.base || w >= arena.end) continue;
            auto it = live.upper_bound(w);
            if (it == live.begin()) continue;
            --it;
            if (w < it->first + (it->second->cap ? it->second->cap : 1) && out.insert(it->first).second) todo.push_back(it->first);
        }
    };
    for (auto& s : segs) scan(s.a, s.img.size());
    while (!todo.empty()) {
        uintptr_t p = todo.back();
        todo.pop_back();
        scan(p, live[p]->cap);
    }
    return true;
}

// ---------------------------------------------------------------- guarded calls
const char* exit_name(int x) {
    static const char* n[] = {"returned", "out-of-memory handler", "exit", "abort", "unwound", "assertion"};
    return n[x];
}
__attribute__((noinline)) void dirty_stack(uint32_t n, uint64_t pat) {
    volatile char* p = (volatile char*)__builtin_alloca(n);
    for (uint32_t i = 0; i < n; i++) p[i] = (char)(pat >> ((i & 7) * 8));
}
static uint64_t dirty_pattern() {
    switch (LA.arena.fill) {
        case FILL_ZERO: return 0;
        case FILL_FF: return ~0ull;
        case FILL_TEXT: return 0x2c612d7325783d31ull;
        case FILL_RANDOM: return LA.arena.fillseed * 0x9E3779B97F4A7C15ull;
        default: return 0xA5A5A5A5A5A5A5A5ull;
    }
}
int guarded_enter(Guard& g, Lib& lib) {
    g.prev = g_guard;
    g.lib = g_lib;
    g_guard = &g;
    g_lib = &lib;
    g.steps = g_steps;
    if (&lib == &LA) {
        COUNT(K_CALLS);
        if (g_step_limit == UINT64_MAX) { g_step_limit = g_steps + 20000000; g.limited = true; }   // a call of the harness itself
        if (g_dirty_stack) dirty_stack(g_dirty_stack, dirty_pattern());
    }
    IN.seal();
    return 0;
}
void guarded_leave(Guard& g) {
    g_guard = g.prev;
    g_lib = g.lib;
    g.steps = g_steps - g.steps;
    if (g.limited) g_step_limit = UINT64_MAX;
}
void unwind(int code, int status) {
    if (!g_guard) violate("harness", "unwind outside a call (%s)", exit_name(code));
    g_guard->code = code;
    g_guard->exit_status = status;
    longjmp(g_guard->jb, 1);
}

// ---------------------------------------------------------------- seams
extern "C" {
FILE* sim_stdout;
FILE* sim_stderr;
void fresh_point(uintptr_t pc, uintptr_t ra) {
    // for the first time in this place as called from this place (the library keeps frame pointers)
    uintptr_t off = pc - LA.base;
    if (g_sched->mod) {
        uint64_t k = off * 0x9E3779B97F4A7C15ull;
        if ((k >> 40) % g_sched->mod == g_sched->res && g_sched->at_place()) g_on_preempt();
        return;
    }
    ra = ra >= LA.base && ra < LA.text_end ? ra - LA.base : 0;
    auto& seen = g_sched->current->seen;
    if (seen.empty()) seen.resize(1 << 16);
    uint64_t h = (off * 0x9E3779B97F4A7C15ull) ^ (ra * 0xC2B2AE3D27D4EB4Full);
    h ^= h >> 29;
    if (!seen[h & 0xffff]) {
        seen[h & 0xffff] = true;
        if (g_sched->fresh()) g_on_preempt();
    }
}
void sim_trace_pc(void) {
    if (g_lib != &LA) {
        if (++g_twin_steps > (1ull << 25)) violate("hang", "twin does not finish");
        return;
    }
    uintptr_t off = (uintptr_t)__builtin_return_address(0) - LA.base;
    if (g_sh && off < Shared::COV) g_sh->cov[off] = 1;
    if (++g_steps >= g_step_limit) {
        g_step_limit = UINT64_MAX;
        violate("hang", "no end in sight after %llu basic blocks in this call", (unsigned long long)(g_guard ? g_steps - g_guard->steps : g_steps));
    }
    // recursion without end is stopped at a depth counted from the call, not by the end of the stack, whose place varies
    if (!(g_steps & 15) && g_guard && !g_sched) {
        intptr_t d = (intptr_t)((uintptr_t)g_guard - (uintptr_t)__builtin_frame_address(0));
        if (d > (3 << 20) && d < (16 << 20)) violate("memory:stack-overflow", "the call uses more than 3 MB of stack");
    }
    if (g_steps >= g_preempt_at && g_on_preempt) { g_on_preempt(); return; }
    if (g_sched && g_sched->current && (g_sched->fresh || g_sched->mod) && g_on_preempt)
        fresh_point((uintptr_t)__builtin_return_address(0), (uintptr_t)__builtin_return_address(1));
}
static Arena& cur_arena() {
    if (!g_lib) violate("harness", "library allocates outside a guarded call");
    return g_lib->arena;
}
static Arena& arena_of(void* p) {
    uintptr_t a = (uintptr_t)p;
    if (a >= LB.arena.base && a < LB.arena.end) return LB.arena;
    return LA.arena;
}
void* sim_malloc(size_t n) { return cur_arena().lib_alloc(n, false); }
void* sim_calloc(size_t c, size_t n) {
    size_t t;
    if (__builtin_mul_overflow(c, n, &t)) { errno = ENOMEM; return nullptr; }
    return cur_arena().lib_alloc(t, true);
}
void* sim_realloc(void* p, size_t n) { return cur_arena().lib_realloc(p, n); }
void* sim_reallocarray(void* p, size_t c, size_t n) {
    size_t t;
    if (__builtin_mul_overflow(c, n, &t)) { errno = ENOMEM; return nullptr; }
    return cur_arena().lib_realloc(p, t);
}
void* sim_aligned_alloc(size_t, size_t n) { return cur_arena().lib_alloc(n, false); }
int sim_posix_memalign(void** r, size_t, size_t n) {
    void* p = cur_arena().lib_alloc(n, false);
    if (!p) return ENOMEM;
    *r = p;
    return 0;
}
void sim_free(void* p) { if (p) arena_of(p).release(p, false); }
char* sim_strdup(const char* s) {
    size_t n = strlen(s) + 1;
    char* p = (char*)sim_malloc(n);
    if (p) memcpy(p, s, n);
    return p;
}
char* sim_strndup(const char* s, size_t m) {
    size_t n = strnlen(s, m);
    char* p = (char*)sim_malloc(n + 1);
    if (p) { memcpy(p, s, n); p[n] = 0; }
    return p;
}
int sim_vasprintf(char** r, const char* fmt, va_list ap) {
    va_list a2;
    va_copy(a2, ap);
    int n = vsnprintf(nullptr, 0, fmt, a2);
    va_end(a2);
    if (n < 0) return -1;
    char* p = (char*)sim_malloc((size_t)n + 1);
    if (!p) { *r = nullptr; return -1; }
    vsnprintf(p, (size_t)n + 1, fmt, ap);
    *r = p;
    return n;
}
int sim_asprintf(char** r, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    int n = sim_vasprintf(r, fmt, ap);
    va_end(ap);
    return n;
}
static void ends(int st) { COUNT(K_EXITS); LOG("process exit(%d)", st); unwind(X_EXIT, st); }
void sim_exit(int st) { fflush(sim_stderr); fflush(sim_stdout); ends(st); }
void sim_abort(void) { COUNT(K_ABORTS); LOG("process abort"); unwind(X_ABORT, 134); }
void sim_assert_fail(const char* e, const char*, unsigned, const char* fn) {
    violate("assertion", "the library's own assertion \"%s\" in %s failed", e, fn ? fn : "?");
}
char* sim_getenv(const char* n) {
    auto it = PR.env.find(n);
    return it == PR.env.end() ? nullptr : (char*)it->second.c_str();
}
int sim_vprintf(const char* fmt, va_list ap) { return vfprintf(sim_stdout, fmt, ap); }
int sim_printf(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    int n = vfprintf(sim_stdout, fmt, ap);
    va_end(ap);
    return n;
}
int sim_puts(const char* s) { return fprintf(sim_stdout, "%s\n", s); }
int sim_putchar(int c) { return fputc(c, sim_stdout); }
void sim_perror(const char* s) { fprintf(sim_stderr, "%s: error\n", s); }
void sim_vwarnx(const char* fmt, va_list ap) { vfprintf(sim_stderr, fmt, ap); fputc('\n', sim_stderr); }
void sim_warnx(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    sim_vwarnx(fmt, ap);
    va_end(ap);
}
long sim_time(long* t) { if (t) *t = 1700000000; return 1700000000; }
int sim_rand(void) { return 4; }
long sim_random(void) { return 4; }
void sim_cfree(void* p) { sim_free(p); }
char* sim___strdup(const char* s) { return sim_strdup(s); }
char* sim___strndup(const char* s, size_t m) { return sim_strndup(s, m); }
void sim__exit(int st) { ends(st); }   // buffered output is lost
void sim__Exit(int st) { ends(st); }
void sim_quick_exit(int st) { ends(st); }
char* sim_secure_getenv(const char* n) { return sim_getenv(n); }
void sim_panic(const char* fmt, ...) {
    char buf[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    PR.panics++;
    PR.panic_text = buf;
    COUNT(K_PANICS);
    LOG("out-of-memory handler called");
    unwind(X_PANIC);
}
}

static ssize_t out_write(void* c, const char* b, size_t n) {
    Str* s = (Str*)c;
    if (s == &PR.err && PR.err_fails) { COUNT(K_F_STDERR); errno = ENOSPC; return 0; }
    s->append(b, n);
    return (ssize_t)n;
}
static FILE* open_capture(Str* s) {
    cookie_io_functions_t io = {nullptr, out_write, nullptr, nullptr};
    FILE* f = fopencookie(s, "w", io);
    setvbuf(f, nullptr, _IONBF, 0);
    return f;
}
void stderr_buffering(bool on) {
    if (PR.err_buffered == on) return;
    PR.err_buffered = on;
    bool f = PR.err_fails;
    PR.err_fails = true;   // drop what is buffered
    fclose(sim_stderr);
    PR.err_fails = f;
    sim_stderr = open_capture(&PR.err);
    static char buf[4096];
    if (on) setvbuf(sim_stderr, buf, _IOFBF, sizeof buf);
}
void seams_init() {
    sim_stdout = open_capture(&PR.out);
    sim_stderr = open_capture(&PR.err);
}

// ---------------------------------------------------------------- fibers
static ucontext_t g_main_ctx;
static const void* g_main_stack;
static size_t g_main_stack_size;
static void* g_main_fake;
static void fiber_entry() {
    __sanitizer_finish_switch_fiber(nullptr, &g_main_stack, &g_main_stack_size);
    Fiber* f = g_sched->current;
    f->body();
    f->done = true;
    g_sched->yield_to_main();
}
void Sched::yield_to_main() {
    Fiber* f = current;
    int e = errno;   // each caller has its own
    f->guard = g_guard;
    f->lib = g_lib;
    f->prog = g_prog;
    f->uctx = g_ctx;
    memcpy(f->op, g_op, sizeof g_op);
    f->opno = g_opcur;
    g_preempt_at = UINT64_MAX;
    __sanitizer_start_switch_fiber(f->done ? nullptr : &f->fake, g_main_stack, g_main_stack_size);
    swapcontext((ucontext_t*)f->ctx, &g_main_ctx);
    __sanitizer_finish_switch_fiber(f->fake, nullptr, nullptr);
    g_guard = f->guard;
    g_lib = f->lib;
    g_prog = f->prog;
    g_ctx = f->uctx;
    memcpy(g_op, f->op, sizeof g_op);
    g_opcur = f->opno;
    errno = e;
}
void Sched::lock() {
    while (lock_owner && lock_owner != current) {
        current->waiting = true;
        yield_to_main();
    }
    current->waiting = false;
    lock_owner = current;
}
void Sched::unlock() { lock_owner = nullptr; }
static void on_preempt() {
    if (!g_sched || !g_sched->current) return;
    COUNT(K_F_PREEMPT);
    g_sched->yield_to_main();
}
static std::vector<char*>& stacks() {
    static std::vector<char*> s;
    return s;
}
static const size_t FSTACK = 512 * 1024;
void Sched::run(std::vector<std::function<void()>> bodies) {
    Sched* prev = g_sched;
    g_sched = this;
    g_on_preempt = on_preempt;
    Guard* sg = g_guard;
    Lib* sl = g_lib;
    Stream* sp = g_prog;
    size_t i = 0;
    for (auto& b : bodies) {
        Fiber* f = new Fiber;
        if (stacks().size() <= i) {
            char* m = (char*)mmap(nullptr, FSTACK + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            mprotect(m, 65536, PROT_NONE);
            stacks().push_back(m + 65536);
        }
        f->stack = stacks()[i++];
        f->stack_size = FSTACK;
        __asan_unpoison_memory_region(f->stack, FSTACK);
        f->body = b;
        ucontext_t* u = new ucontext_t;
        getcontext(u);
        u->uc_stack.ss_sp = f->stack;
        u->uc_stack.ss_size = FSTACK;
        u->uc_link = nullptr;
        makecontext(u, fiber_entry, 0);
        f->ctx = u;
        f->prog = g_prog;
        fibers.push_back(f);
    }
    trace = 1469598103934665603ull;
    for (;;) {
        std::vector<Fiber*> r;
        for (auto* f : fibers)
            if (!f->done && !(f->waiting && lock_owner && lock_owner != f)) r.push_back(f);
        if (r.empty()) {
            bool all = true;
            for (auto* f : fibers) all = all && f->done;
            if (!all) violate("harness", "simulated deadlock");
            break;
        }
        Fiber* f = r[choose(r.size())];
        Fiber* was = current;
        if (was != f) switches++;
        size_t idx = 0;
        while (fibers[idx] != f) idx++;
        trace = hash_u64(idx, hash_u64(g_steps, trace));
        current = f;
        uint64_t q = quantum();
        g_preempt_at = q ? g_steps + q : UINT64_MAX;
        g_guard = f->guard;
        g_lib = f->lib;
        g_prog = f->prog;
        g_ctx = f->uctx;
        IN.seal();
        __sanitizer_start_switch_fiber(&g_main_fake, f->stack, f->stack_size);
        swapcontext(&g_main_ctx, (ucontext_t*)f->ctx);
        __sanitizer_finish_switch_fiber(g_main_fake, nullptr, nullptr);
    }
    g_preempt_at = UINT64_MAX;
    for (auto* f : fibers) { delete (ucontext_t*)f->ctx; delete f; }
    fibers.clear();
    g_sched = prev;
    g_guard = sg;
    g_lib = sl;
    g_prog = sp;
}

// ---------------------------------------------------------------- runs
void begin_run(Choices& c) {
    g_ch = &c;
    g_prog = &c.st[ST_PROG];
    g_steps = 0;
    g_twin_steps = 0;
    g_step_limit = UINT64_MAX;
    g_preempt_at = UINT64_MAX;
    g_loghash = 1469598103934665603ull;
    g_sig = 1469598103934665603ull;
    g_opno = g_opcur = 0;
    g_op[0] = 0;
    g_guard = nullptr;
    g_lib = nullptr;
    g_sched = nullptr;
    g_ctx = nullptr;
    g_dirty_stack = 0;
    PR.env.clear();
    PR.out.clear();
    PR.err.clear();
    PR.err_fails = false;
    stderr_buffering(false);
    PR.err.clear();
    PR.panics = 0;
    PR.panic_text.clear();
    clearerr(sim_stderr);
    clearerr(sim_stdout);
    errno = 0;
    LA.restore();
    LB.restore();
    LA.arena.reset(REUSE_LIFO, FILL_A5, 16, 1);
    LB.arena.reset(REUSE_LIFO, FILL_ZERO, 16, 1);
    IN.reset();
}
void PROBE(const char* name) {
    if (!g_sh) return;
    uint64_t h = hash_str(name, strlen(name));
    for (uint32_t i = 0; i < Shared::NPROBE; i++) {
        auto& p = g_sh->probe[(h + i) % Shared::NPROBE];
        if (p.hash == 0) {
            snprintf(p.name, sizeof p.name, "%s", name);
            p.hash = h;
        }
        if (p.hash == h) { __atomic_add_fetch(&p.n, 1, __ATOMIC_RELAXED); return; }
    }
}
