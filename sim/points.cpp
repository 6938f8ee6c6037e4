// Scheduling points of the copy of the library that C08 runs: every memory access (the compiler plants the calls of the thread sanitizer; here they pass on to the address sanitizer's checks) and
// every call of a C library function. Each wrapper passes on to the real function by a jump, with all registers as they
// were, so that reports name the library's own code and varargs need no care.
#include "core.h"
extern "C" void sim_access_point(uintptr_t pc, uintptr_t* fp, uintptr_t addr) {
    if (g_lib != &LA) return;
    g_steps++;
    if (!g_on_preempt) return;
    if (g_steps >= g_preempt_at) { g_on_preempt(); return; }
    if (g_sched && g_sched->on_data && g_sched->current) {
        for (auto& s : LA.segs)
            if (addr >= s.a && addr < s.a + s.img.size()) {
                if (g_sched->at_place()) { PROBE("preempted at the library's static data"); g_on_preempt(); }
                return;
            }
        return;
    }
    if (g_sched && g_sched->current && (g_sched->fresh || g_sched->mod)) fresh_point(pc, fp[1]);
}
#define POINT(name, real)                                                                                             \
    asm(".text\n.globl " name "\n.type " name ",@function\n" name ":\n"                                             \
        "push %rbp\nmov %rsp,%rbp\npush %rdi\npush %rsi\npush %rdx\npush %rcx\npush %r8\npush %r9\npush %rax\n"     \
        "sub $136,%rsp\nand $-16,%rsp\n"                                                                             \
        "movups %xmm0,(%rsp)\nmovups %xmm1,16(%rsp)\nmovups %xmm2,32(%rsp)\nmovups %xmm3,48(%rsp)\n"                \
        "movups %xmm4,64(%rsp)\nmovups %xmm5,80(%rsp)\nmovups %xmm6,96(%rsp)\nmovups %xmm7,112(%rsp)\n"             \
        "mov %rdi,%rdx\nmov 8(%rbp),%rdi\nmov (%rbp),%rsi\ncall sim_access_point\n"                                                                                    \
        "movups (%rsp),%xmm0\nmovups 16(%rsp),%xmm1\nmovups 32(%rsp),%xmm2\nmovups 48(%rsp),%xmm3\n"                \
        "movups 64(%rsp),%xmm4\nmovups 80(%rsp),%xmm5\nmovups 96(%rsp),%xmm6\nmovups 112(%rsp),%xmm7\n"             \
        "lea -56(%rbp),%rsp\npop %rax\npop %r9\npop %r8\npop %rcx\npop %rdx\npop %rsi\npop %rdi\npop %rbp\n"         \
        "jmp " real "@PLT\n.size " name ",.-" name "\n");
#define ACC2(v, n) POINT("__tsan_" v "read" n, "__asan_load" n) POINT("__tsan_" v "write" n, "__asan_store" n)
#define ACC(n) ACC2("", n) ACC2("unaligned_", n) ACC2("volatile_", n) ACC2("unaligned_volatile_", n)
ACC("1") ACC("2") ACC("4") ACC("8") ACC("16")
POINT("__tsan_read_range", "__asan_loadN") POINT("__tsan_write_range", "__asan_storeN")
extern "C" void __tsan_func_entry(void*) {}
extern "C" void __tsan_func_exit() {}
extern "C" void __tsan_init() {}
extern "C" void __tsan_vptr_update(void*, void*) {}
#define FN(k) POINT("simp_" k, k)
FN("memset") FN("memcpy") FN("memmove") FN("memcmp") FN("memchr") FN("strlen") FN("strcpy") FN("strncpy") FN("strcat") FN("strncat")
FN("strcmp") FN("strncmp") FN("strchr") FN("strrchr") FN("strstr") FN("strtol") FN("strtoul") FN("strtod") FN("snprintf") FN("vsnprintf")
FN("sprintf") FN("vsprintf") FN("strtok") FN("isspace") FN("tolower") FN("toupper") FN("isdigit") FN("fputs") FN("fprintf") FN("fputc")
FN("fwrite") FN("putc") FN("sscanf")
// Atomic operations, should the library come to use them: one step each, sequentially consistent.
#define ATOMIC(n, T)                                                                                                  \
    extern "C" T __tsan_atomic##n##_load(const volatile T* a, int) { return __atomic_load_n(a, __ATOMIC_SEQ_CST); }   \
    extern "C" void __tsan_atomic##n##_store(volatile T* a, T v, int) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }   \
    extern "C" T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    extern "C" T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    extern "C" T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    extern "C" T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    extern "C" T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }   \
    extern "C" T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    extern "C" int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    extern "C" int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }   \
    extern "C" T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int, int) { __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}
