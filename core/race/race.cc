// not instrumented
#include "race.hh"
#include <dlfcn.h>
#include <cxxabi.h>
#include <malloc.h>
#include <pthread.h>
#include <cstdlib>
#include <cstring>
#include <utility>
#include <new>
#include <thread>
namespace {
bool g_active = false;       // inside a task
int g_task = -1;
int g_ignore = 0;
bool g_epoch = false;
uintptr_t g_tls = 0;
uintptr_t g_lo = 0, g_hi = 0;   // the task's own part of the stack
uint64_t n_acc = 0, n_lock = 0;
constexpr int MAXF = 4096;
uintptr_t g_fn[MAXF];
int g_depth = 0;
uint32_t g_held = 0;         // set of held locks
void *g_lock[32];
int g_nlock = 0;
int bit(void *m) {
    for (int i = 0; i < g_nlock; i++) if (g_lock[i] == m) return i;
    if (g_nlock == 32) abort();
    g_lock[g_nlock] = m;
    return g_nlock++;
}
// a task starts after it was handed out: only what the handing thread does later is concurrent with it
bool concurrent(int a, int b) {
    if (a > 0 && b > 0) return a != b;
    if (a <= 0 && b <= 0) return false;
    if (a <= 0) std::swap(a, b);
    return -b >= a;
}
struct Acc { int task; bool w; uint32_t held; uintptr_t fn; };
// open addressing table: byte address -> a few distinct accesses; no allocation through operator new
struct Cell { uintptr_t addr; int n; Acc a[8]; };
Cell *g_tab = nullptr;
size_t g_cap = 0, g_used = 0;
Cell *find(Cell *t, size_t cap, uintptr_t a) {
    size_t i = (a * 0x9e3779b97f4a7c15ull) >> 20 & (cap - 1);
    while (t[i].addr && t[i].addr != a) i = (i + 1) & (cap - 1);
    return &t[i];
}
void grow() {
    size_t nc = g_cap ? g_cap * 2 : 1 << 16;
    Cell *t = (Cell *)calloc(nc, sizeof(Cell));
    for (size_t i = 0; i < g_cap; i++) if (g_tab[i].addr) *find(t, nc, g_tab[i].addr) = g_tab[i];
    free(g_tab);
    g_tab = t; g_cap = nc;
}
struct Conf { uintptr_t fa, fb, addr; bool wa, wb; };
Conf *g_conf = nullptr;
int g_nconf = 0;
void **g_quar = nullptr;
size_t g_nquar = 0, g_cquar = 0;
inline void record(uintptr_t p, size_t n, bool w) {
    n_acc++;
    if (p >= g_lo && p < g_hi) return;
    if (p - g_tls < 0x3000) return;     // every thread has its own
    uintptr_t fn = g_depth ? g_fn[(g_depth < MAXF ? g_depth : MAXF) - 1] : 0;
    for (size_t k = 0; k < n; k++) {
        if ((g_used + 1) * 2 > g_cap) grow();
        Cell *c = find(g_tab, g_cap, p + k);
        if (!c->addr) { c->addr = p + k; g_used++; }
        bool same = false;
        for (int i = 0; i < c->n; i++) {
            Acc &o = c->a[i];
            if (o.task == g_task && o.w == w && o.held == g_held) { same = true; continue; }
            if (concurrent(o.task, g_task) && (o.w || w) && !(o.held & g_held) && g_nconf < 4096) {
                bool dup = false;
                for (int q = 0; q < g_nconf; q++) if (g_conf[q].fa == o.fn && g_conf[q].fb == fn) { dup = true; break; }
                if (!dup) g_conf[g_nconf++] = {o.fn, fn, p + k, o.w, w};
            }
        }
        if (!same && c->n < 8) c->a[c->n++] = {g_task, w, g_held, fn};
    }
}
inline void acc(void *p, size_t n, bool w) { if (g_active && !g_ignore) record((uintptr_t)p, n, w); }
std::string name(uintptr_t fn) {
    Dl_info d;
    if (fn && dladdr((void *)(fn - 1), &d) && d.dli_sname) {
        int st = 0;
        char *m = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
        std::string r = st == 0 && m ? m : d.dli_sname;
        free(m);
        return r;
    }
    return "?";
}
}  // namespace
namespace race {
void begin_epoch() {
    if (!g_conf) g_conf = (Conf *)calloc(4096, sizeof(Conf));
    // the library takes shortcuts while the process has a single thread
    static bool once = [] { std::thread t([] {}); t.join(); return true; }();
    (void)once;
    if (g_tab) memset(g_tab, 0, g_cap * sizeof(Cell));
    g_used = 0; g_nconf = 0; g_nlock = 0;
    g_epoch = true;
}
void begin_task(int id) {
    g_task = id;
    pthread_attr_t at;
    void *base; size_t sz;
    static thread_local uintptr_t lo = 0;
    if (!lo) { pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &base, &sz); pthread_attr_destroy(&at); lo = (uintptr_t)base; }
    g_lo = lo;
    g_tls = (uintptr_t)__builtin_thread_pointer() - 0x2000;
    g_hi = (uintptr_t)__builtin_frame_address(0);
    g_depth = 0; g_held = 0; g_ignore = 0;
    g_active = true;
}
void begin_main(int pushed) { begin_task(-pushed); }
void end_task() { g_active = false; }
std::vector<Conflict> end_epoch() {
    g_active = false; g_epoch = false;
    std::vector<Conflict> r;
    std::set<std::string> seen;
    for (int i = 0; i < g_nconf; i++) {
        Conflict c{name(g_conf[i].fa), name(g_conf[i].fb), g_conf[i].wa, g_conf[i].wb, g_conf[i].addr};
        if (seen.insert(c.a + "|" + c.b).second) r.push_back(c);
    }
    for (size_t i = 0; i < g_nquar; i++) free(g_quar[i]);
    g_nquar = 0;
    return r;
}
uint64_t accesses() { return n_acc; }
uint64_t locks() { return n_lock; }
}  // namespace race
// memory stays allocated until the epoch ends, so that no two tasks are given the same address
void *operator new(size_t n) {
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept {
    if (!p) return;
    if (g_epoch) {
        if (g_nquar == g_cquar) { g_cquar = g_cquar ? g_cquar * 2 : 4096; g_quar = (void **)realloc(g_quar, g_cquar * sizeof(void *)); }
        g_quar[g_nquar++] = p;
        return;
    }
    free(p);
}
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) { if (g_active) { if (g_depth < MAXF) g_fn[g_depth] = (uintptr_t)__builtin_return_address(0); g_depth++; } }
void __tsan_func_exit() { if (g_active && g_depth) g_depth--; }
#define RW(n) \
    void __tsan_read##n(void *p) { acc(p, n, false); } \
    void __tsan_write##n(void *p) { acc(p, n, true); } \
    void __tsan_unaligned_read##n(void *p) { acc(p, n, false); } \
    void __tsan_unaligned_write##n(void *p) { acc(p, n, true); } \
    void __tsan_volatile_read##n(void *p) { acc(p, n, false); } \
    void __tsan_volatile_write##n(void *p) { acc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { acc(p, n, false); }
void __tsan_write_range(void *p, size_t n) { acc(p, n, true); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) acc(p, 8, true); }
void __tsan_vptr_read(void **p) { acc(p, 8, false); }
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T *a, int) { return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##b##_store(volatile T *a, T v, int) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int, int) { __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
// one-time initialisation of function statics orders everyone after it
int __real___cxa_guard_acquire(uint64_t *g);
void __real___cxa_guard_release(uint64_t *g);
int __wrap___cxa_guard_acquire(uint64_t *g) { int r = __real___cxa_guard_acquire(g); if (r) g_ignore++; return r; }
void __wrap___cxa_guard_release(uint64_t *g) { __real___cxa_guard_release(g); if (g_ignore) g_ignore--; }
int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __real_pthread_mutex_unlock(pthread_mutex_t *m);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (g_active) { n_lock++; int b = bit(m); g_held |= 1u << b; }
    return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (g_active) { int b = bit(m); g_held &= ~(1u << b); }
    return __real_pthread_mutex_unlock(m);
}
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (g_active) { acc((void *)s, n, false); acc(d, n, true); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (g_active) { acc((void *)s, n, false); acc(d, n, true); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (g_active) acc(d, n, true); return __real_memset(d, c, n); }
}
