// Scheduler and the runtime that clang -fsanitize=thread calls (only as hooks: no race detector).
#include "threads.h"
#include "core.h"
#include "internal.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <clocale>
#include <malloc.h>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <string>
#include <unistd.h>

extern "C" char __data_start, _end;
namespace sim { void thread_steps(uint64_t n); void thread_budget(uint64_t n); uintptr_t main_region_lo(); uintptr_t main_region_hi(); }
namespace sim { namespace threads {
enum { MAXT = 4, SHADOW = 1 << 19 };
struct T { int id; pthread_t th; sem_t go; bool done, stalled; uintptr_t lo, hi; uint64_t count, budget; bool after; const std::function<void()>* body; char op[96]; const void* waits; };
static T th[MAXT]; static int nth = 0; static bool active = false; static sem_t all_done;
static thread_local T* me __attribute__((tls_model("initial-exec"))) = nullptr;
static uintptr_t data_lo, data_hi, heap_lo, heap_hi;
static unsigned hot_den = 4; static uint64_t base_max = 4096, hot_left = 0, nswitch = 0, stall_den = 0; static uint64_t order_hash = 0;
struct Cell { uintptr_t g; uint8_t t; uint8_t w; uint8_t multi; uint32_t ep; };
static Cell* shadow; static uint32_t epoch = 0; static uint64_t shadow_used = 0;

int self() { return me && active ? me->id : -1; }
uint64_t switches() { return nswitch; }
void set_op(const char* op) { if (me) snprintf(me->op, sizeof me->op, "%s", op); sim::set_op(op); }

static void go_to(T* t)
{
    T* s = me; int depth = sut_depth; char keep[sizeof slot->op]; memcpy(keep, slot->op, sizeof keep);
    nswitch++; fired(F_PREEMPT); order_hash = hash_bytes(&t->id, sizeof t->id, hash_bytes(&s->count, 8, order_hash));
    log("  [switch %d -> %d after %llu accesses, in %s]", s->id, t->id, (unsigned long long)s->count, s->op);
    sut_depth = 1; sim::set_op(t->op);
    sem_post(&t->go); while (sem_wait(&s->go)) {}
    sut_depth = depth; memcpy(slot->op, keep, sizeof keep);
}
static T* other(bool any_stalled)
{
    T* c[MAXT]; int n = 0;
    for (int i = 0; i < nth; i++) if (&th[i] != me && !th[i].done && !th[i].stalled && !th[i].waits) c[n++] = &th[i];
    if (!n && any_stalled) for (int i = 0; i < nth; i++) if (&th[i] != me && !th[i].done && !th[i].waits) { th[i].stalled = false; c[n++] = &th[i]; }
    if (!n) return nullptr;
    return c[n > 1 ? draw(n) : 0];
}
static void new_budget(T* t) { uint64_t v = draw(base_max); t->budget = v ? v * v / base_max + 1 : ~0ull; }
static void preempt()
{
    T* t = other(false); if (!t) return;
    if (stall_den && draw(stall_den) == 1) me->stalled = true;      // stays away until nobody else can run
    go_to(t);
}
void point(bool hot)
{
    if (!me || !active) return;
    if (hot) { if (hot_left) { hot_left--; if (draw(hot_den) == 1) preempt(); } return; }
    if (me->budget && --me->budget == 0) { new_budget(me); preempt(); }
}
// blocks the calling thread until `free` says so
template <class F> static void block(const void* what, F free)
{
    while (!free()) {
        me->waits = what; T* t = other(true);
        if (!t) fail("deadlock", "all threads wait, thread %d in %s", me->id, me->op);
        go_to(t); me->waits = nullptr;
    }
}
static void wake(const void* what) { for (int i = 0; i < nth; i++) if (th[i].waits == what) th[i].waits = nullptr; }

static inline bool foreign(T* s, uintptr_t a, bool w)
{
    if (a >= data_lo && a < data_hi) return w || true;
    if (a >= heap_lo && a < heap_hi && w) return true;
    uintptr_t g = a >> 3; size_t i = (g * 0x9E3779B97F4A7C15ull) >> 45;
    for (int k = 0; k < 16; k++, i = (i + 1) & (SHADOW - 1)) {
        Cell& c = shadow[i];
        if (c.ep != epoch) { if (shadow_used > SHADOW / 2) return false; shadow_used++; c.ep = epoch; c.g = g; c.t = s->id; c.w = w; c.multi = 0; return false; }
        if (c.g != g) continue;
        bool h = c.t != s->id && (c.w || w); 
        if (c.t != s->id) { c.multi = 1; c.t = s->id; }
        c.w |= w;
        return h || (c.multi && c.w);
    }
    return false;
}
static inline void access(const void* p, bool w)
{
    T* s = me; if (!s || !active) return;
    s->count++; thread_steps(1);
    if (s->after) { s->after = false; point(true); return; }
    uintptr_t a = (uintptr_t)p;
    if (a < s->lo || a >= s->hi) if (foreign(s, a, w)) { s->after = w; point(true); return; }
    if (--s->budget == 0) { new_budget(s); preempt(); }
}
static void* main_of(void* v)
{
    T* t = (T*)v; 
    pthread_attr_t at; void* sp; size_t sz; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &sp, &sz); pthread_attr_destroy(&at);
    t->lo = (uintptr_t)sp; t->hi = t->lo + sz;
    while (sem_wait(&t->go)) {}
    me = t;
    try { (*t->body)(); } catch (const std::exception& e) { sut_depth = 0; fail("unexpected-exception", "thread %d: %s threw %s", t->id, t->op, e.what()); }
    me->done = true;
    T* n = other(true);
    if (n) { sut_depth = 1; log("  [thread %d is done]", t->id); sem_post(&n->go); }
    else { for (int i = 0; i < nth; i++) if (!th[i].done) fail("deadlock", "thread %d waits for ever in %s", i, th[i].op); me = nullptr; sem_post(&all_done); }
    me = nullptr;
    return nullptr;
}
void run(const std::vector<std::function<void()>>& bodies)
{
    if (!shadow) shadow = (Cell*)calloc(SHADOW, sizeof(Cell));
    epoch++; shadow_used = 0; nth = (int)bodies.size(); nswitch = 0; order_hash = 0;
    // what kind of schedule
    static const unsigned hd[] = { 4, 2, 16, 64, 1024 }; static const uint64_t bm[] = { 65536, 1024, 4096, 1u << 20, 128 };
    hot_den = hd[draw(5)]; base_max = bm[draw(5)]; stall_den = draw(3) ? 0 : 8; hot_left = 6000;
    data_lo = (uintptr_t)&__data_start; data_hi = (uintptr_t)&_end; heap_lo = main_region_lo(); heap_hi = main_region_hi();
    sem_init(&all_done, 0, 0);
    for (int i = 0; i < nth; i++) { T& t = th[i]; t.id = i; t.done = t.stalled = t.after = false; t.count = 0; t.waits = nullptr; t.body = &bodies[i]; snprintf(t.op, sizeof t.op, "start"); sem_init(&t.go, 0, 0); new_budget(&t); }
    int first = (int)draw(nth); int depth = sut_depth;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
    for (int i = 0; i < nth; i++) if (pthread_create(&th[i].th, &at, main_of, &th[i])) { perror("pthread_create"); _exit(72); }
    active = true; sut_depth = 1; thread_budget(400u * 1000 * 1000);
    disk.on_io = [] { point(true); };
    sem_post(&th[first].go);
    while (sem_wait(&all_done)) {}
    active = false; thread_budget(0); sut_depth = depth; disk.on_io = nullptr; sim::set_op("harness");
    for (int i = 0; i < nth; i++) pthread_join(th[i].th, nullptr);
    signature(order_hash);
}
struct Init { Init() { g_threads_build = 1; mallopt(M_MMAP_THRESHOLD, 256 << 10); } } init_;
}}
using namespace sim::threads;
static bool simulated() { return me && active; }
template <class F> static F next(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

// ---------------------------------------------------------------- locks and hidden state of the C library
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    static auto f = next<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    if (!simulated()) return f(m);
    point(true); int r = 0; block(m, [&] { r = pthread_mutex_trylock(m); return r != 16; }); return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    static auto f = next<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    int r = f(m); if (simulated()) { wake(m); point(true); } return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept
{
    static auto f = next<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
    if (!simulated()) return f(m);
    point(true); int r = 0; block(m, [&] { r = pthread_rwlock_tryrdlock(m); return r != 16; }); return r;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept
{
    static auto f = next<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
    if (!simulated()) return f(m);
    point(true); int r = 0; block(m, [&] { r = pthread_rwlock_trywrlock(m); return r != 16; }); return r;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept
{
    static auto f = next<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
    int r = f(m); if (simulated()) { wake(m); point(true); } return r;
}
// std::call_once and function-local statics; a control value of 2 is what glibc uses for "done"
static std::map<const void*, int>& pending() { static std::map<const void*, int>* m; if (!m) m = new std::map<const void*, int>; return *m; }
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
    static auto f = next<int (*)(pthread_once_t*, void (*)(void))>("pthread_once");
    if (!simulated()) return f(o, fn);
    point(true);
    block(o, [&] { return !pending().count(o); });
    if (*o == 2) return 0;
    pending()[o] = me->id;
    try { fn(); } catch (...) { pending().erase(o); wake(o); throw; }
    *o = 2; pending().erase(o); wake(o); point(true);
    return 0;
}
int __cxa_guard_acquire(char* g)
{
    if (simulated()) { point(true); block(g, [&] { return !pending().count(g); }); }
    if (*g) return 0;
    if (simulated()) pending()[g] = me->id;
    return 1;
}
void __cxa_guard_release(char* g) { *g = 1; if (simulated()) { pending().erase(g); wake(g); point(true); } }
void __cxa_guard_abort(char* g) { if (simulated()) { pending().erase(g); wake(g); } }
int rand() noexcept { static auto f = next<int (*)()>("rand"); point(true); int r = f(); point(true); return r; }
void srand(unsigned s) noexcept { static auto f = next<void (*)(unsigned)>("srand"); point(true); f(s); point(true); }
long random() noexcept { static auto f = next<long (*)()>("random"); point(true); long r = f(); point(true); return r; }
void srandom(unsigned s) noexcept { static auto f = next<void (*)(unsigned)>("srandom"); point(true); f(s); point(true); }
char* strtok(char* s, const char* d) noexcept { static auto f = next<char* (*)(char*, const char*)>("strtok"); point(true); char* r = f(s, d); point(true); return r; }
char* setlocale(int c, const char* l) noexcept { static auto f = next<char* (*)(int, const char*)>("setlocale"); point(true); char* r = f(c, l); point(true); return r; }
struct tm* localtime(const time_t* t) noexcept { static auto f = next<tm* (*)(const time_t*)>("localtime"); point(true); tm* r = f(t); point(true); return r; }
struct tm* gmtime(const time_t* t) noexcept { static auto f = next<tm* (*)(const time_t*)>("gmtime"); point(true); tm* r = f(t); point(true); return r; }
int chdir(const char* p) noexcept { static auto f = next<int (*)(const char*)>("chdir"); point(true); int r = f(p); point(true); return r; }

// ---------------------------------------------------------------- hooks of the compiler
#define ACC(n) \
    void __tsan_read##n(void* p) { access(p, false); } void __tsan_write##n(void* p) { access(p, true); } \
    void __tsan_unaligned_read##n(void* p) { access(p, false); } void __tsan_unaligned_write##n(void* p) { access(p, true); } \
    void __tsan_volatile_read##n(void* p) { access(p, false); } void __tsan_volatile_write##n(void* p) { access(p, true); } \
    void __tsan_unaligned_volatile_read##n(void* p) { access(p, false); } void __tsan_unaligned_volatile_write##n(void* p) { access(p, true); } \
    void __tsan_read_write##n(void* p) { access(p, true); } void __tsan_unaligned_read_write##n(void* p) { access(p, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, size_t) { access(p, false); }
void __tsan_write_range(void* p, size_t) { access(p, true); }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, true); }
void __tsan_vptr_read(void** p) { access(p, false); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, false); access(d, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, false); access(d, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, true); return memset(d, c, n); }
#define ATOM(b, T) \
    T __tsan_atomic##b##_load(const volatile T* a, int) { point(true); return __atomic_load_n(a, 5); } \
    void __tsan_atomic##b##_store(volatile T* a, T v, int) { point(true); __atomic_store_n(a, v, 5); point(true); } \
    T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { point(true); T r = __atomic_exchange_n(a, v, 5); point(true); return r; } \
    T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { point(true); return __atomic_fetch_add(a, v, 5); } \
    T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { point(true); return __atomic_fetch_sub(a, v, 5); } \
    T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { point(true); return __atomic_fetch_and(a, v, 5); } \
    T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { point(true); return __atomic_fetch_or(a, v, 5); } \
    T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { point(true); return __atomic_fetch_xor(a, v, 5); } \
    T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int) { point(true); return __atomic_fetch_nand(a, v, 5); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { point(true); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { point(true); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int, int) { point(true); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) { point(true); }
void __tsan_atomic_signal_fence(int) {}
}
