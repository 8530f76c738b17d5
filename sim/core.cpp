#include "core.h"
#include "internal.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <new>
#include <stdexcept>
#include <type_traits>
#include <unistd.h>
#include <alloca.h>
#include <sys/mman.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#endif
#endif
#ifdef SIM_ASAN
extern "C" void __asan_poison_memory_region(void const volatile*, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t);
extern "C" const char* __asan_get_report_description();
extern "C" int __asan_report_present();
#endif

namespace sim {

const char* const fault_name[F_N] = { "open_error", "short_write", "eintr_write", "enospc", "eio_write", "close_error", "short_read", "eintr_read", "eio_read", "early_eof", "seek_error", "alloc_failure", "crash_point", "stored_bytes_damage", "locale_switch", "preemption", "memory_junk_change" };

Slot* slot = nullptr;
unsigned char* cov_map = nullptr;
uint32_t cov_max = 0, cov_edges = 0;
int sut_depth = 0;
int g_threads_build = 0;

// ---------------------------------------------------------------- tape
static uint64_t rng_next()
{
    uint64_t& s = slot->seed_state;
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t draw(uint64_t n)
{
    if (n <= 1) return 0;
    if (n > 0xFFFFFFFFull) n = 0xFFFFFFFFull;
    if (slot->tape_len >= TAPE_MAX) return 0;
    uint64_t v;
    if (slot->tape_len < slot->tape_in) v = slot->tape[slot->tape_len] % n;
    else v = slot->replay ? 0 : rng_next() % n;
    slot->tape[slot->tape_len++] = (uint32_t)v;
    return v;
}
bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
int64_t range(int64_t lo, int64_t hi) { return hi <= lo ? lo : lo + (int64_t)draw((uint64_t)(hi - lo + 1)); }
uint64_t run_index() { return slot->run_index; }

// ---------------------------------------------------------------- log
uint64_t hash_bytes(const void* p, size_t n, uint64_t h)
{
    const unsigned char* c = (const unsigned char*)p;
    while (n >= 8) { uint64_t w; memcpy(&w, c, 8); h = (h ^ w) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; c += 8; n -= 8; }
    while (n--) { h = (h ^ *c++) * 1099511628211ull; }
    return h ^ (h >> 32);
}
static void vlog(const char* fmt, va_list ap)
{
    char buf[4096];
    int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
    if (n < 0) return;
    if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
    buf[n++] = '\n';
    slot->hash = hash_bytes(buf, n, slot->hash);
    if (slot->log_len + n < LOG_MAX) { memcpy(slot->log + slot->log_len, buf, n); slot->log_len += n; slot->log[slot->log_len] = 0; }
}
void log(const char* fmt, ...)
{
    Quiet q;
    va_list ap; va_start(ap, fmt); vlog(fmt, ap); va_end(ap);
}
static void set_violation(const char* cls, const char* msg)
{
    if (slot->state != S_RUNNING) return;
    snprintf(slot->cls, sizeof slot->cls, "%s", cls);
    snprintf(slot->msg, sizeof slot->msg, "%s", msg);
    slot->state = S_VIOLATION;
}
void fail(const char* cls, const char* fmt, ...)
{
    sut_depth = 0;
    char buf[1800];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    log("VIOLATION %s: %s", cls, buf);
    set_violation(cls, buf);
    _exit(70);
}
void finish()
{
    if (slot->state == S_RUNNING) slot->state = S_DONE;
    _exit(0);
}
void probe(const char* name)
{
    for (int i = 0; i < NPROBE; i++) {
        if (!slot->probes[i].name[0]) snprintf(slot->probes[i].name, sizeof slot->probes[i].name, "%s", name);
        if (!strncmp(slot->probes[i].name, name, sizeof slot->probes[i].name - 1)) { slot->probes[i].n++; return; }
    }
}
void nontrivial() { slot->nontrivial = 1; }
void signature(uint64_t h) { slot->sig = hash_bytes(&h, 8, slot->sig); }
void fired(Fault f, unsigned n) { slot->faults[f] += n; }

// ---------------------------------------------------------------- code under test
static uint64_t budget_default = 150u * 1000 * 1000, budget = 0, steps_begin = 0, steps_used = 0, steps_limit = ~0ull;
static uint64_t steps = 0;
void step_budget(uint64_t s) { budget = s; }
uint64_t steps_last() { return steps_used; }
uint64_t steps_total() { return steps; }
void set_op(const char* op) { if (slot) snprintf(slot->op, sizeof slot->op, "%s", op); }

static bool budget_fired = false;
static void check_steps()
{
    if (steps > steps_limit && !budget_fired) {
        budget_fired = true;
        fail("hang", "%s did not terminate within %llu steps", slot->op, (unsigned long long)(steps_limit - steps_begin));
    }
}

#ifdef SIM_THREADS
void thread_steps(uint64_t n) { steps += n; if (steps > steps_limit) check_steps(); }
void thread_budget(uint64_t n) { steps_limit = n ? steps + n : ~0ull; }
#endif
SutScope::SutScope() : prev(sut_depth) { sut_depth = 1; }
SutScope::~SutScope() { sut_depth = prev; }
Quiet::Quiet() : prev(sut_depth) { sut_depth = 0; }
Quiet::~Quiet() { sut_depth = prev; }

// allocation state
static uint64_t a_count, a_bytes, a_live_blocks, a_live_bytes, a_peak;
static int64_t fail_from = 0, fail_n = 0, fail_seen = 0;
static uint64_t call_allocs = 0;
static bool fault_fired = false;
static unsigned junk_mode = 0; static uint64_t junk_seed = 1;
static unsigned pad = 0;
static uint64_t live_limit_default = 3ull << 30, live_limit = 3ull << 30;
static bool limit_hit = false;

Outcome sut_call(const char* op, void (*fn)(void*), void* arg)
{
    set_op(op);
    uint64_t lim = budget ? budget : budget_default;
    steps_begin = steps; steps_limit = steps + lim;
    fail_seen = 0; fault_fired = false; call_allocs = 0; limit_hit = false;
    Outcome r = OK;
    int prev = sut_depth;
    sut_depth = 1;
    try { fn(arg); }
    catch (const std::bad_alloc&) { sut_depth = prev; r = OOM; }
    catch (const std::exception& e) { sut_depth = prev; r = EXC; log("%s threw: %s", op, e.what()); }
    sut_depth = prev;
    steps_used = steps - steps_begin; steps_limit = ~0ull;
    slot->steps = steps;
    fail_from = fail_n = 0;
    if (r == OOM && !fault_fired) fail("unexpected-bad-alloc", "%s reported out of memory although no allocation failed", op);
    set_op("harness");
    return r;
}

// ---------------------------------------------------------------- allocation seam
AllocStats alloc_stats() { return { a_count, a_bytes, a_live_blocks, a_live_bytes, a_peak }; }
void alloc_reset_counters() { a_count = a_bytes = 0; a_peak = a_live_bytes; }
void alloc_fail(int64_t nth, int64_t howmany) { fail_from = nth; fail_n = howmany; }
bool alloc_fault_fired() { return fault_fired; }
uint64_t alloc_count_last() { return call_allocs; }
void alloc_junk(unsigned mode, uint64_t seed) { junk_mode = mode; junk_seed = seed | 1; }
void alloc_pad(unsigned b) { pad = (b + 15) & ~15u; }
void alloc_limit(uint64_t b) { live_limit = b ? b : live_limit_default; }

struct Hdr { uint64_t size; uint32_t pad; uint16_t kind; uint16_t sut; };   // 16 bytes
static_assert(sizeof(Hdr) == 16, "");
enum { K_NEW = 0x4E31, K_ARR = 0x4E41 };

static void fill_junk(void* p, size_t n)
{
    switch (junk_mode) {
    case 0: memset(p, 0xA5, n); break;
    case 1: memset(p, 0, n); break;
    case 3: memset(p, 0xFF, n); break;
    default: {
        unsigned char* c = (unsigned char*)p;
        uint64_t s = junk_seed;
        while (n >= 8) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; memcpy(c, &s, 8); c += 8; n -= 8; }
        while (n--) *c++ = (unsigned char)(s >>= 8);
        junk_seed = s * 6364136223846793005ull + 1442695040888963407ull; if (!junk_seed) junk_seed = 1;
    }
    }
}

#ifdef SIM_THREADS
// Memory of code under test: one region per thread at a fixed place, so that addresses follow from the calls alone.
namespace threads { int self(); }
enum { NREG = 6, NBIN = 4096 };
static const uintptr_t reg_base = 0x200000000000ull, reg_size = 1ull << 35;
static char* reg_next[NREG]; struct Bin { Bin* next; }; static Bin* bins[NREG][NBIN + 64];
uintptr_t main_region_lo() { return reg_base; }
uintptr_t main_region_hi() { return reg_base + reg_size; }
static unsigned bin_of(size_t& n)
{
    n = (n + 15) & ~(size_t)15; if (n / 16 < NBIN) return n / 16;
    unsigned b = 63 - __builtin_clzll(n - 1) + 1; n = (size_t)1 << b; return NBIN + b;
}
static char* region_alloc(size_t n)
{
    int r = threads::self() + 1;
    if (!reg_next[r]) { void* p = mmap((void*)(reg_base + r * reg_size), reg_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p == MAP_FAILED) return nullptr; reg_next[r] = (char*)p; }
    unsigned b = bin_of(n); if (Bin* x = bins[r][b]) { bins[r][b] = x->next; return (char*)x; }
    char* p = reg_next[r]; if (p + n > (char*)reg_base + (r + 1) * reg_size) return nullptr;
    reg_next[r] += n; return p;
}
static bool region_free(char* p, size_t n)
{
    uintptr_t a = (uintptr_t)p; if (a < reg_base || a >= reg_base + NREG * reg_size) return false;
    int r = (int)((a - reg_base) / reg_size); unsigned b = bin_of(n); ((Bin*)p)->next = bins[r][b]; bins[r][b] = (Bin*)p; return true;
}
static char* raw_alloc(bool in, size_t n) { return in ? region_alloc(n) : (char*)malloc(n); }
static void raw_free(char* p, size_t n) { if (!region_free(p, n)) free(p); }
#else
static char* raw_alloc(bool, size_t n) { return (char*)malloc(n); }
static void raw_free(char* p, size_t) { free(p); }
#endif
#ifdef SIM_ASAN
enum { TAIL = 0 };
#else
enum { TAIL = 32 };        // bytes behind each block of code under test: reading them is visible, writing them noticed
#endif
static unsigned tail_sum(const char* p) { uint64_t s = 7; for (int i = 0; i < TAIL; i++) s = s * 31 + (unsigned char)p[i]; return (unsigned)((s >> 7 ^ s) & 0x7FFF); }
static void* do_alloc(size_t n, int kind)
{
    bool in = sut_depth > 0;
    if (in) {
        call_allocs++; a_count++;
        if (fail_from > 0) {
            fail_seen++;
            if (fail_seen >= fail_from && fail_seen < fail_from + fail_n) {
                fault_fired = true;
                Quiet q;
                slot->faults[F_OOM]++;
                log("  [alloc %lld of %zu bytes fails]", (long long)fail_seen, n);
                return nullptr;
            }
        }
        if (n > (1ull << 40) || a_live_bytes + n > live_limit) {
            fail("memory-bound", "%s holds %llu bytes and asks for %zu more: bound is %llu", slot ? slot->op : "?", (unsigned long long)a_live_bytes, n, (unsigned long long)live_limit);
        }
    }
    char* base = raw_alloc(in && slot, n + sizeof(Hdr) + pad + TAIL);
    if (!base) return nullptr;
    char* p = base + pad + sizeof(Hdr);
    Hdr* h = (Hdr*)p - 1;
    h->size = n; h->kind = kind; h->sut = in; h->pad = pad;
    if (in) { a_bytes += n; a_live_blocks++; a_live_bytes += n; if (a_live_bytes > a_peak) a_peak = a_live_bytes; fill_junk(p, n + TAIL); }
    if (TAIL) h->sut |= tail_sum(p + n) << 1;
#ifdef SIM_ASAN
    __asan_poison_memory_region(base, pad + sizeof(Hdr));
#endif
    return p;
}
static void do_free(void* v, int kind, size_t sz, bool sized)
{
    if (!v) return;
    Hdr* h = (Hdr*)v - 1;
#ifdef SIM_ASAN
    __asan_unpoison_memory_region(h, sizeof(Hdr));
#endif
    if (h->kind != K_NEW && h->kind != K_ARR) {
        if (slot) fail("bad-free", "%s frees memory that is not a live block", slot->op);
        abort();
    }
    if (h->kind != kind && slot) fail("new-delete-mismatch", "%s releases memory with the wrong operator delete", slot->op);
    if (sized && sz != h->size && slot) fail("sized-delete-mismatch", "%s releases an object of %llu bytes as %zu bytes", slot->op, (unsigned long long)h->size, sz);
    if (TAIL && slot && (h->sut >> 1) != tail_sum((char*)v + h->size)) fail("memory-error:write-past-end", "memory behind a block of %llu bytes was written (noticed in %s)", (unsigned long long)h->size, slot->op);
    if (h->sut & 1) { a_live_blocks--; a_live_bytes -= h->size; }
    h->kind = 0;
    char* base = (char*)h - h->pad;
#ifdef SIM_ASAN
    __asan_unpoison_memory_region(base, h->pad);
    free(base);
#else
    // freed memory keeps a pattern for a while, so that using it shows the same way every time
    size_t whole = h->size + sizeof(Hdr) + h->pad + TAIL;
    if (!slot || h->size > (1u << 20)) { raw_free(base, whole); return; }
    memset(v, 0xDD, h->size);
    struct Q { char* base; Hdr* h; }; enum { NQ = 2048 }; static Q* q = (Q*)calloc(NQ, sizeof(Q)); static unsigned at = 0;
    Q old = q[at]; q[at] = { base, h }; at = (at + 1) % NQ;
    if (old.base) {
        const unsigned char* c = (const unsigned char*)(old.h + 1);
        for (uint64_t i = 0; i < old.h->size; i++) if (c[i] != 0xDD) fail("memory-error:write-after-free", "memory was written after it was released (noticed in %s)", slot->op);
        raw_free(old.base, old.h->size + sizeof(Hdr) + old.h->pad + TAIL);
    }
#endif
}
} // namespace sim

#ifndef SIM_NO_NEW
void* operator new(size_t n) { void* p = sim::do_alloc(n, sim::K_NEW); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = sim::do_alloc(n, sim::K_ARR); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::do_alloc(n, sim::K_NEW); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::do_alloc(n, sim::K_ARR); }
void operator delete(void* p) noexcept { sim::do_free(p, sim::K_NEW, 0, false); }
void operator delete[](void* p) noexcept { sim::do_free(p, sim::K_ARR, 0, false); }
void operator delete(void* p, size_t n) noexcept { sim::do_free(p, sim::K_NEW, n, true); }
void operator delete[](void* p, size_t) noexcept { sim::do_free(p, sim::K_ARR, 0, false); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::do_free(p, sim::K_NEW, 0, false); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::do_free(p, sim::K_ARR, 0, false); }
#endif

namespace sim {
__attribute__((noinline, no_sanitize("address"))) void stack_junk(unsigned mode, uint64_t seed)
{
    volatile unsigned char* p = (volatile unsigned char*)alloca(65536);
    uint64_t s = seed | 1;
    for (int i = 0; i < 65536; i++) {
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        p[i] = mode == 0 ? 0xA5 : mode == 1 ? 0 : mode == 3 ? 0xFF : (unsigned char)s;
    }
}

// ---------------------------------------------------------------- deaths
static void on_terminate()
{
    sut_depth = 0;
    if (slot) fail("terminate", "std::terminate called in %s", slot->op);
    _exit(70);
}
void core_child_init()
{
    std::set_terminate(on_terminate);
    steps = 0; a_count = a_bytes = a_peak = a_live_blocks = a_live_bytes = 0;
    disk_child_init();
}
} // namespace sim

extern "C" void __assert_fail(const char* expr, const char* file, unsigned line, const char* func) noexcept
{
    (void)line;
    sim::sut_depth = 0;
    const char* b = strrchr(file, '/');
    if (sim::slot) {
        char cls[160]; snprintf(cls, sizeof cls, "assert:%s", b ? b + 1 : file);
        sim::fail(cls, "assertion failed in %s: %s (%s)", sim::slot->op, expr, func);
    }
    fprintf(stderr, "%s:%u assert %s\n", file, line, expr);
    _exit(71);
}
namespace std { void __glibcxx_assert_fail(const char* file, int line, const char* func, const char* cond) noexcept
{
    (void)file; (void)line;
    sim::sut_depth = 0;
    if (sim::slot) sim::fail("assert:libstdc++", "library assertion failed in %s: %s (%s)", sim::slot->op, cond ? cond : "", func ? func : "");
    _exit(71);
} }
#ifdef SIM_ASAN
extern "C" void __asan_on_error()
{
    sim::sut_depth = 0;
    if (!sim::slot || sim::slot->state != sim::S_RUNNING) return;
    char cls[100];
    snprintf(cls, sizeof cls, "memory-error:%s", __asan_get_report_description());
    for (char* c = cls; *c; c++) if (*c == ' ' || *c == '\n') { *c = '-'; }
    // set directly: no exit here, the sanitizer ends the process
    sim::log("VIOLATION %s in %s", cls, sim::slot->op);
    sim::set_violation(cls, (std::string("memory error in ") + sim::slot->op).c_str());
    _exit(70);
}
extern "C" const char* __asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=0:exitcode=99:abort_on_error=0:quarantine_size_mb=16:detect_container_overflow=1:alloc_dealloc_mismatch=0"; }
#endif

// ---------------------------------------------------------------- steps and coverage
#ifndef SIM_NO_COV
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop)
{
    if (start == stop || *start) return;
    for (uint32_t* x = start; x < stop; x++) *x = ++sim::cov_edges;
}
extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc_guard(uint32_t* guard)
{
    if (!sim::sut_depth) return;
    ++sim::steps;
    if (sim::cov_map && *guard < sim::cov_max && !sim::cov_map[*guard]) sim::cov_map[*guard] = 1;
    if (sim::steps > sim::steps_limit) sim::check_steps();
}
#endif
