// Deterministic simulator core: choice tape, event log, allocation seam, disk seam,
// step counter, driver (search, replay, minimisation).
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choice tape
// Every decision of a run is draw(n): 0 <= result < n, 0 is the simplest choice.
uint64_t draw(uint64_t n);
bool chance(unsigned num, unsigned den);           // true with probability num/den (0 on the tape = false)
int64_t range(int64_t lo, int64_t hi);             // lo is the simplest
template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }

struct Rng {                                       // bulk data: derived from one drawn number
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

// ---------------------------------------------------------------- events
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void probe(const char* name);                      // "this rare condition was hit"
void nontrivial();                                 // marks the run as non-trivial (see Scenario::rule)
void signature(uint64_t h);                        // mixes h into the state/interleaving signature of the run
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
[[noreturn]] void finish();                        // ends the run without violation

enum Fault { F_OPEN, F_SHORTW, F_EINTRW, F_ENOSPC, F_EIOW, F_CLOSE, F_SHORTR, F_EINTRR, F_EIOR, F_EOFR, F_SEEK, F_OOM, F_CRASH, F_DAMAGE, F_LOCALE, F_PREEMPT, F_JUNK, F_N };
extern const char* const fault_name[F_N];
void fired(Fault f, unsigned n = 1);

// ---------------------------------------------------------------- running code under test
enum Outcome { OK, OOM, EXC };
struct SutScope { int prev; SutScope(); ~SutScope(); };
struct Quiet { int prev; Quiet(); ~Quiet(); };      // harness code called from inside a sut() call
void set_op(const char* op);
Outcome sut_call(const char* op, void (*fn)(void*), void* arg);
// Runs f as code under test. Allocation and disk faults are active only in here.
template <class F> Outcome sut(const char* op, F&& f)
{
    struct W { static void call(void* p) { (*static_cast<typename std::remove_reference<F>::type*>(p))(); } };
    return sut_call(op, &W::call, (void*)&f);
}
// same, but anything else than normal completion is a violation of class `crash`
template <class F> void must(const char* op, F&& f)
{
    Outcome o = sut(op, f);
    if (o != OK) fail("unexpected-exception", "%s threw %s although no allocation failed", op, o == OOM ? "bad_alloc" : "an exception");
}

void step_budget(uint64_t steps);                  // budget for each following sut() call (0: default)
uint64_t steps_last();                             // steps used by the last sut() call
uint64_t steps_total();

// ---------------------------------------------------------------- allocation seam
struct AllocStats { uint64_t count, bytes, live_blocks, live_bytes, peak_bytes; };
AllocStats alloc_stats();
void alloc_reset_counters();                       // count, bytes and peak since now
void alloc_fail(int64_t nth, int64_t howmany);     // in the next sut() call: allocations nth .. nth+howmany-1 fail (nth from 1, 0 = none)
bool alloc_fault_fired();                          // did the last sut() call see one fail?
uint64_t alloc_count_last();                       // allocations made by the last sut() call
void alloc_junk(unsigned mode, uint64_t seed);     // 0: 0xA5 pattern, 1: zero, 2: random bytes, 3: 0xFF
void alloc_pad(unsigned bytes);                    // extra bytes in front of every block (changes the address layout)
void alloc_limit(uint64_t bytes);                  // live bytes of code under test above this are a violation (0: default)
void stack_junk(unsigned mode, uint64_t seed);     // overwrite the free stack below

// ---------------------------------------------------------------- disk seam
struct IoPlan {
    int open_fail = 0;          // nth open fails (from 1)
    int open_errno = 0;
    int64_t werr_byte = -1;     // writing past this many bytes fails
    int werr_errno = 0;
    bool werr_persistent = true;
    bool short_w = false, eintr_w = false;
    int close_fail = 0;         // nth close fails (from 1)
    unsigned close_lose = 0;    // and loses this many bytes of the tail
    int64_t rerr_byte = -1;     // reading past this many bytes fails
    int rerr_errno = 0;
    bool rerr_persistent = true;
    int64_t reof_byte = -1;     // reads see end of file there
    bool short_r = false, eintr_r = false;
    int seek_fail = 0;          // nth seek fails
    unsigned maxchunk = 0;      // bound on short transfers
    uint64_t seed = 0;          // for lengths of short transfers
    bool benign() const { return !open_fail && werr_byte < 0 && !close_fail && rerr_byte < 0 && reof_byte < 0 && !seek_fail; }
};
struct JournalOp { char kind; std::string path, path2; int64_t off; std::string data; };  // T create/truncate, W write, R rename, U unlink, Z ftruncate, C close
struct Disk {
    IoPlan plan;
    bool journal_on = false;
    std::vector<JournalOp> journal;
    std::function<void()> on_io;                    // called before every disk call of code under test
    // observed
    uint64_t opens, closes, reads, writes, seeks, bytes_written, bytes_read;
    std::map<std::string, int> faulted;             // hard faults per path
    bool hard_fault;                                // a fault that is not merely a short/interrupted transfer fired
    void reset();                                   // clears plan, counters and journal
    void set(const IoPlan& p);                      // sets the plan and clears the counters
};
extern Disk disk;
const std::string& scratch();                      // directory of this run (ends with '/')
std::string scratch_file(const char* name);
void put_file(const std::string& path, const std::string& bytes);   // not seen by the seam
bool get_file(const std::string& path, std::string& bytes);
void del_file(const std::string& path);
int open_fds();                                    // descriptors of this process
typedef std::map<std::string, std::string> Snapshot;
// disk content after the first `nops` journal operations and `part` bytes of the next write
Snapshot crash_image(const Snapshot& before, const std::vector<JournalOp>& j, size_t nops, size_t part);

// ---------------------------------------------------------------- scenarios
struct Scenario {
    const char* property;
    void (*run)();
    uint64_t quick_runs, thorough_runs;
    const char* rule;       // how cases are made, what is non-trivial
    const char* real;       // components that ran real code
    const char* stub;       // components that ran a stub
    const char* steps_unit; // what simulated time is measured in
    uint64_t minutes_quick; // unused
};
struct Register { Register(const Scenario& s); };
uint64_t run_index();

extern int g_threads_build;                        // set by the thread runtime
}
