// One program of library calls executed several times: by two separately built modules, over different
// memory contents, address layouts, clocks and random generators, with and without unrelated activity.
#include "core.h"
#include "mod_c16.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <dirent.h>
using namespace sim;
static std::vector<Module*> mods;
static const char* const mname[] = { "module with pattern-filled stack", "module with zeroed stack" };
enum { REBUILD = 1, IO = 8, READ = 4, DISTINCT = 32, SAVE = 128, LOAD = 256 };
static const char* const kname[] = { "none", "mesh", "curve", "surface", "solid", "smooth mesh", "image", "polyline" };

// ---------------------------------------------------------------- clocks and random generators seen by code under test
namespace sim { extern int sut_depth; }
static uint64_t env_state = 1, env_seen = 0;
static uint64_t env_next() { env_seen++; env_state += 0x9E3779B97F4A7C15ull; uint64_t z = env_state; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
template <class F> static F real(const char* n) { static F f = (F)dlsym(RTLD_NEXT, n); return f; }
extern "C" {
int clock_gettime(clockid_t c, struct timespec* t) noexcept { static auto f = (int (*)(clockid_t, timespec*))dlsym(RTLD_NEXT, "clock_gettime"); if (!sut_depth) return f(c, t); t->tv_sec = env_next() % 4000000000u; t->tv_nsec = env_next() % 1000000000u; return 0; }
int gettimeofday(struct timeval* t, void* z) noexcept { static auto f = (int (*)(timeval*, void*))dlsym(RTLD_NEXT, "gettimeofday"); if (!sut_depth) return f(t, z); t->tv_sec = env_next() % 4000000000u; t->tv_usec = env_next() % 1000000u; return 0; }
time_t time(time_t* t) noexcept { static auto f = (time_t(*)(time_t*))dlsym(RTLD_NEXT, "time"); if (!sut_depth) return f(t); time_t v = env_next() % 4000000000u; if (t) *t = v; return v; }
clock_t clock() noexcept { static auto f = (clock_t(*)())dlsym(RTLD_NEXT, "clock"); if (!sut_depth) return f(); return env_next() % 1000000000u; }
int rand() noexcept { static auto f = (int (*)())dlsym(RTLD_NEXT, "rand"); if (!sut_depth) return f(); return env_next() & 0x7FFFFFFF; }
long random() noexcept { static auto f = (long (*)())dlsym(RTLD_NEXT, "random"); if (!sut_depth) return f(); return env_next() & 0x7FFFFFFF; }
double drand48() noexcept { static auto f = (double (*)())dlsym(RTLD_NEXT, "drand48"); if (!sut_depth) return f(); return (env_next() >> 11) * (1.0 / 9007199254740992.0); }
pid_t getpid() noexcept { static auto f = (pid_t(*)())dlsym(RTLD_NEXT, "getpid"); if (!sut_depth) return f(); return 1 + env_next() % 60000; }
}
namespace sim {
void scenario_warmup()
{
    const char* e = getenv("SIM_MODULES"); if (!e) { fprintf(stderr, "SIM_MODULES is not set\n"); exit(2); }
    std::string s = e; size_t c = s.find(':'); std::string f[2] = { s.substr(0, c), s.substr(c + 1) };
    for (auto& p : f) { void* h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(2); } auto fn = (Module * (*)()) dlsym(h, "sim_module"); if (!fn) { fprintf(stderr, "no sim_module\n"); exit(2); } mods.push_back(fn()); }
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t); timeval v; gettimeofday(&v, nullptr); time(nullptr); clock(); rand(); random(); drand48(); getpid();
}
}
// ---------------------------------------------------------------- programs
struct Step { int what; ModArgs g; };              // 0 operation, 1 renew object g.a of kind g.n
static const ModDef& def(const ModArgs& g) { return mods[0]->def[g.op]; }
static std::vector<int> select(unsigned need, int out = -1, bool noin = false) { std::vector<int> v; for (int i = 0; i < mods[0]->ops; i++) { auto& d = mods[0]->def[i]; if ((d.flags & need) == need && (out < 0 || d.out == out) && (!noin || !d.in1)) v.push_back(i); } return v; }
static ModArgs draw_op(const std::vector<int>& from)
{
    ModArgs g; memset(&g, 0, sizeof g); g.op = from[draw(from.size())]; int S = mods[0]->slots;
    g.o = (int)draw(S); g.a = (int)draw(S); g.b = (int)draw(S); g.n = (int)draw(12); g.m = (int)draw(12);
    g.x = 0.5 + draw(24) * 0.25; g.y = 0.5 + draw(24) * 0.25; g.z = 0.5 + draw(24) * 0.25; g.seed = draw(1u << 20); g.file = (int)draw(3);
    auto& d = def(g);
    if (d.flags & DISTINCT) { if (d.in1 == d.out && g.a == g.o) g.a = (g.o + 1) % S; if (d.in2 == d.out && g.b == g.o) g.b = (g.o + 1) % S; }
    return g;
}
static std::string show(const Step& s)
{
    char b[240]; const ModArgs& g = s.g;
    if (s.what) snprintf(b, sizeof b, "new %s %d", kname[g.n], g.a);
    else snprintf(b, sizeof b, "%s [%s%d of %s%d %s%d n=%d m=%d x=%g y=%g z=%g seed=%llu file=%d]", def(g).name, kname[def(g).out], g.o, kname[def(g).in1], g.a, kname[def(g).in2], g.b, g.n, g.m, g.x, g.y, g.z, (unsigned long long)g.seed, g.file);
    return b;
}
struct Config { int mod, junk; unsigned pad; uint64_t jseed; bool holes; int before; bool between, disk; unsigned env; };
struct Rec { std::vector<uint64_t> v; std::map<std::string, std::string> files; };
static void clear_dir(const std::string& d) { for (int i = 0; i < 6; i++) { del_file(d + "q" + std::to_string(i)); } }
static IoPlan benign(uint64_t seed) { IoPlan p; p.short_w = p.short_r = seed & 1; p.maxchunk = 1 + seed % 700; p.seed = seed; return p; }

static void activity(Module& m, void*& w, const std::string& dir, int n, uint64_t& sg)
{
    static std::vector<int> any; if (any.empty()) any = select(0);
    for (int i = 0; i < n; i++) {
        if (!w || draw(16) == 15) { if (w) must("destroy objects", [&] { m.free(w); }); w = nullptr; must("construct objects", [&] { w = m.make(7, dir.c_str()); }); }
        ModArgs g = draw_op(any); unsigned fate = (unsigned)draw(8);
        if (fate == 7) alloc_fail(1 + (int64_t)draw(40), draw(3) == 2 ? 1 << 30 : 1);
        IoPlan p; if (fate == 6 && (def(g).flags & IO)) { if (draw(2)) { p.werr_byte = (int64_t)draw(2000); p.werr_errno = 28; } else p.reof_byte = (int64_t)draw(500); }
        disk.set(p);
        Outcome o = sut(def(g).name, [&] { m.exec(w, &g); });
        disk.set(IoPlan());
        if (o == EXC) fail("unexpected-exception", "%s threw", def(g).name);
        log("    (elsewhere: %s%s)", def(g).name, o == OOM ? ", out of memory" : "");
        sg = sg * 31 + g.op;
    }
}
static Rec execute(const std::vector<Step>& prog, uint64_t wseed, const Config& c, const Rec* ref)
{
    Module& m = *mods[c.mod]; Rec r; std::string dir = scratch() + "w/", other = scratch() + "o/"; uint64_t sg = c.mod;
    static bool made = false; if (!made) { made = true; std::string a = dir, b = other; a.pop_back(); b.pop_back(); if (system(("mkdir -p " + a + " " + b).c_str())) _exit(72); }
    clear_dir(dir); clear_dir(other);
    alloc_junk(c.junk, c.jseed); alloc_pad(c.pad); env_state = c.env; fired(F_JUNK);
    log("  execution by the %s, heap junk %d, %u bytes between blocks%s, %d calls before%s%s", mname[c.mod], c.junk, c.pad, c.holes ? ", scattered free blocks" : "", c.before, c.between ? ", activity in between" : "", c.disk ? ", short transfers" : "");
    std::vector<void*> hold; void* ow = nullptr;
    if (c.holes) { Rng q(c.jseed); for (int i = 0; i < 400; i++) hold.push_back(malloc(16 + q.below(700))); for (int i = 399; i > 0; i--) std::swap(hold[i], hold[q.below(i + 1)]); for (int i = 0; i < 400; i++) if (q.below(3)) { free(hold[i]); hold[i] = nullptr; } }
    if (c.before) activity(m, ow, other, c.before, sg);
    void* w = nullptr; must("construct objects", [&] { w = m.make(wseed, dir.c_str()); });
    auto put = [&](uint64_t v, const Step* s, const char* what) {
        size_t i = r.v.size(); r.v.push_back(v);
        if (ref && (i >= ref->v.size() || ref->v[i] != v)) fail("not-repeatable", "%s %s differs between two executions", s ? (s->what ? "new" : def(s->g).name) : "the program", what);
    };
    for (size_t i = 0; i < prog.size(); i++) {
        const Step& s = prog[i];
        if (c.between && draw(2)) activity(m, ow, other, 1 + (int)draw(2), sg);
        stack_junk(c.junk, c.jseed + i);
        if (s.what) { must("renew", [&] { m.renew(w, s.g.n, s.g.a); }); continue; }
        uint64_t v = 0; disk.set(c.disk ? benign(c.jseed + i) : IoPlan());
        must(def(s.g).name, [&] { v = m.exec(w, &s.g); });
        disk.set(IoPlan());
        put(v, &s, "returned a value that");
        if (def(s.g).out) { uint64_t h = 0; must("read object", [&] { h = m.obj(w, def(s.g).out, s.g.o); }); put(h, &s, "made an object that"); }
        if (def(s.g).flags & SAVE || (def(s.g).flags & IO && def(s.g).flags & READ)) for (int k = 0; k < 6; k++) {
            std::string n = "q" + std::to_string(k), b; bool have = get_file(dir + n, b);
            put(have ? hash_bytes(b.data(), b.size()) : 0, &s, "wrote a file that");
        }
    }
    uint64_t h = 0; must("read objects", [&] { h = m.all(w); }); put(h, nullptr, "left objects whose state");
    must("destroy objects", [&] { m.free(w); if (ow) m.free(ow); });
    for (void* p : hold) free(p);
    signature(sg);
    return r;
}
static void run()
{
    std::vector<Step> prog; int n = 1 + (int)draw(14); const std::vector<int> any = select(0), rd = select(READ), saves = select(SAVE), loads = select(LOAD);
    for (int k = 1; k < mods[0]->kinds; k++) { int c = (int)draw(3); auto from = select(REBUILD, k, true); std::vector<int> f; for (int i : from) if (!(mods[0]->def[i].flags & IO)) f.push_back(i); if (f.empty()) continue; for (int j = 0; j < c; j++) { Step s{ 0, draw_op(f) }; s.g.o = j; prog.push_back(s); } }
    for (int i = 0; i < n; i++) { if (draw(10) == 9) { Step s; memset(&s, 0, sizeof s); s.what = 1; s.g.n = 1 + (int)draw(mods[0]->kinds - 1); s.g.a = (int)draw(mods[0]->slots); prog.push_back(s); } if (draw(6) == 5) { Step q{ 0, draw_op(saves) }; prog.push_back(q); const char* what = strchr(def(q.g).name, ' '); for (int l : loads) if (strchr(mods[0]->def[l].name, ' ') && !strcmp(strchr(mods[0]->def[l].name, ' '), what)) { Step x{ 0, draw_op({ l }) }; x.g.file = q.g.file; prog.push_back(x); } continue; } prog.push_back({ 0, draw_op(draw(3) == 2 ? rd : any) }); }
    uint64_t ws = draw(1u << 20); uint64_t sg = ws;
    for (auto& s : prog) { log("%s", show(s).c_str()); sg = sg * 33 + s.g.op; }
    Config a; memset(&a, 0, sizeof a); a.env = 1;
    Rec ref = execute(prog, ws, a, nullptr);
    int more = 1 + (int)draw(2); unsigned seen = env_seen;
    for (int k = 0; k < more; k++) {
        Config c; c.mod = draw(4) ? 1 : 0; c.junk = (int)draw(4); c.pad = (unsigned)draw(20) * 16; c.jseed = draw(1u << 20); c.holes = draw(2); c.before = draw(2) ? (int)draw(8) : 0; c.between = draw(3) == 2; c.disk = draw(2); c.env = 1 + (unsigned)draw(1u << 20);
        execute(prog, ws, c, &ref);
    }
    (void)seen; if (env_seen) probe("code under test asked for the time or a random number");
    nontrivial(); signature(sg);
}
static Register reg({ "C16", run, 24000, 300000,
    "seeded search: one drawn program of library operations over a world of objects and files is executed two or three times: by a module built with pattern-filled and one built with zeroed automatic variables, over different contents of fresh heap memory and of the stack below, different distances and order of blocks, different clocks and random generators, complete and short disk transfers, after and in between unrelated operations (some running out of memory or hitting disk errors) on other objects. Every returned value, every object after each operation and every file must be bitwise the same. Non-trivial: always",
    "all of src reached by the operations of sim/ops.h", "allocator, disk, clocks and random generators (simulated)", "edges of code under test", 0 });
