// Programs of threads: executed alone (each in a process of its own) and together.
#pragma once
#include "opsim.h"
#include "threads.h"
#include <locale>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
namespace sim { extern int sut_depth; }
namespace thrsim {
using namespace opsim;
enum { MAXR = 512 };
struct Res { int n; uint64_t v[MAXR]; uint16_t op[MAXR]; uint8_t what[MAXR]; };   // of one thread
enum What { RET, OBJ, FIL, END };
static const char* const what_name[] = { "returned value", "object", "file", "final objects" };
inline void put(Res& r, uint64_t v, int op, int what) { if (r.n < MAXR) { r.v[r.n] = v; r.op[r.n] = (uint16_t)op; r.what[r.n++] = (uint8_t)what; } }
typedef std::function<void(int, Res&)> Body;        // runs the program of thread k
inline Res* shared_results(int n) { return (Res*)mmap(nullptr, sizeof(Res) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
inline void alone(const Body& b, int k, Res* out)
{
    pid_t p = fork(); if (p < 0) _exit(72);
    if (p == 0) { sim::sut_depth = 1; sim::set_op("thread alone"); try { b(k, *out); } catch (...) { sim::sut_depth = 0; sim::fail("unexpected-exception", "a program of a thread threw although it ran alone"); } _exit(0); }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (st) { if (WIFEXITED(st) && WEXITSTATUS(st) == 70) _exit(70); sim::fail("crash", "the program of thread %d alone ended with status %x", k, st); }
}
inline void compare(int n, const Res* a, const Res* b)
{
    for (int k = 0; k < n; k++) for (int i = 0; i < std::max(a[k].n, b[k].n); i++)
        if (i >= a[k].n || i >= b[k].n || a[k].v[i] != b[k].v[i])
            sim::fail("interference", "thread %d: %s of '%s' is not what it is alone", k, what_name[a[k].what[i]], a[k].what[i] == END ? "program" : table()[a[k].op[i]].name);
}
inline std::string tdir(int k) { std::string d = sim::scratch() + "t" + std::to_string(k); mkdir(d.c_str(), 0700); return d + "/"; }
inline uint64_t files_hash(const std::string& dir, int from, int to)
{
    uint64_t h = 3; sim::Quiet q;
    for (int i = from; i < to; i++) { std::string b; bool have = sim::get_file(dir + "q" + std::to_string(i), b); ops::mix(h, have ? sim::hash_bytes(b.data(), b.size()) : 7); }
    return h;
}
inline void clean(const std::string& dir, int from, int to) { for (int i = from; i < to; i++) sim::del_file(dir + "q" + std::to_string(i)); }
struct Comma : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } };
inline void draw_locale() { if (sim::draw(4) == 3) { std::locale::global(std::locale(std::locale::classic(), new Comma)); sim::log("global locale with decimal comma"); sim::fired(sim::F_LOCALE); } }
inline void draw_disk() { sim::IoPlan p; if (sim::draw(2)) { p.short_w = p.short_r = sim::draw(2); p.maxchunk = 1 + (unsigned)sim::draw(500); p.seed = sim::draw(1000); } sim::disk.set(p); }
}
