#include "opsim.h"
#include <cfenv>
#include <clocale>
#include <iostream>
#include <new>
#include <sys/stat.h>
#include <unistd.h>
using namespace sim;
using namespace opsim;

// everything a program can look at, one line per thing
struct Look { std::vector<std::pair<std::string, uint64_t>> v; };
static Look look(World& w)
{
    Look l; 
    must("read objects", [&] {
        for (int t = 1; t < K_N; t++) for (int i = 0; i < SLOTS; i++) l.v.push_back({ "", hash_obj(w, (Kind)t, i) });
        R r(77); std::vector<Point3> p; for (int i = 0; i < 3; i++) p.push_back(r.pt());
        for (int i = 0; i < NTR; i++) { std::vector<Point3> q = p; w.tr[i]->apply_all(q); l.v.push_back({ "", hash_poly(q) }); }
    });
    size_t n = 0;
    for (int t = 1; t < K_N; t++) for (int i = 0; i < SLOTS; i++) l.v[n++].first = std::string(kind_name[t]) + " " + std::to_string(i);
    for (int i = 0; i < NTR; i++) l.v[n++].first = "transform " + std::to_string(i);
    for (int i = 0; i < 5; i++) {
        std::string s; bool have = get_file(*w.dir + "q" + std::to_string(i), s);
        l.v.push_back({ "file q" + std::to_string(i), have ? hash_bytes(s.data(), s.size()) : 1 });
    }
    auto text = [](const std::string& s) { return hash_bytes(s.data(), s.size()); };
    l.v.push_back({ "the global locale", text(std::locale().name()) ^ (uint64_t)std::use_facet<std::numpunct<char>>(std::locale()).decimal_point() });
    l.v.push_back({ "the C locale", text(setlocale(LC_ALL, nullptr)) });
    l.v.push_back({ "the rounding mode", (uint64_t)fegetround() });
    char cwd[4096]; l.v.push_back({ "the working directory", getcwd(cwd, sizeof cwd) ? text(cwd) : 0 });
    mode_t m = umask(022); umask(m); l.v.push_back({ "the file creation mask", m });
    l.v.push_back({ "the format of std::cout", (uint64_t)std::cout.flags() * 1000 + (uint64_t)std::cout.precision() * 10 + (std::cout.fill() == ' ') });
    l.v.push_back({ "the new handler", (uint64_t)std::get_new_handler() });
    return l;
}
// what the program has set up before it uses the library
struct Semicolon : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return ';'; } std::string do_grouping() const override { return "\3"; } };
static void no_memory() { throw std::bad_alloc(); }
static void environment()
{
    std::locale::global(std::locale::classic()); setlocale(LC_ALL, "C");
    std::string e;
    if (draw(3) == 0) { std::locale::global(std::locale(std::locale::classic(), new Semicolon)); e += " global locale"; }
    if (draw(3) == 0 && setlocale(LC_ALL, "C.UTF-8")) e += " C locale";
    if (draw(4) == 0) { umask(027); e += " umask"; } else umask(022);
    std::cout.flags(std::ios::dec | std::ios::skipws); std::cout.precision(6);
    if (draw(4) == 0) { std::cout.setf(std::ios::scientific); std::cout.precision(11); e += " stream format"; }
    std::set_new_handler(draw(4) == 0 ? (e += " new handler", no_memory) : nullptr);
    if (!e.empty()) log("the program has its own%s", e.c_str());
}
// arrays of the caller stay as they are
static void arrays()
{
    uint64_t seed = draw(1u << 20); double q[4], m[9], q0[4], m0[9]; R r(seed);
    for (auto& x : q) x = r.unit() * 3 - 1; for (auto& x : m) x = r.unit() * 3 - 1;
    if (r.below(2)) { double n = 0; for (double x : q) n += x * x; for (auto& x : q) x /= std::sqrt(n); }
    memcpy(q0, q, sizeof q); memcpy(m0, m, sizeof m);
    must("rotations from arrays", [&] {
        RotationQuaternion a(q), b; b.set_quaternion(q); RotationMatrix c(m), d; d.set_matrix(m);
        Point3 p = r.pt(); a.apply(p); b.apply(p); c.apply(p); d.apply(p); d.from_angle_axis(30, Point3(0, 0, 1)); b.from_angle_axis(30, Point3(1, 0, 0));
        RotationMatrix e(d); d.set_matrix(m);
    });
    if (memcmp(q0, q, sizeof q) || memcmp(m0, m, sizeof m)) fail("changed-something-else", "making a rotation of an array changed the array");
}
static void run()
{
    table(); environment();
    World w; new_world(w);
    populate(w, 3);
    put_file(*w.dir + "q4", "a file nobody asked to be changed");
    const std::vector<int> any = select(Choice()), copies = [] { std::vector<int> v; for (size_t i = 0; i < table().size(); i++) { const Def& d = table()[i]; if (d.out != K_NONE && d.in1 == d.out) v.push_back((int)i); } return v; }();
    int nsteps = 2 + (int)draw(24); uint64_t sg = 3; unsigned changed = 0, faults = 0;
    Look before = look(w);
    unsigned rs = (unsigned)draw(1000); srand(rs);
    for (int k = 0; k < nsteps; k++) {
        if (draw(12) == 11) arrays();
        Args g = draw_op(draw(4) ? any : copies); Fate f = draw_fate(g, 4);
        const Def& d = table()[g.op];
        Result r = call_fate(w, g, f);
        log("%d: %s%s: %s", k, show(g).c_str(), show(f).c_str(), r.oc == OOM ? "out of memory" : r.skipped() ? "skipped" : "done");
        if (f.kind) faults++;
        Look after = look(w);
        std::string out = d.out == K_NONE ? "" : std::string(kind_name[d.out]) + " " + std::to_string(g.o);
        bool writes = (d.flags & IO) && !(d.flags & LOAD), two = strstr(d.name, "abandoned");      // those write two files
        std::string own = "file q" + std::to_string(g.file), next = "file q" + std::to_string(g.file + 1);
        for (size_t i = 0; i < after.v.size(); i++) {
            const std::string& n = after.v[i].first;
            if (after.v[i].second == before.v[i].second) continue;
            if (n == out) { changed++; continue; }
            if (writes && n == own) continue;
            if (writes && two && n == next) continue;
            fail("changed-something-else", "%s changed %s", d.name, n.c_str());
        }
        before = after;
        ops::mix(sg, g.op * 4 + f.kind);
    }
    int got = rand(); srand(rs); int want = rand();
    if (got != want) fail("changed-something-else", "the operations changed the sequence of rand()");
    if (changed > 1) nontrivial();
    if (faults) probe("history with faults");
    signature(sg);
    end_world(w);
}
static Register reg({ "C25", run, 24000, 400000,
    "seeded search: a drawn history of library operations with allocation and disk faults over a world of objects that were copied, assigned and appended to each other; after each operation, everything else a program can see (all other objects, transforms, files, locale, rounding mode, working directory, stream formats, rand sequence) is compared with what it was before. Non-trivial: at least two operations changed their target",
    "all of src reached by the operations of sim/ops.h", "disk and allocator (fault injection)", "edges of code under test", 0 });
