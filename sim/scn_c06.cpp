#include "gen.h"
#include "OBJFile.h"
#include <cmath>
#include <memory>
#include <set>
using namespace sim;
using namespace gen;

struct Item { bool line; std::vector<V3> v; std::vector<T3> t; int color; };
typedef std::vector<Item> Doc;
struct W { std::unique_ptr<OBJWriter> w; int file = -1; Doc doc; bool hurt = false; };

static std::string fname(int i) { char b[32]; snprintf(b, sizeof b, "o%d.obj", i); return scratch_file(b); }
static bool file_is(const std::string& b, const Doc& d, std::string& why)
{
    ObjM o; if (!obj_parse(b, o, why)) return false;
    size_t iv = 0, it = 0, il = 0;
    std::vector<const V3*> v; std::vector<std::array<long, 3>> f; std::vector<std::vector<long>> l; std::vector<int> col;
    for (auto& i : d) {
        long base = (long)v.size();
        for (auto& p : i.v) { v.push_back(&p); col.push_back(i.color); }
        if (i.line) { std::vector<long> x; for (size_t k = 0; k < i.v.size(); k++) x.push_back(base + (long)k + 1); if (x.size()) l.push_back(x); }
        else for (auto& t : i.t) f.push_back({ { base + t[0] + 1, base + t[1] + 1, base + t[2] + 1 } });
    }
    char s[200];
    for (auto& r : o.r) {
        if (r.kind == 'v') {
            if (iv >= v.size()) { why = "more vertices than written"; return false; }
            for (int c = 0; c < 3; c++) if (!close6(r.x[c], (*v[iv])[c])) { snprintf(s, sizeof s, "vertex %zu is not the one written (%g instead of %g)", iv, r.x[c], (*v[iv])[c]); why = s; return false; }
            if (col[iv] != -1) {
                if (r.x.size() != 6) { snprintf(s, sizeof s, "vertex %zu lost its colour", iv); why = s; return false; }
                for (int c = 0; c < 3; c++) if (std::fabs(r.x[3 + c] - ((col[iv] >> (16 - 8 * c)) & 255) / 255.) > 1e-4) { snprintf(s, sizeof s, "vertex %zu has another colour", iv); why = s; return false; }
            }
            iv++;
        } else if (r.kind == 'f') {
            if (it >= f.size()) { why = "more faces than written"; return false; }
            for (int c = 0; c < 3; c++) if (r.i[c] != f[it][c]) { snprintf(s, sizeof s, "face %zu corner %d refers to vertex %ld instead of %ld", it, c, r.i[c], f[it][c]); why = s; return false; }
            it++;
        } else {
            if (r.i.empty()) continue;
            if (il >= l.size()) { why = "more line elements than written"; return false; }
            if (r.i != l[il]) { snprintf(s, sizeof s, "line element %zu of %zu vertices starts with %ld instead of %zu vertices starting with %ld", il, r.i.size(), r.i[0], l[il].size(), l[il][0]); why = s; return false; }
            il++;
        }
    }
    if (iv != v.size() || it != f.size() || il != l.size()) { snprintf(s, sizeof s, "%zu vertices, %zu faces, %zu lines instead of %zu, %zu, %zu", iv, it, il, v.size(), f.size(), l.size()); why = s; return false; }
    return true;
}
static std::map<int, Doc> finished;       // what each closed file must hold
static std::set<int> ruined;
static void settle(W& w)                    // the file of w has just been closed
{
    if (w.file < 0) return;
    if (disk.faulted.count(fname(w.file))) w.hurt = true;
    if (w.hurt) { finished.erase(w.file); ruined.insert(w.file); }
    else { finished[w.file] = w.doc; ruined.erase(w.file); }
    w.file = -1; w.doc.clear(); w.hurt = false;
}
static void verify(int f, const char* when)
{
    std::string b, why;
    if (!get_file(fname(f), b)) fail("file-lost", "the file closed %s is not there", when);
    if (!file_is(b, finished[f], why)) fail("wrong-file", "OBJ file of %zu objects, checked %s: %s", finished[f].size(), when, why.c_str());
}
static void run()
{
    finished.clear(); ruined.clear();
    int nw = 1 + (int)draw(3), steps = 3 + (int)draw(14);
    std::vector<W> ws(nw);
    for (auto& w : ws) { OBJWriter* p = nullptr; must("OBJWriter", [&] { p = new OBJWriter; }); w.w.reset(p); }
    uint64_t sg = nw; int events = 0, nfile = 0;
    for (int s = 0; s < steps; s++) {
        int wi = (int)draw(nw); W& w = ws[wi];
        int op = (int)draw(10);
        if (w.file < 0 && draw(4)) op = 0;
        // the disk of this step
        for (auto& x : ws) if (x.file >= 0 && disk.faulted.count(fname(x.file))) x.hurt = true;
        IoPlan p; if (chance(1, 6)) p = gen_io(IO_BENIGN | IO_WFAULT, 300); else if (chance(1, 4)) p = gen_io(IO_BENIGN, 300);
        if (p.open_fail && op != 0) p.open_fail = 0;
        disk.set(p);
        sg = sg * 131 + op * 8 + wi;
        switch (op) {
        case 0: case 1: {
            int f = nfile < 3 || draw(3) == 0 ? nfile++ : (int)draw(nfile);
            for (auto& x : ws) if (&x != &w && x.file == f) f = nfile++;
            if (f == w.file && !p.benign()) { p = IoPlan(); disk.set(p); }     // otherwise the fault could belong to either document
            bool baddir = chance(1, 10);
            std::string path = baddir ? scratch_file("missing/dir.obj") : fname(f);
            bool was = w.file >= 0;
            must("OBJWriter::open", [&] { w.w->open(path); });
            // finishing the previous document happened in there
            int prev = w.file; settle(w);
            bool opened = false; must("is_open", [&] { opened = w.w->is_open(); });
            bool of = p.open_fail && disk.faulted.count(path);
            log("writer %d opens %s%s with%s -> %d", wi, baddir ? "missing directory" : path.c_str() + scratch().size(), was ? " while open" : "", describe(p).c_str(), opened);
            if (was) events++;
            if (prev >= 0 && prev != f && finished.count(prev)) verify(prev, "by reopening its writer");
            if (baddir || of) { if (opened) fail("false-open", "is_open() after a failed open"); events++; if (of && !baddir) { } break; }
            if (!opened) fail("open-failed", "open failed on a healthy disk");
            finished.erase(f); ruined.erase(f);
            w.file = f; w.doc.clear(); w.hurt = disk.faulted.count(path) && prev != f;
            break; }
        case 2: case 3: case 4: case 5: case 6: {
            MeshOpt o; o.max_tri = 8; o.big = chance(1, 20);
            Mesh m; gen_mesh(m, o, "mesh");
            MeshM mm = read_mesh(m);
            must("OBJWriter::write mesh", [&] { w.w->write(m); });
            log("writer %d writes it with%s (file %d)", wi, describe(p).c_str(), w.file);
            if (w.file >= 0) w.doc.push_back({ false, mm.v, mm.t, mm.color }); else events++;
            break; }
        case 7: {
            int n = (int)draw(9); Rng r(draw(1u << 20)); std::vector<Point3> pl; Item it; it.line = true; it.color = -1;
            int cls = (int)r.below(6);
            for (int i = 0; i < n; i++) { V3 v; for (auto& c : v) c = gen_coord(r, cls, 1e6); it.v.push_back(v); pl.push_back(P(v)); }
            must("OBJWriter::write polyline", [&] { w.w->write(pl); });
            log("writer %d writes a polyline of %d points with%s (file %d)", wi, n, describe(p).c_str(), w.file);
            if (w.file >= 0) w.doc.push_back(it); else events++;
            break; }
        case 8: {
            bool ok = false; int f = w.file; must("OBJWriter::close", [&] { ok = w.w->close(); });
            settle(w);
            log("writer %d closes file %d with%s -> %d", wi, f, describe(p).c_str(), ok);
            if (f >= 0 && finished.count(f)) { if (!ok) fail("false-failure", "close reported failure although nothing went wrong"); verify(f, "by close"); }
            if (f >= 0 && !finished.count(f) && ok) { std::string b, why; get_file(fname(f), b); fail("false-success", "close reported success although writing failed"); }
            bool op2 = true; must("is_open", [&] { op2 = w.w->is_open(); }); if (op2) fail("still-open", "is_open() after close");
            break; }
        default: {
            int f = w.file; must("~OBJWriter", [&] { w.w.reset(); }); settle(w);
            OBJWriter* q = nullptr; must("OBJWriter", [&] { q = new OBJWriter; }); w.w.reset(q);
            log("writer %d destroyed with file %d open, with%s", wi, f, describe(p).c_str());
            if (f >= 0) { events++; if (finished.count(f)) verify(f, "by destroying its writer"); }
            break; }
        }
        if (disk.hard_fault) events++;
    }
    for (auto& w : ws) { int f = w.file; if (disk.faulted.count(f >= 0 ? fname(f) : "")) w.hurt = true; must("~OBJWriter", [&] { w.w.reset(); }); settle(w); if (f >= 0) log("last: file %d", f); }
    for (auto& f : finished) verify(f.first, "at the end of the history");
    if (events) nontrivial();
    if (finished.size() > 1) probe("several files checked in one history");
    signature(sg);
}
static Register reg({ "C06", run, 36000, 1500000,
    "seeded search: histories of 1 to 3 OBJ writers that open (also while open, into missing directories, with failing opens), write coloured and edited meshes and polylines, close and are destroyed without closing, with write, close and open faults on some steps; every file closed without a disk error is parsed and compared with the list of objects written to it. Non-trivial: the history has a reopening, an abandoned writer, a write without file or a disk fault",
    "OBJWriter, Mesh, MeshFactory, libstdc++ streams", "disk (system calls of files)", "edges of code under test", 0 });
