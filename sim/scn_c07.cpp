#include "gen.h"
#include "StepFile.h"
#include "NurbsFactory.h"
#include <memory>
using namespace sim;
using namespace gen;

typedef std::vector<SurfM> Doc;
struct W { std::unique_ptr<StepWriter> w; int file = -1; Doc doc; bool hurt = false; };
static std::string fname(int i) { char b[32]; snprintf(b, sizeof b, "s%d.stp", i); return scratch_file(b); }
static std::map<int, Doc> finished;
static std::map<int, std::vector<Doc>> all_docs;      // every document ever written to a path
static bool complete(const std::string& b, const Doc& d, std::string& why) { StepM m; return step_parse(b, m, why) && step_is(m, d, why); }

static void check_ruined(int f, const Doc& d, const char* when)
{
    std::string b, why; if (!get_file(fname(f), b)) return;
    if (step_has_end(b) && !complete(b, d, why)) fail("end-marker-in-incomplete-file", "STEP file ended %s after a disk error has the end marker but %s", when, why.c_str());
    probe("document hit by a disk error");
}
static void settle(W& w, const char* when)
{
    if (w.file < 0) return;
    int f = w.file;
    if (disk.faulted.count(fname(f))) w.hurt = true;
    all_docs[f].push_back(w.doc);
    if (w.hurt) { finished.erase(f); check_ruined(f, w.doc, when); }
    else finished[f] = w.doc;
    w.file = -1; w.doc.clear(); w.hurt = false;
}
static void verify(int f, const char* when)
{
    std::string b, why;
    if (!get_file(fname(f), b)) fail("file-lost", "the STEP file closed %s is not there", when);
    if (!complete(b, finished[f], why)) fail("wrong-file", "STEP file of %zu surfaces, checked %s: %s", finished[f].size(), when, why.c_str());
}
static void make_surf(NurbsSurface& s)
{
    if (draw(4) == 3) {
        NurbsSolid so; int k = (int)draw(5);
        must("NURBS factory", [&] {
            switch (k) { case 0: NurbsFactory::create_sphere(2.5, s); break; case 1: NurbsFactory::create_torus(4., 1., so); break; case 2: NurbsFactory::create_cylinder(3., 1.5, so); break; case 3: NurbsFactory::create_box(1., 2., 3., so); break; default: NurbsFactory::create_disk(2., s); }
        });
        if (k == 0 || k == 4) { log("surface of factory %d", k); return; }
        if (!so.surfaces().empty()) { must("copy surface", [&] { s = so.surfaces()[0]; }); log("surface of factory %d", k); return; }
    }
    gen_surf(s);
}
static void run()
{
    finished.clear(); all_docs.clear();
    int nw = 1 + (int)draw(2), steps = 2 + (int)draw(10);
    std::vector<W> ws(nw);
    for (auto& w : ws) { StepWriter* p = nullptr; must("StepWriter", [&] { p = new StepWriter; }); w.w.reset(p); }
    uint64_t sg = nw; int events = 0, nfile = 0;
    disk.journal_on = draw(3) == 0;
    bool journal = disk.journal_on;
    for (int s = 0; s < steps; s++) {
        int wi = (int)draw(nw); W& w = ws[wi];
        int op = (int)draw(9);
        if (w.file < 0 && draw(4)) op = 0;
        for (auto& x : ws) if (x.file >= 0 && disk.faulted.count(fname(x.file))) x.hurt = true;
        IoPlan p; if (chance(1, 6)) p = gen_io(IO_BENIGN | IO_WFAULT, 900); else if (chance(1, 4)) p = gen_io(IO_BENIGN, 300);
        if (p.open_fail && op != 0) p.open_fail = 0;
        disk.set(p);
        sg = sg * 131 + op * 8 + wi;
        switch (op) {
        case 0: case 1: {
            int f = nfile < 3 || draw(3) == 0 ? nfile++ : (int)draw(nfile);
            for (auto& x : ws) if (&x != &w && x.file == f) f = nfile++;
            if (f == w.file && !p.benign()) { p = IoPlan(); disk.set(p); }     // otherwise the fault could belong to either document
            bool baddir = chance(1, 10), was = w.file >= 0;
            std::string path = baddir ? scratch_file("missing/dir.stp") : fname(f);
            int prev = w.file;
            if (prev == f) { all_docs[f].push_back(w.doc); w.file = -1; w.doc.clear(); w.hurt = false; finished.erase(f); }   // overwritten at once
            must("StepWriter::open", [&] { w.w->open(path); });
            settle(w, "by reopening its writer");
            bool opened = false; must("is_open", [&] { opened = w.w->is_open(); });
            bool of = p.open_fail && disk.faulted.count(path);
            log("writer %d opens %s%s with%s -> %d", wi, baddir ? "missing directory" : path.c_str() + scratch().size(), was ? " while open" : "", describe(p).c_str(), opened);
            if (was) events++;
            if (prev >= 0 && prev != f && finished.count(prev)) verify(prev, "by reopening its writer");
            if (baddir || of) { if (opened) fail("false-open", "is_open() after a failed open"); events++; break; }
            if (!opened) fail("open-failed", "open failed on a healthy disk");
            finished.erase(f);
            w.file = f; w.doc.clear(); w.hurt = disk.faulted.count(path);
            break; }
        case 2: case 3: case 4: {
            NurbsSurface n; make_surf(n); SurfM m = read_surf(n);
            must("StepWriter::write surface", [&] { w.w->write(n); });
            if (!same_surf(m, read_surf(n))) fail("write-changed-object", "writing changed the surface");
            log("writer %d writes it with%s (file %d)", wi, describe(p).c_str(), w.file);
            if (w.file >= 0) w.doc.push_back(m); else events++;
            break; }
        case 5: {
            NurbsSolid so; int n = (int)draw(3); Doc d;
            if (chance(1, 40)) {                    // a large solid: numbers of entities with four, five or six digits
                int many = chance(1, 25) ? 600 + (int)draw(400) : 5 + (int)draw(100); NurbsSurface x; must("create_torus", [&] { NurbsFactory::create_torus(5., 2., x); });
                must("add surfaces", [&] { for (int i = 0; i < many; i++) so.add_surface(x); }); d.assign(many, read_surf(x)); probe(many >= 600 ? "solid of very many surfaces" : "solid of many surfaces");
            } else if (draw(2)) { for (int i = 0; i < n; i++) { NurbsSurface x; make_surf(x); d.push_back(read_surf(x)); must("add surface", [&] { so.add_surface(x); }); } }
            else { int k = (int)draw(3); must("NURBS factory", [&] { if (k == 0) NurbsFactory::create_box(1., 2., 3., so); else if (k == 1) NurbsFactory::create_sphere(2., so); else NurbsFactory::create_torus(3., 1., so); }); for (auto& x : so.surfaces()) d.push_back(read_surf(x)); }
            must("StepWriter::write solid", [&] { w.w->write(so); });
            log("writer %d writes a solid of %zu surfaces with%s (file %d)", wi, d.size(), describe(p).c_str(), w.file);
            if (w.file >= 0) w.doc.insert(w.doc.end(), d.begin(), d.end()); else events++;
            break; }
        case 6: case 7: {
            bool ok = false; int f = w.file; Doc d = w.doc; must("StepWriter::close", [&] { ok = w.w->close(); });
            settle(w, "by close");
            log("writer %d closes file %d with%s -> %d", wi, f, describe(p).c_str(), ok);
            if (f >= 0 && finished.count(f)) { if (!ok) fail("false-failure", "close reported failure although nothing went wrong"); verify(f, "by close"); }
            if (f >= 0 && !finished.count(f) && ok) { std::string b, why; if (!get_file(fname(f), b) || !complete(b, d, why)) fail("false-success", "close reported success but %s", why.c_str()); }
            bool op2 = true; must("is_open", [&] { op2 = w.w->is_open(); }); if (op2) fail("still-open", "is_open() after close");
            break; }
        default: {
            int f = w.file; must("~StepWriter", [&] { w.w.reset(); }); settle(w, "by destroying its writer");
            StepWriter* q = nullptr; must("StepWriter", [&] { q = new StepWriter; }); w.w.reset(q);
            log("writer %d destroyed with file %d open, with%s", wi, f, describe(p).c_str());
            if (f >= 0) { events++; if (finished.count(f)) verify(f, "by destroying its writer"); }
            break; }
        }
        if (disk.hard_fault) events++;
    }
    for (auto& w : ws) { int f = w.file; must("~StepWriter", [&] { w.w.reset(); }); settle(w, "at the end"); if (f >= 0) log("last: file %d", f); }
    for (auto& f : finished) verify(f.first, "at the end of the history");
    if (journal) {          // the process dies somewhere in this history
        disk.journal_on = false;
        std::vector<JournalOp> j; j.swap(disk.journal);
        int crashes = 2 + (int)draw(10);
        for (int c = 0; c < crashes && !j.empty(); c++) {
            size_t nops = draw(j.size() + 1), part = 0;
            if (nops < j.size() && j[nops].kind == 'W') part = draw(2) ? draw(j[nops].data.size()) : j[nops].data.size() - 1 - draw(j[nops].data.size() < 30 ? j[nops].data.size() : 30);
            Snapshot img = crash_image(Snapshot(), j, nops, part);
            fired(F_CRASH); events++;
            size_t ends = 0;
            for (auto& x : img) {
                if (!step_has_end(x.second)) continue;
                ends++; std::string why; bool good = false;
                for (auto& dd : all_docs) if (fname(dd.first) == x.first) for (auto& d : dd.second) if (!good && complete(x.second, d, why)) good = true;
                if (!good) fail("end-marker-in-incomplete-file", "crash in disk operation %zu: %s has the end marker but %s", nops, x.first.c_str() + scratch().size(), why.c_str());
            }
            log("crash in disk operation %zu of %zu after %zu bytes: %zu files, %zu with end marker", nops, j.size(), part, img.size(), ends);
            sg = sg * 31 + nops * 7 + part;
        }
    }
    if (events) nontrivial();
    signature(sg);
}
static Register reg({ "C07", run, 24000, 800000,
    "seeded search: histories of 1 or 2 STEP writers that open (also while open, into missing directories, with failing opens), write drawn and factory surfaces and solids, close and are destroyed without closing, with open, write and close faults on some steps, and process death at drawn disk operations and bytes; finished files are parsed (one header, unique entities, resolved references) and compared with the surfaces written, unfinished ones must have no end marker. Non-trivial: the history has a reopening, an abandoned writer, a disk fault or a crash",
    "StepWriter, NurbsSurface, NurbsSolid, NurbsFactory, libstdc++ streams", "disk (system calls of files), process death", "edges of code under test", 0 });
