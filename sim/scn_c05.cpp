#include "fileobj.h"
#include <cmath>
using namespace sim;
using namespace gen;

static bool obj_prefix(const MeshM& g, const MeshM& want, std::string& why)
{
    if (g.v.size() > want.v.size() || g.t.size() > want.t.size()) { why = "more records than were being saved"; return false; }
    bool vcut = false;
    for (size_t i = 0; i < g.v.size(); i++) for (int c = 0; c < 3; c++) if (!close6(g.v[i][c], want.v[i][c])) {
        if (i + 1 == g.v.size() && g.t.empty()) { vcut = true; continue; }     // the vertex being written
        why = "vertex " + std::to_string(i) + " is not the one being saved"; return false;
    }
    for (size_t i = 0; i < g.t.size(); i++) if (g.t[i] != want.t[i]) {
        if (i + 1 == g.t.size()) continue;                                      // the face being written
        why = "triangle " + std::to_string(i) + " is not the one being saved"; return false;
    }
    if (g.t.size() && g.v.size() != want.v.size()) { why = "triangles without all the vertices"; return false; }
    (void)vcut;
    return true;
}
static void run()
{
    Kind k = (Kind)draw(3);
    FileObj cur(k), old(k);
    std::vector<FileObj> hist;      // models of everything saved so far
    auto model = [&](const FileObj& o) { FileObj f(k); f.mm = o.mm; f.imm = o.imm; return f; };
    std::string path = scratch_file(kind_file[k]), why;
    uint64_t sg = k;
    if (draw(2)) { log("older object on disk:"); old.make(true); if (!old.save(path)) fail("save-failed", "save failed on a healthy disk"); hist.push_back(model(old)); }
    int rounds = 1 + (int)draw(2);
    for (int r = 0; r < rounds; r++) {
        cur.make(true);
        Snapshot before; { std::string b; if (get_file(path, b)) before[path] = b; }
        IoPlan p = gen_io(IO_BENIGN, 1000);
        disk.set(p); disk.journal.clear(); disk.journal_on = true;
        bool ok = cur.save(path);
        disk.journal_on = false; disk.set(IoPlan());
        std::vector<JournalOp> j; j.swap(disk.journal);
        log("save with%s -> %d, %zu disk operations", describe(p).c_str(), ok, j.size());
        if (!ok) fail("save-failed", "save failed on a disk without errors");
        std::string final_b; get_file(path, final_b);
        int crashes = 1 + (int)draw(12);
        Snapshot last;
        for (int c = 0; c < crashes; c++) {
            size_t nops = draw(j.size() + 1), part = 0;
            if (draw(3) == 0 && j.size() > 3) nops = j.size() - 1 - draw(3);
            if (nops < j.size() && j[nops].kind == 'W') {
                size_t l = j[nops].data.size();
                switch (draw(4)) { case 0: part = 0; break; case 1: part = draw(l); break; case 2: part = l - 1 - draw(l < 60 ? l : 60); break; default: part = draw(l < 100 ? l : 100); }
            }
            Snapshot img = crash_image(before, j, nops, part);
            fired(F_CRASH); nontrivial();
            last = img;
            bool have = img.count(path);
            if (have) put_file(path, img[path]); else del_file(path);
            FileObj n(k);
            bool lo = n.load(path);
            n.refresh();
            const std::string& b = img[path];
            log("  crash in operation %zu after %zu bytes: file of %zu bytes (whole %zu) loads -> %d: %s", nops, part, b.size(), final_b.size(), lo, n.describe().c_str());
            sg = sg * 1000003 + nops * 31 + b.size() + lo;
            if (!lo) { probe("partial file refused"); if (have && b == final_b) fail("complete-refused", "the complete file is refused"); continue; }
            if (!have) fail("wrong-data", "a missing file loaded");
            // only data of the old or of the new object
            bool good = false; std::string w2;
            auto is = [&](const FileObj& o) { return k == STL ? mesh_is_stl(n.mm, stl_of(o.mm), why) : k == BMP ? same_image(n.imm, o.imm, true, why) : obj_prefix(n.mm, o.mm, why); };
            if (is(cur)) { good = true; probe(b == final_b ? "complete new file" : k == OBJ ? "leading part of an OBJ file" : "complete data"); }
            else { w2 = why; if (before.count(path) && b == before[path]) for (auto& h : hist) if (is(h)) { good = true; probe("file as it was before the save"); break; } }
            if (!good) fail("wrong-data", "the %s file left by a crash (%zu of %zu bytes) loads as something else: %s", kind_name[k], b.size(), final_b.size(), w2.c_str());
        }
        signature(sg);
        hist.push_back(model(cur));
        if (r + 1 < rounds) { if (last.count(path)) put_file(path, last[path]); else del_file(path); }   // life goes on from what the crash left
    }
}
static Register reg({ "C05", run, 24000, 1500000,
    "seeded search: STL, OBJ and BMP saves over absent, older or crash-damaged files, process killed at drawn disk operations and drawn bytes of the write in flight (journal prefix); the file left is loaded by a fresh object. Every run with a crash point is non-trivial; distinct = distinct sequences of crash states",
    "STLFile, OBJFile, ImageIoBmp, Mesh, Image, MeshFactory, libstdc++ streams", "disk (system calls of files), process death", "edges of code under test", 0 });
