#include "thrsim.h"
#include "StepFile.h"
#include "OBJFile.h"
using namespace sim;
using namespace thrsim;

// Writers that live through everything.
struct Writers { OBJWriter* obj; StepWriter* step; };
static World world; static Writers wr;
// A step of the bad times: an operation, or something with a writer.
struct Bad { int what; Args g; Fate f; int64_t oom; IoPlan io; };
// A step after them: an operation, or a document of a writer.
struct Good { int what; Args g; };
static std::vector<Bad> bad; static std::vector<Good> good;
static uint64_t wseed;
// writers may be left open with what they could not write, then they must not hold a file that the good times use
static bool tidy;

static void start() { null_world(world); must("construct objects", [&] { make_world(world, wseed, scratch().c_str()); wr.obj = new OBJWriter; wr.step = new StepWriter; }); }
static void hit(const Bad& b)
{
    World& w = world; const Args& g = b.g; int f = g.file;
    if (b.what == 0) { call_fate(w, g, b.f); return; }
    if (b.oom) alloc_fail(b.oom, 1 + (g.n & 1) * 1000);
    disk.set(b.io);
    auto nowhere = [&] { return *w.dir + "missing/q" + std::to_string(f); };
    auto doc = [&] { return tidy ? file_name(w, f) : *w.dir + "q5"; };
    Outcome o = sut("use of a writer", [&] {
        switch (b.what) {
        case 1: wr.obj->open(doc()); break;
        case 2: wr.obj->open(nowhere()); break;
        case 3: wr.obj->write(*w.mesh[g.a]); break;
        case 4: wr.obj->write(*w.poly[g.a]); break;
        case 5: wr.obj->close(); break;
        case 6: wr.step->open(doc()); break;
        case 7: wr.step->open(nowhere()); break;
        case 8: if (ok_surf(*w.surf[g.a])) wr.step->write(*w.surf[g.a]); break;
        case 9: if (ok_solid(*w.solid[g.b]) && w.solid[g.b]->surfaces().size() < 8) wr.step->write(*w.solid[g.b]); break;
        case 10: wr.step->close(); break;
        case 11: STLFile::save(nowhere(), *w.mesh[g.a]); STLFile::load(nowhere(), *w.mesh[g.o]); break;
        case 12: OBJFile::save(nowhere(), *w.mesh[g.a]); OBJFile::load(nowhere(), *w.mesh[g.o]); break;
        default: ImageIoBmp::write(nowhere(), w.image[g.a]); ImageIoBmp::read(nowhere(), w.image[g.o]); break;
        } });
    disk.set(IoPlan()); alloc_fail(0, 0);
    if (o == EXC) fail("unexpected-exception", "a writer or a file function threw an exception that is not bad_alloc");
}
static void put_ok(Res& r, uint64_t v, int op, const char* what) { if (!v) fail("does-not-recover", "%s failed although nothing is wrong any more", what); put(r, v, op, RET); }
// the good times: what they give must not depend on what was before
static void recover(Res& r)
{
    World& w = world; unsigned written = 0;
    if (tidy) must("close the writers", [&] { wr.obj->close(); wr.step->close(); });
    for (auto& s : good) {
        const Args& g = s.g; const Def& d = table()[g.op];
        if (s.what == 0 || s.what == 3) {
            if (s.what == 3) must("empty a polyline", [&] { w.poly[g.o]->clear(); });
            Result c = call(w, g);
            if (c.oc != OK) fail("does-not-recover", "%s runs out of memory although there is enough again", d.name);
            // there are no image files with two colours
            bool nofile = (d.flags & SAVE) && d.in1 == K_IMAGE && w.image[g.a]->planes() == 2;
            if ((d.flags & (SAVE | LOAD)) && !c.skipped() && !nofile) put_ok(r, c.v, g.op, d.name); else put(r, c.v, g.op, RET);
            if (d.out == K_MESH && (d.flags & KEEPCOLOR)) must("set colour", [&] { w.mesh[g.o]->set_color(g.n & 2 ? -1 : 0x102030); });
            if (d.out != K_NONE) put(r, peek(w, d.out, g.o), g.op, OBJ);
            if ((d.flags & IO) && !(d.flags & LOAD) && !c.skipped() && !nofile) {   // what was not written may hold what was there before
                written |= 1u << g.file; if (strstr(d.name, "abandoned")) written |= 2u << g.file; }
        } else {
            bool opened = false, closed = false, step = s.what == 2;
            must("document of a writer", [&] {
                std::string n = file_name(w, g.file);
                if (!step) { wr.obj->open(n); opened = wr.obj->is_open(); wr.obj->write(*w.mesh[g.a]); wr.obj->write(*w.poly[g.b]); wr.obj->write(*w.mesh[g.o]); closed = wr.obj->close(); }
                else { wr.step->open(n); opened = wr.step->is_open(); if (ok_surf(*w.surf[g.a])) wr.step->write(*w.surf[g.a]); if (ok_solid(*w.solid[g.b]) && w.solid[g.b]->surfaces().size() < 8) wr.step->write(*w.solid[g.b]); closed = wr.step->close(); } });
            put_ok(r, opened, g.op, step ? "opening a STEP file" : "opening an OBJ file"); put_ok(r, closed, g.op, step ? "closing a STEP file" : "closing an OBJ file");
            written |= 1u << g.file;
        }
        for (int i = 0; i < 5; i++) if (written >> i & 1) put(r, files_hash(*w.dir, i, i + 1), g.op, FIL);
    }
    put(r, peek_all(w), 0, END);
}
static void end() { must("destroy objects", [&] { delete wr.obj; delete wr.step; free_world(world); }); }
static int find_op(const char* n) { for (size_t i = 0; i < table().size(); i++) if (!strcmp(table()[i].name, n)) return (int)i; _exit(72); }
// in a process of its own, that may die at a drawn disk operation
static void child(const std::function<void()>& f, const char* what)
{
    pid_t p = fork(); if (p < 0) _exit(72);
    if (p == 0) { f(); _exit(0); }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (st) { if (WIFEXITED(st) && WEXITSTATUS(st) == 70) _exit(70); fail("crash", "%s ended with status %x", what, st); }
}
static void run()
{
    table(); bad.clear(); good.clear(); wseed = draw(1u << 20); tidy = draw(2);
    const std::vector<int> any = select({ 0, LOAD }), rd = select({ READ, 0, -1 });
    // bad times
    int nb = 1 + (int)draw(12); uint64_t sg = 27; bool dies = draw(3) == 2;
    std::vector<Args> before;
    for (int k = 1; k < K_N; k++) { std::vector<int> from; for (int i : select({ REBUILD, IO, k })) if (table()[i].in1 == K_NONE) from.push_back(i); if (!from.empty()) for (int i = 0; i < 2; i++) if (draw(2)) { Args g = draw_op(from); g.o = i; before.push_back(g); } }
    for (int i = 0; i < nb; i++) {
        Bad b; b.oom = 0; b.what = draw(2) ? 0 : 1 + (int)draw(13); b.g = draw(3) < 2 ? draw_op(Choice()) : draw_op(select({ IO, LOAD, -1 }));
        if (b.what == 0) { b.f = draw_fate(b.g, 1 + (unsigned)draw(2)); log("bad: %s%s", show(b.g).c_str(), show(b.f).c_str()); }
        else {
            if (draw(3) == 0) b.oom = 1 + (int64_t)draw(40);
            if (draw(2)) b.io = gen::gen_io(gen::IO_BENIGN | gen::IO_WFAULT | gen::IO_RFAULT, 1 + (int64_t)draw(3000));
            static const char* const n[] = { "", "OBJ writer opens", "OBJ writer opens in a missing directory", "OBJ writer writes a mesh", "OBJ writer writes a polyline", "OBJ writer closes", "STEP writer opens", "STEP writer opens in a missing directory", "STEP writer writes a surface", "STEP writer writes a solid", "STEP writer closes", "STL in a missing directory", "OBJ in a missing directory", "BMP in a missing directory" };
            log("bad: %s, file %d, allocation %lld fails,%s", n[b.what], b.g.file, (long long)b.oom, gen::describe(b.io).c_str());
        }
        bad.push_back(b); ops::mix(sg, b.what * 100 + b.g.op);
    }
    uint64_t death = draw(400), chunk = draw(3) ? 0 : 1 + draw(300);
    bool junk = draw(3) == 0; uint64_t jseed = draw(1u << 20);
    // good times: every object built anew, then anything
    for (int pass = 0; pass < 2; pass++) for (int k = 1; k < K_N; k++) for (int i = 0; i < SLOTS; i++) {   // first those made of nothing
        std::vector<int> from; for (int x : select({ REBUILD, IO, k })) if (table()[x].in1 == K_NONE) from.push_back(x);
        if (from.empty() != (pass == 1)) continue;
        if (pass) from = select({ REBUILD, IO, k });
        Args g = draw_op(from); g.o = i; good.push_back({ k == K_POLY ? 3 : 0, g });   // a polyline comes from a curve, that may have nothing to give
    }
    int ng = 1 + (int)draw(10);
    for (int i = 0; i < ng; i++) {
        int t = (int)draw(9); Args g = draw_op(t < 2 ? any : rd);
        // what failed before is tried again
        if (t > 5) { auto& b = bad[draw(bad.size())]; if (b.what == 0) g = b.g; t = 5; }
        if (t < 2 || t == 5) { while (table()[g.op].flags & LOAD) g.op = any[(g.op + 1) % any.size()]; good.push_back({ 0, g }); log("good: %s", show(g).c_str()); }
        else if (t == 2) { g.op = find_op("OBJ writer"); good.push_back({ 1, g }); log("good: document of the OBJ writer, file %d", g.file); }
        else if (t == 3) { g.op = find_op("STEP writer"); good.push_back({ 2, g }); log("good: document of the STEP writer, file %d", g.file); }
        else {
            static const char* const p[][2] = { { "save STL", "load STL" }, { "save OBJ", "load OBJ" }, { "save BMP", "load BMP" } }; auto& q = p[draw(3)];
            g.op = find_op(q[0]); Args l = g; l.op = find_op(q[1]); l.o = (g.a + 1) % SLOTS;
            // an image with two colours is not saved, then there is nothing to load
            if (q[0][5] == 'B') { Args x = g; x.op = find_op("image fill"); x.o = g.a; good.push_back({ 0, x }); }
            good.push_back({ 0, g }); good.push_back({ 0, l }); log("good: %s and load", show(g).c_str());
        }
        ops::mix(sg, t);
    }
    // in a program to which nothing happened
    Res* a = shared_results(1); Res* b = shared_results(1);
    child([&] { start(); recover(*a); }, "the program to which nothing happened");
    clean(scratch(), 0, 6);
    if (junk) { R r(jseed); for (int i = 0; i < 3; i++) if (r.below(2)) { std::string s(r.below(400), 0); for (auto& c : s) c = (char)r.next(); put_file(scratch() + "q" + std::to_string(i), s); } fired(F_DAMAGE); }
    auto hits = [&] { for (auto& g : before) call_ok(world, g); for (auto& x : bad) hit(x); };
    if (dies) {
        log("the process dies in disk operation %llu at the latest, then starts again", (unsigned long long)death);
        child([&] {
            start(); uint64_t n = 0; disk.on_io = [&] { if (n++ == death) _exit(0); };
            for (auto& x : bad) { if (chunk && !x.io.maxchunk) { x.io.short_w = true; x.io.maxchunk = (unsigned)chunk; x.io.seed = death; } if (chunk) { x.f.io.short_w = true; x.f.io.maxchunk = (unsigned)chunk; } }
            hits(); }, "the program in bad times");
        fired(F_CRASH); start();
    } else { start(); hits(); }
    recover(*b);
    for (int i = 0; i < std::max(a->n, b->n); i++) if (i >= a->n || i >= b->n || a->v[i] != b->v[i])
        fail("does-not-recover", "%s of '%s' is not what it is in a program to which nothing happened", what_name[a->what[i]], a->what[i] == END ? "program" : table()[a->op[i]].name);
    end();
    nontrivial(); signature(sg);
}
static Register reg({ "C27", run, 12000, 300000,
    "seeded search: bad times (a drawn history of operations, most of them with failing allocations, full or failing disks, failing opens and closes, missing directories, damaged files, persistent writers left half-way, or death of the process in a drawn disk operation and a new start) are followed by good times (every object built anew, then drawn operations, documents of the same writers, saves with loads) on a healthy machine; every save, load and document must succeed at the first attempt, and everything returned, every object and every file must be what the good times give in a process to which nothing happened. Every run is non-trivial",
    "all of src reached by the operations of sim/ops.h", "disk and allocator (fault injection), process death", "edges of code under test", 0 });
