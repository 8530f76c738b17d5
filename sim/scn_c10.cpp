#include "opsim.h"
using namespace sim;
using namespace opsim;

struct Step { Args g; Fate f; };
struct Held { uint64_t blocks, bytes; int fds; };
static Held held() { AllocStats s = alloc_stats(); return { s.live_blocks, s.live_bytes, open_fds() }; }

// renderers used over several frames, some given up half-way
static void renderer_use(World& w, uint64_t seed, int64_t oom)
{
    R q(seed);
    static int fb[FB_W * FB_H];
    if (oom) alloc_fail(oom, 1);
    sut("use of a renderer", [&] {
        Renderer r(fb, 1 + q.below(FB_W), 1 + q.below(FB_H));
        int nl = q.below(6);
        for (int i = 0; i < nl; i++) { if (q.below(2)) r.add_ambient_light(q.below(0xFFFFFF), q.unit()); else r.add_diffuse_light(q.below(0xFFFFFF), q.unit(), q.pt()); }
        r.set_camera(0, 0, -14, 2, 0, 0, 0, 60);
        int nf = 1 + q.below(3);
        for (int i = 0; i < nf; i++) { r.set_background(q.below(0xFFFFFF)); r.clear(); if (small(*w.mesh[0])) r.draw_mesh(*w.mesh[0], q.below(2)); r.draw_polyline(*w.poly[0], 0xFFFFFF); }
    });
}
// objects on the heap, given up at any point
static void lifetime(World& w, const Args& g, int64_t oom)
{
    if (oom) alloc_fail(oom, 1);
    sut("construct and destroy", [&] {
        std::unique_ptr<Mesh> m(new Mesh(*w.mesh[g.a])), m2(new Mesh);
        std::unique_ptr<Face> f(new Face(*m)); std::unique_ptr<Face> f2(new Face(*f)); *f2 = *f;
        std::unique_ptr<Solid> s(new Solid), s1(new Solid(*m)); s->add_face(*f); *s1 = *s; Solid s2(*s1); s2 = s2;
        std::unique_ptr<SmoothMesh> sm(new SmoothMesh(*w.smooth[g.b])); sm->add_mesh(*w.smooth[g.o]);
        std::unique_ptr<NurbsSolid> ns(new NurbsSolid(*w.solid[g.a])); ns->add_surface(*w.surf[g.b]); NurbsSolid n2; n2 = *ns;
        std::unique_ptr<Image> im(new Image(3, 4, 3)); *im = *w.image[g.a];
        std::vector<Mesh> vm(3, *m); vm.push_back(*m2); vm[1] = *m; vm.erase(vm.begin());
        std::unique_ptr<OBJWriter> ow(new OBJWriter); std::unique_ptr<StepWriter> sw(new StepWriter);
        if (g.n & 1) { ow->open(file_name(w, g.file)); ow->write(*m); } if (g.n & 2) { sw->open(file_name(w, g.file + 1)); if (g.n & 4) sw->open(file_name(w, g.file)); }
    });
}
static void run()
{
    table();
    const std::vector<int> any = select(Choice());
    std::vector<Step> h; int n = 1 + (int)draw(14); uint64_t sg = 10; bool keep = draw(3) == 0;
    for (int i = 0; i < n; i++) {
        // objects kept: their blocks grow to the final size step by step when allocations fail
        Step s; s.g = draw_op(any); s.f = draw_fate(s.g, 2); if (keep && s.f.kind == 1) s.f = Fate(); h.push_back(s); ops::mix(sg, s.g.op * 4 + s.f.kind);
        log("%d: %s%s", i, show(s.g).c_str(), show(s.f).c_str());
    }
    int ne = (int)draw(4);                         // files of some size, saved and loaded on a failing disk
    for (int e = 0; e < ne; e++) {
        static const char* const what[][3] = { { "image fill large", "save BMP", "load BMP" }, { "mesh uv sphere", "save STL", "load STL" }, { "mesh torus", "save OBJ", "load OBJ" }, { "surface sphere", "STEP writer", "STEP writer abandoned" } };
        auto& ww = what[draw(4)]; auto find = [&](const char* n) { for (size_t i = 0; i < table().size(); i++) if (!strcmp(table()[i].name, n)) return (int)i; return 0; };
        std::vector<Step> p; int slot = (int)draw(SLOTS), file = (int)draw(3); bool bad = draw(2);
        for (int k = 0; k < 3; k++) {
            if (k == 2 && draw(2)) break;
            Step s; memset(&s.g, 0, sizeof s.g); s.g.op = find(ww[k]); draw_args(s.g); s.g.o = s.g.a = slot; s.g.file = file;
            if ((k == 1 && bad) || k == 2) { s.f.kind = 2; s.f.io = gen::gen_io(gen::IO_BENIGN | gen::IO_WFAULT | gen::IO_RFAULT, 1 + (int64_t)draw(chance(1, 2) ? 9000 : 40000)); }
            p.push_back(s); log("file step: %s%s", show(s.g).c_str(), show(s.f).c_str());
        }
        size_t at = (size_t)draw(h.size() + 1); h.insert(h.begin() + (long)at, p.begin(), p.end());
    }
    uint64_t rseed = draw(1u << 20); int64_t roo = chance(1, 2) ? 1 + (int64_t)draw(8) : 0; bool rend = draw(2);
    bool life = draw(2); Args lg; memset(&lg, 0, sizeof lg); draw_args(lg); int64_t loo = chance(2, 3) ? 1 + (int64_t)draw(120) : 0;
    std::vector<Args> first; int nf = (int)draw(6);
    { std::vector<int> from; for (int i : select({ REBUILD, IO, -1 })) if (table()[i].in1 == K_NONE) from.push_back(i); for (int i = 0; i < nf; i++) first.push_back(draw_op(from)); for (auto& g : first) log("starts with %s", name(g)); }
    if (keep) loo = roo = 0;
    uint64_t ws = draw(1u << 20);
    log("%s objects between repetitions%s%s", keep ? "keeps" : "destroys", rend ? ", uses renderers" : "", life ? ", uses temporary objects" : "");
    World w; null_world(w);
    const int reps = keep ? 8 : 4;
    std::vector<Held> v; unsigned faults = 0;
    v.reserve(reps);
    Held base0 = held(); (void)base0;
    for (int r = 0; r < reps; r++) {
        if (!keep || !r) must("construct objects", [&] { make_world(w, ws, scratch().c_str()); });
        else {                                     // same start: everything cleared
            must("clear objects", [&] { for (int i = 0; i < SLOTS; i++) { w.mesh[i]->clear(); w.mesh[i]->set_color(-1); w.curve[i]->clear(); w.surf[i]->clear(); w.solid[i]->clear(); w.smooth[i]->clear(); w.image[i]->resize(0, 0, 1); w.poly[i]->clear(); } });
        }
        for (int f = 0; f < 5; f++) del_file(file_name(w, f));
        for (auto& g : first) call_ok(w, g);
        for (auto& s : h) { Result x = call_fate(w, s.g, s.f); if (x.oc == OOM || (s.f.kind == 2 && disk.hard_fault)) faults++; }
        if (rend) renderer_use(w, rseed, roo);
        if (life) lifetime(w, lg, loo);
        if (!keep) end_world(w);
        { Quiet q; v.push_back(held()); }
    }
    if (faults || loo || roo) nontrivial();
    else if (n > 3) nontrivial();
    Held a = v[v.size() - 4], b = v[v.size() - 3], c = v[v.size() - 2], d = v[v.size() - 1];
    log("held after the last repetitions: blocks %llu %llu %llu %llu, descriptors %d %d %d %d", (unsigned long long)a.blocks, (unsigned long long)b.blocks, (unsigned long long)c.blocks, (unsigned long long)d.blocks, a.fds, b.fds, c.fds, d.fds);
    if (d.fds > c.fds && c.fds > b.fds) fail("descriptor-leak", "every repetition of the history leaves %d more open descriptors", d.fds - c.fds);
    if (!keep) {                                   // nothing is alive: nothing may be held beyond what the first repetition set up
        if (d.fds != b.fds) fail("descriptor-leak", "repeating the history leaves %d more open descriptors", d.fds - b.fds);
        if (d.blocks > b.blocks || d.bytes > b.bytes) fail("memory-leak", "repeating the history leaves %lld more blocks (%lld bytes)", (long long)(d.blocks - b.blocks), (long long)(d.bytes - b.bytes));
    } else {
        if (a.blocks < b.blocks && b.blocks < c.blocks && c.blocks < d.blocks) fail("memory-leak", "every repetition of the history leaves %lld more blocks", (long long)(d.blocks - c.blocks));
        if (a.bytes < b.bytes && b.bytes < c.bytes && c.bytes < d.bytes) fail("memory-leak", "every repetition of the history holds %lld more bytes", (long long)(d.bytes - c.bytes));
        end_world(w);
    }
    signature(sg * 2 + keep);
}
static Register reg({ "C10", run, 10000, 500000,
    "seeded search: a drawn history of operations with allocation and disk faults, renderers and temporary objects given up half-way is repeated 4 or 8 times in one process, with all objects destroyed or only cleared in between; live blocks and bytes of the code under test and open descriptors must not grow. Deallocations are matched against allocations (kind and size). Non-trivial: faults fired or the history has more than three operations",
    "all of src reached by the operations of sim/ops.h, Renderer, writers, Face, Solid", "disk and allocator (fault injection)", "edges of code under test", 0 });
