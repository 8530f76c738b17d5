#include "opsim.h"
using namespace sim;
using namespace opsim;

static void one_file(World& w)                     // a file for the loaders
{
    Args g; memset(&g, 0, sizeof g);
    if (chance(1, 6)) {                             // files with next to nothing in them
        static const char* const what[] = { "", "# nothing\n", "v 1 2 3\nv 4 5 6\nv 7 8 9\n", "\n\n", "vn 0 0 1" };
        int k = (int)draw(6), f = (int)draw(3); std::string s = k < 5 ? what[k] : std::string(84, '\0');
        put_file(file_name(w, f), s); log("file %d of %zu bytes", f, s.size()); probe("file without records"); return;
    }
    static const char* const how[] = { "save STL", "save OBJ", "save BMP" };
    const char* h = how[draw(3)];
    for (size_t i = 0; i < table().size(); i++) if (!strcmp(table()[i].name, h)) g.op = (int)i;
    draw_args(g); call_ok(w, g);
    log("%s", show(g).c_str());
}
static void run()
{
    table();
    World w; new_world(w);
    const std::vector<int> any = select(Choice()), builders = select({ REBUILD, 0, -1 });
    std::vector<int> derived; for (int i : builders) if (table()[i].in1 != K_NONE || (table()[i].flags & LOAD)) derived.push_back(i);
    populate(w, 3);
    int nsteps = 1 + (int)draw(16), checks = 0;
    uint64_t sg = 1;
    one_file(w);
    for (int k = 0; k < nsteps || !checks; k++) {
        if (k < nsteps && draw(3)) {               // history
            if (chance(1, 8)) one_file(w);
            Args g = draw_op(any); Fate f = draw_fate(g, 4);
            Result r = call_fate(w, g, f);
            log("%d: %s%s: %s", k, show(g).c_str(), show(f).c_str(), r.oc == OOM ? "out of memory" : r.skipped() ? "skipped" : "done");
            ops::mix(sg, g.op * 4 + f.kind);
            continue;
        }
        checks++;
        Args g = draw_op(draw(2) ? derived : builders); distinct(g);
        const Def& d = table()[g.op];
        std::vector<Args> follow; int nf = (int)draw(4);
        for (int i = 0; i < nf; i++) {
            Args q = draw_op(select({ 0, IO, sim::draw(2) ? (int)d.out : -1 })); 
            const Def& e = table()[q.op];
            if (e.out == d.out) q.o = g.o; else if (!(e.flags & READ)) continue;       // changes only the object examined
            if (e.in1 == d.out && !(e.flags & DISTINCT)) q.a = g.o;
            if (e.flags & DISTINCT) distinct(q);
            follow.push_back(q);
        }
        std::string f = show(g); for (auto& q : follow) f += "; then " + std::string(name(q));
        log("%d: check %s", k, f.c_str());
        void** sl = slot_of(w, d.out, g.o);
        void* dirty = *sl; void* fresh = new_obj(d.out);
        if (d.out == K_MESH) { int c = ((Mesh*)dirty)->get_color(); ((Mesh*)fresh)->set_color(c); }     // colours are kept by builders
        uint64_t before_dirty = peek(w, d.out, g.o), before = 0;
        // the inputs: everything but the target
        *sl = fresh;
        std::vector<uint64_t> a, b;
        for (int pass = 0; pass < 2; pass++) {
            *sl = pass ? dirty : fresh;
            std::vector<uint64_t>& v = pass ? b : a;
            void* cur = *sl;
            Result r = call_ok(w, g);
            bool loaded = !(d.flags & LOAD) || (r.v && r.v != SKIPPED);
            v.push_back(r.v);
            if (r.v == SKIPPED || !loaded || ((d.flags & RES) && !r.v)) continue;
            v.push_back(peek(w, d.out, g.o));
            for (auto& q : follow) { Result x = call_ok(w, q); v.push_back(x.v); v.push_back(peek(w, d.out, g.o)); }
            // inputs untouched by all this
            *sl = nullptr;
            uint64_t h = 0; must("read inputs", [&] { for (int t = 1; t < K_N; t++) for (int i = 0; i < SLOTS; i++) { if (t == d.out && i == g.o) continue; ops::mix(h, hash_obj(w, (Kind)t, i)); } });
            *sl = cur;
            if (pass == 0) before = h; else if (before && before != h) fail("input-changed", "building with %s twice changed an object that is only an input", d.name);
            before = h;
        }
        (void)before_dirty;
        if (a != b) {
            size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
            if (a.size() != b.size() || i == 0) fail("depends-on-previous-content", "%s returned %llx into a used %s but %llx into a new one", d.name, (unsigned long long)b[0], kind_name[d.out], (unsigned long long)a[0]);
            if (i == 1) fail("depends-on-previous-content", "%s into a used %s gives another result than into a new one", d.name, kind_name[d.out]);
            fail("depends-on-previous-content", "after %s a used %s behaves unlike a new one: %s differs", d.name, kind_name[d.out], name(follow[(i - 2) / 2]));
        }
        *sl = dirty; del_obj(d.out, fresh);
        if (a.size() > 1) { nontrivial(); ops::mix(sg, 1000 + g.op); if (d.flags & LOAD) probe("successful load into a used object"); }
        else probe("check not applicable");
    }
    signature(sg);
    end_world(w);
}
static Register reg({ "C13", run, 24000, 400000,
    "seeded search: a drawn history of library operations, with allocation and disk faults, is applied to a world of objects; then a drawn builder writes into an object used in that history and into a new one, and both are read and put through the same drawn further operations: every result must be bitwise the same, and the inputs unchanged. Non-trivial: at least one builder ran into a used object",
    "all of src reached by the operations of sim/ops.h", "disk and allocator (fault injection)", "edges of code under test", 0 });
