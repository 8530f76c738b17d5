#include "opsim.h"
using namespace sim;
using namespace opsim;

static bool has_file(World& w, int f, std::string& b) { return get_file(file_name(w, f), b); }

// the operation `g` with allocation failures, on copies of the object it writes to
static void experiment(World& w, Args g, uint64_t& sg)
{
    const Def& d = table()[g.op];
    void** sl = d.out ? slot_of(w, d.out, g.o) : nullptr;
    void* orig = sl ? *sl : nullptr;
    uint64_t others = peek_others(w, d.out, g.o), old = d.out ? peek(w, d.out, g.o) : 0;
    if (sl) *sl = clone_obj(d.out, orig);
    if (d.out && peek(w, d.out, g.o) != old && d.out != K_MESH) fail("copy-differs", "a copy of a %s differs from its source", kind_name[d.out]);
    if (d.out) old = peek(w, d.out, g.o);
    std::string ref_file;
    Result ref = call_ok(w, g);
    uint64_t count = alloc_count_last();
    uint64_t want = d.out ? peek(w, d.out, g.o) : 0;
    if (d.flags & SAVE) has_file(w, g.file, ref_file);
    if (sl) { del_obj(d.out, *sl); *sl = orig; }
    log("check %s: %llu allocations", show(g).c_str(), (unsigned long long)count);
    if (ref.skipped() || !count) return;
    int trials = 1 + (int)draw(4);
    for (int t = 0; t < trials; t++) {
        int64_t nth = 1 + (int64_t)draw(count), many = chance(1, 3) ? 1 << 30 : 1 + (int64_t)draw(2);
        if (sl) *sl = clone_obj(d.out, orig);
        alloc_fail(nth, many);
        Result r = call(w, g);
        uint64_t got = d.out ? peek(w, d.out, g.o) : 0;
        log("  allocation %lld%s fails: %s", (long long)nth, many > 2 ? " and all after" : "", r.oc == OOM ? "reported out of memory" : "returned");
        nontrivial(); ops::mix(sg, g.op * 64 + (r.oc == OOM ? 1 : 0) + (nth < 20 ? nth * 2 : 50));
        if (d.out) { const char* bad = nullptr; must("read object", [&] { bad = broken_obj(w, d.out, g.o); }); if (bad) fail("inconsistent", "%s out of memory left its %s inconsistent: %s", d.name, kind_name[d.out], bad); }
        if (r.oc == OK) {
            bool failure = (d.flags & RES) && !r.v && ref.v;
            if (!failure) {
                if (r.v != ref.v) fail("wrong-result", "%s hid an allocation failure and returned %llx instead of %llx", d.name, (unsigned long long)r.v, (unsigned long long)ref.v);
                if (got != want) fail("wrong-result", "%s hid an allocation failure and left another result", d.name);
                if ((d.flags & SAVE) && r.v) { std::string b; has_file(w, g.file, b); if (b != ref_file) fail("wrong-result", "%s hid an allocation failure and reported success with another file", d.name); }
                probe("failed allocation hidden, result right");
            } else probe("failure result");
        }
        if ((d.flags & STRONG) && got != old && got != want) fail("half-done", "%s out of memory left its %s neither as it was nor fully changed", d.name, kind_name[d.out]);
        if (peek_others(w, d.out, g.o) != others) fail("input-changed", "%s out of memory changed an object that is only an input", d.name);
        // use of the object
        int nf = (int)draw(3);
        for (int i = 0; i < nf && d.out; i++) {
            Args q = draw_op(select({ 0, IO, draw(2) ? (int)d.out : -1 }));
            const Def& e = table()[q.op];
            if (e.out == d.out) { q.o = g.o; } else if (!(e.flags & READ)) continue;
            if (e.in1 == d.out && !(e.flags & DISTINCT)) q.a = g.o;
            if (e.flags & DISTINCT) distinct(q);
            log("  then %s", name(q));
            call_ok(w, q); peek(w, d.out, g.o);
        }
        if ((d.flags & REBUILD) && !(d.in1 == d.out && g.a == g.o) && !(d.in2 == d.out && g.b == g.o) && !(d.flags & KEEPCOLOR && d.out == K_MESH && ((Mesh*)*sl)->get_color() != ((Mesh*)orig)->get_color())) {
            Result x = call_ok(w, g);
            if (x.v != ref.v || (((d.flags & RES) == 0 || ref.v) && peek(w, d.out, g.o) != want)) fail("repeat-differs", "%s repeated after running out of memory gives another result", d.name);
            probe("repeated after failure");
        }
        if (d.flags & READ) {
            Result x = call_ok(w, g);
            if (x.v != ref.v) fail("repeat-differs", "%s repeated after running out of memory gives another result", d.name);
            if (d.flags & SAVE) { std::string b; has_file(w, g.file, b); if (b != ref_file) fail("repeat-differs", "%s repeated after running out of memory writes another file", d.name); }
        }
        if (sl) { del_obj(d.out, *sl); *sl = orig; }
        if (peek_others(w, d.out, g.o) != others) fail("input-changed", "%s repeated changed an object that is only an input", d.name);
    }
}
// a renderer that lives through failures
static void renderer(World& w, uint64_t& sg)
{
    struct Act { int kind; int slot; uint64_t seed; };
    std::vector<Act> acts; int n = 2 + (int)draw(8);
    for (int i = 0; i < n; i++) { Act a; a.kind = (int)draw(8); a.slot = (int)draw(SLOTS); a.seed = draw(1u << 16); acts.push_back(a); }
    std::vector<int> fb(FB_W * FB_H, 7), fb2(FB_W * FB_H, 9);
    std::vector<char> ok(n, 0);
    Renderer* r[2] = { nullptr, nullptr };
    auto make = [&](int k) { r[k] = new Renderer(k ? fb2.data() : fb.data(), FB_W, FB_H); };
    if (draw(2)) { alloc_fail(1 + (int64_t)draw(2), 1); if (sut("Renderer", [&] { make(0); }) == OOM) probe("renderer could not be made"); }
    if (!r[0]) must("Renderer", [&] { make(0); });
    must("Renderer", [&] { make(1); });
    auto act = [&](Renderer& x, const Act& a) {
        R q(a.seed);
        switch (a.kind) {
        case 0: x.add_ambient_light((int)q.below(0xFFFFFF), 0.3); break;
        case 1: x.add_diffuse_light((int)q.below(0xFFFFFF), 0.5, q.pt()); break;
        case 2: x.set_background(q.below(0xFFFFFF)); x.clear(); break;
        case 3: x.set_camera(0, 0, -14 - q.below(4), 2, 0, 0, q.unit(), 60); break;
        case 4: if (small(*w.mesh[a.slot])) x.draw_mesh(*w.mesh[a.slot], q.below(2)); break;
        case 5: x.draw_polyline(*w.poly[a.slot], q.below(0xFFFFFF)); break;
        case 6: { Point3 p = q.pt(), s = q.pt(); x.draw_triangle_1color(p, s, q.pt(), q.below(0xFFFFFF), true); break; }
        default: { Point3 p = q.pt(); x.draw_line(p, q.pt(), q.below(0xFFFFFF)); x.draw_pixel(p, 0xFFFFFF); }
        }
    };
    for (int k = 0; k < 2; k++) must("Renderer::set_camera", [&] { r[k]->set_background(5); r[k]->clear(); r[k]->set_camera(0, 0, -14, 2, 0, 0, 0, 60); });
    for (int i = 0; i < n; i++) {
        bool f = draw(2);
        if (f) alloc_fail(1 + (int64_t)draw(3), 1);
        Outcome o = sut("Renderer operation", [&] { act(*r[0], acts[i]); });
        ok[i] = o == OK;
        if (f && alloc_fault_fired()) { nontrivial(); if (o == OOM) probe("renderer operation out of memory"); }
        log("renderer action %d kind %d: %s", i, acts[i].kind, o == OK ? "done" : "out of memory");
        ops::mix(sg, acts[i].kind * 2 + ok[i]);
        // drawing interrupted may have left part of the picture: redraw it
        if (o == OOM && acts[i].kind >= 2) { must("Renderer operation", [&] { act(*r[0], acts[i]); }); ok[i] = 1; }
    }
    for (int i = 0; i < n; i++) if (ok[i]) must("Renderer operation", [&] { act(*r[1], acts[i]); });
    must("~Renderer", [&] { delete r[0]; delete r[1]; });
    if (fb != fb2) fail("renderer-state", "a renderer that ran out of memory draws another picture than one that did not");
}
static void run()
{
    table();
    World w; new_world(w);
    const std::vector<int> any = select(Choice()), writers = select({ 0, IO | READ, -1 });
    populate(w, 2);
    uint64_t sg = 9;
    int nh = (int)draw(5);
    for (int k = 0; k < nh; k++) { Args g = draw_op(any); Result r = call_ok(w, g); log("%d: %s%s", k, show(g).c_str(), r.skipped() ? ": skipped" : ""); }
    if (chance(1, 10)) renderer(w, sg);
    int n = 1 + (int)draw(4);
    for (int k = 0; k < n; k++) {
        Args g = draw_op(any);
        if (table()[g.op].flags & LOAD) {          // something to load
            const char* s = table()[g.op].name; Args q = g;
            const char* how = !strcmp(s, "load STL") ? "save STL" : !strcmp(s, "load OBJ") ? "save OBJ" : "save BMP";
            for (size_t i = 0; i < table().size(); i++) if (!strcmp(table()[i].name, how)) q.op = (int)i;
            call_ok(w, q);
        }
        experiment(w, g, sg);
    }
    signature(sg);
    end_world(w);
}
static Register reg({ "C09", run, 24000, 600000,
    "seeded search: drawn operations on objects made by a drawn history are run once without faults to count their allocations and record the result, then again on copies with the n-th or all further allocations failing; reports, inputs, the all-or-nothing operations, further use of the object and repetition are compared with the run without faults. Non-trivial: an allocation was told to fail",
    "all of src reached by the operations of sim/ops.h and Renderer", "allocator (fault injection)", "edges of code under test", 0 });
