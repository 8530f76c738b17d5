// Drawing operations of ops.h with the simulator's choices.
#pragma once
#include "core.h"
#include "gen.h"
#include "ops.h"
#include <memory>

namespace opsim {
using namespace ops;
struct Choice { unsigned need = 0, avoid = 0; int out = -1; };
inline std::vector<int> select(const Choice& c)
{
    std::vector<int> v; auto& t = table();
    for (size_t i = 0; i < t.size(); i++) if ((t[i].flags & c.need) == c.need && !(t[i].flags & c.avoid) && (c.out < 0 || t[i].out == c.out)) v.push_back((int)i);
    return v;
}
inline void draw_args(Args& g)
{
    const Def& d = table()[g.op];
    g.o = (int)sim::draw(SLOTS); g.a = (int)sim::draw(SLOTS); g.b = (int)sim::draw(SLOTS);
    g.n = (int)sim::draw(12); g.m = (int)sim::draw(12);
    g.x = 0.5 + sim::draw(24) * 0.25; g.y = 0.5 + sim::draw(24) * 0.25; g.z = 0.5 + sim::draw(24) * 0.25;
    g.seed = sim::draw(1u << 20); g.file = (int)sim::draw(3);
    if (d.flags & DISTINCT) { if (d.in1 == d.out && g.a == g.o) g.a = (g.o + 1) % SLOTS; if (d.in2 == d.out && g.b == g.o) g.b = (g.o + 1) % SLOTS; }
}
// the inputs are not the target
inline void distinct(Args& g)
{
    const Def& d = table()[g.op];
    if (d.in1 == d.out && g.a == g.o) g.a = (g.o + 1) % SLOTS;
    if (d.in2 == d.out && g.b == g.o) g.b = (g.o + 1) % SLOTS;
}
inline Args draw_op(const std::vector<int>& from) { Args g; memset(&g, 0, sizeof g); g.op = from[sim::draw(from.size())]; draw_args(g); return g; }
inline Args draw_op(const Choice& c = Choice()) { return draw_op(select(c)); }
inline std::string show(const Args& g)
{
    const Def& d = table()[g.op]; char b[240];
    snprintf(b, sizeof b, "%s [%s%d of %s%d %s%d n=%d m=%d x=%g y=%g z=%g seed=%llu file=%d]", d.name, kind_name[d.out], g.o, kind_name[d.in1], g.a, kind_name[d.in2], g.b, g.n, g.m, g.x, g.y, g.z, (unsigned long long)g.seed, g.file);
    return b;
}
inline const char* name(const Args& g) { return table()[g.op].name; }
struct Result { sim::Outcome oc; uint64_t v; bool skipped() const { return oc == sim::OK && v == SKIPPED; } };
inline Result call(World& w, const Args& g)
{
    Result r; r.v = 0;
    r.oc = sim::sut(name(g), [&] { r.v = exec(w, g); });
    if (r.oc == sim::EXC) sim::fail("unexpected-exception", "%s threw an exception that is not bad_alloc", name(g));
    if (r.oc == sim::OOM) r.v = 0;
    return r;
}
inline Result call_ok(World& w, const Args& g)
{
    Result r = call(w, g);
    if (r.oc != sim::OK) sim::fail("unexpected-exception", "%s failed although nothing was injected", name(g));
    return r;
}
inline void new_world(World& w) { uint64_t s = sim::draw(1u << 20); null_world(w); sim::must("construct objects", [&] { make_world(w, s, sim::scratch().c_str()); }); }
inline void end_world(World& w) { sim::must("destroy objects", [&] { free_world(w); }); }
inline void* new_obj(Kind k)
{
    void* p = nullptr;
    sim::must("construct", [&] {
        switch (k) {
        case K_MESH: p = new Mesh; break; case K_CURVE: p = new NurbsCurve; break; case K_SURF: p = new NurbsSurface; break; case K_SOLID: p = new NurbsSolid; break;
        case K_SMOOTH: p = new SmoothMesh; break; case K_IMAGE: p = new Image; break; case K_POLY: p = new std::vector<Point3>; break; default: break;
        } });
    return p;
}
inline void* clone_obj(Kind k, const void* q)
{
    void* p = nullptr;
    sim::must("copy construct", [&] {
        switch (k) {
        case K_MESH: p = new Mesh(*(const Mesh*)q); break; case K_CURVE: p = new NurbsCurve(*(const NurbsCurve*)q); break; case K_SURF: p = new NurbsSurface(*(const NurbsSurface*)q); break; case K_SOLID: p = new NurbsSolid(*(const NurbsSolid*)q); break;
        case K_SMOOTH: p = new SmoothMesh(*(const SmoothMesh*)q); break; case K_IMAGE: p = new Image(*(const Image*)q); break; case K_POLY: p = new std::vector<Point3>(*(const std::vector<Point3>*)q); break; default: break;
        } });
    return p;
}
inline void del_obj(Kind k, void* p)
{
    sim::must("destroy", [&] {
        switch (k) {
        case K_MESH: delete (Mesh*)p; break; case K_CURVE: delete (NurbsCurve*)p; break; case K_SURF: delete (NurbsSurface*)p; break; case K_SOLID: delete (NurbsSolid*)p; break;
        case K_SMOOTH: delete (SmoothMesh*)p; break; case K_IMAGE: delete (Image*)p; break; case K_POLY: delete (std::vector<Point3>*)p; break; default: break;
        } });
}
inline void** slot_of(World& w, Kind k, int i)
{
    switch (k) {
    case K_MESH: return (void**)&w.mesh[i]; case K_CURVE: return (void**)&w.curve[i]; case K_SURF: return (void**)&w.surf[i]; case K_SOLID: return (void**)&w.solid[i];
    case K_SMOOTH: return (void**)&w.smooth[i]; case K_IMAGE: return (void**)&w.image[i]; default: return (void**)&w.poly[i];
    }
}
inline uint64_t peek(World& w, Kind k, int i, bool color = true)      // reads an object as code under test
{
    uint64_t h = 0; sim::must("read object", [&] { h = hash_obj(w, k, i, color); }); return h;
}
inline uint64_t peek_all(World& w) { uint64_t h = 0; sim::must("read objects", [&] { h = hash_world(w); }); return h; }
// everything but one object
inline uint64_t peek_others(World& w, Kind k, int o)
{
    uint64_t h = 0;
    sim::must("read objects", [&] { for (int t = 1; t < K_N; t++) for (int i = 0; i < SLOTS; i++) { if (t == k && i == o) continue; ops::mix(h, hash_obj(w, (Kind)t, i)); } });
    return h;
}
// most objects get a content first, so that operations that need one have it
inline void populate(World& w, unsigned per_kind)
{
    for (int k = 1; k < K_N; k++) {
        unsigned n = (unsigned)sim::draw(per_kind + 1);
        std::vector<int> from;
        for (int i : select({ REBUILD, IO, k })) if (table()[i].in1 == K_NONE) from.push_back(i);
        if (from.empty()) continue;
        for (unsigned j = 0; j < n; j++) { Args g = draw_op(from); g.o = (int)j % SLOTS; call_ok(w, g); sim::log("have %s", show(g).c_str()); }
    }
}
// faults of one step of a history: 0 none, 1 allocation, 2 disk
struct Fate { int kind = 0; int64_t nth = 0, many = 0; sim::IoPlan io; };
inline Fate draw_fate(const Args& g, unsigned oneof)
{
    Fate f;
    if (!sim::chance(1, oneof)) return f;
    bool io = table()[g.op].flags & IO;
    if (io && sim::draw(2)) { f.kind = 2; f.io = gen::gen_io(gen::IO_BENIGN | gen::IO_WFAULT | gen::IO_RFAULT, 1 + (int64_t)sim::draw(3000)); }
    else { f.kind = 1; f.nth = 1 + (int64_t)sim::draw(sim::chance(1, 2) ? 60 : 8); f.many = sim::chance(1, 3) ? 1 << 30 : 1; }
    return f;
}
inline Result call_fate(World& w, const Args& g, const Fate& f)
{
    if (f.kind == 1) sim::alloc_fail(f.nth, f.many);
    sim::disk.set(f.kind == 2 ? f.io : sim::IoPlan());
    Result r = call(w, g);
    sim::disk.set(sim::IoPlan());
    return r;
}
inline std::string show(const Fate& f) { char b[80]; if (!f.kind) return ""; if (f.kind == 2) return " with " + gen::describe(f.io); snprintf(b, sizeof b, " with allocation %lld%s failing", (long long)f.nth, f.many > 1 ? " and all after" : ""); return b; }
}
