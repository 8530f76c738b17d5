#include "ops.h"
#include "mod_c16.h"
using namespace ops;
static_assert(sizeof(ModArgs) == sizeof(Args), "");
template <class T> static void again(T*& p) { delete p; p = nullptr; p = new T; }
extern "C" Module* sim_module()
{
    static Module m;
    static std::vector<ModDef>* defs;
    if (!defs) { defs = new std::vector<ModDef>; for (auto& d : table()) defs->push_back({ d.name, d.out, d.in1, d.in2, d.flags }); }
    m.ops = (int)defs->size(); m.def = defs->data(); m.kinds = K_N; m.slots = SLOTS;
    m.make = [](uint64_t s, const char* d) -> void* { World* w = new World; null_world(*w); make_world(*w, s, d); return w; };
    m.exec = [](void* w, const ModArgs* g) -> uint64_t { return exec(*(World*)w, *(const Args*)g); };
    m.obj = [](void* w, int k, int i) -> uint64_t { return hash_obj(*(World*)w, (Kind)k, i); };
    m.all = [](void* w) -> uint64_t { return hash_world(*(World*)w); };
    m.renew = [](void* v, int k, int i) { World& w = *(World*)v; switch (k) { case K_MESH: again(w.mesh[i]); break; case K_CURVE: again(w.curve[i]); break; case K_SURF: again(w.surf[i]); break; case K_SOLID: again(w.solid[i]); break; case K_SMOOTH: again(w.smooth[i]); break; case K_IMAGE: again(w.image[i]); break; case K_POLY: again(w.poly[i]); break; default: break; } };
    m.free = [](void* w) { free_world(*(World*)w); delete (World*)w; };
    return &m;
}
