#include "fileobj.h"
#include <cmath>
#include <cstring>
using namespace sim;
using namespace gen;

static MeshM rounded(const MeshM& m)      // what an STL file keeps
{
    MeshM r; StlM s = stl_of(m); r.color = m.color;
    for (auto& t : s.t) { int b = (int)r.v.size(); for (auto& v : t) { V3 p; for (int c = 0; c < 3; c++) { float f; memcpy(&f, &v[c], 4); p[c] = f; } r.v.push_back(p); } r.t.push_back(T3{ { b, b + 1, b + 2 } }); }
    return r;
}
static bool same_tri(const MeshM& got, const MeshM& want, std::string& why)
{
    if (got.t.size() != want.t.size()) { why = std::to_string(got.t.size()) + " triangles instead of " + std::to_string(want.t.size()); return false; }
    for (size_t i = 0; i < got.t.size(); i++) for (int k = 0; k < 3; k++) for (int c = 0; c < 3; c++) {
        double a = got.v[got.t[i][k]][c], b = want.v[want.t[i][k]][c];
        if (!(a == b) && !(std::isnan(a) && std::isnan(b))) { char s[200]; snprintf(s, sizeof s, "triangle %zu corner %d coordinate %d is %.17g instead of %.17g", i, k, c, a, b); why = s; return false; }
    }
    return true;
}
static bool same_obj(const MeshM& got, const MeshM& want, bool exact, std::string& why)
{
    if (got.v.size() != want.v.size()) { why = std::to_string(got.v.size()) + " vertices instead of " + std::to_string(want.v.size()); return false; }
    for (size_t i = 0; i < got.v.size(); i++) for (int c = 0; c < 3; c++) {
        double a = got.v[i][c], b = want.v[i][c];
        if (!(exact ? a == b : close6(a, b))) { char s[200]; snprintf(s, sizeof s, "vertex %zu coordinate %d is %.17g instead of %.17g", i, c, a, b); why = s; return false; }
    }
    if (got.t != want.t) {
        size_t i = 0; while (i < got.t.size() && i < want.t.size() && got.t[i] == want.t[i]) i++;
        why = "triangles differ from number " + std::to_string(i) + " on (" + std::to_string(got.t.size()) + " and " + std::to_string(want.t.size()) + ")"; return false;
    }
    return true;
}
static IoPlan benign() { return gen_io(IO_BENIGN, 1000); }
static bool eventful = false;
static void plan_log(const char* w, const IoPlan& p) { if (p.short_r || p.eintr_r) eventful = true; log("%s with%s", w, describe(p).c_str()); }

static void mesh_chain()
{
    std::vector<Mesh> pool(2);
    MeshOpt opt; opt.wide = draw(2); opt.maxabs = opt.wide ? 1e30 : 1e6;
    gen_mesh(pool[0], opt);
    if (draw(2)) { log("second object used before:"); gen_mesh(pool[1], opt); }
    int cur = 0; uint64_t sg = 0;
    int steps = 1 + (int)draw(6); bool second_gen = false;
    for (int s = 0; s < steps; s++) {
        bool stl = draw(2); int same = (int)draw(3); // same: load into the object saved
        std::string path = scratch_file(stl ? "c.stl" : "c.obj"), why;
        MeshM before = read_mesh(pool[cur]);
        IoPlan p = benign(); plan_log(stl ? "save STL" : "save OBJ", p); disk.set(p);
        bool ok = false;
        must("save", [&] { ok = stl ? STLFile::save(path, pool[cur]) : OBJFile::save(path, pool[cur]); });
        if (!ok) fail("save-failed", "save failed on a disk without errors");
        MeshM after = read_mesh(pool[cur]);
        if (!same_mesh(before, after)) fail("save-changed-object", "saving changed the mesh");
        int dst = same == 2 ? cur : 1 - cur;
        if (chance(1, 5)) { IoPlan f = gen_io(IO_RFAULT, 500); disk.set(f); bool r = false; must("load", [&] { r = stl ? STLFile::load(path, pool[1 - cur]) : OBJFile::load(path, pool[1 - cur]); }); log("  first attempt with%s -> %d", describe(f).c_str(), r); }
        p = benign(); plan_log("load", p); disk.set(p);
        must("load", [&] { ok = stl ? STLFile::load(path, pool[dst]) : OBJFile::load(path, pool[dst]); });
        disk.set(IoPlan());
        if (!ok) fail("load-failed", "load of a file just saved failed");
        MeshM got = read_mesh(pool[dst]);
        if (stl) { if (!same_tri(got, rounded(before), why)) fail("round-trip", "STL: %s", why.c_str()); }
        else if (!same_obj(got, before, second_gen, why)) fail("round-trip", "OBJ%s: %s", second_gen ? " (second generation)" : "", why.c_str());
        log("  -> %s", describe(got).c_str());
        second_gen = !stl;      // what was loaded from OBJ has six digits, saving it again as OBJ must keep it exactly
        cur = dst;
        sg = sg * 31 + stl * 2 + same + before.t.size() * 1009 + eventful;
        // edit
        int nt = pool[cur].nb_triangles();
        switch (draw(5)) {
        case 1: if (nt) { int i = (int)draw(nt); must("delete triangle", [&] { pool[cur].unlink_triangle(i); }); log("  delete triangle %d", i); } break;
        case 2: { uint64_t b = draw(1u << 20); Rng r(b); double c[9]; for (auto& x : c) x = gen_coord(r, (int)r.below(7), 1e6); must("add triangle", [&] { pool[cur].add_triangle(Point3(c[0], c[1], c[2]), Point3(c[3], c[4], c[5]), Point3(c[6], c[7], c[8])); }); second_gen = false; log("  add triangle"); break; }
        case 3: if (nt && !pool[cur].is_triangle_unlinked(0)) { must("split", [&] { pool[cur].split_triangle_with_vertex(0, Point3(0.125, 7. / 3., 1e5 / 7)); }); second_gen = false; log("  split triangle 0"); } break;
        case 4: { int o = 1 - cur; must("add mesh", [&] { pool[cur].add_mesh(pool[o]); }); second_gen = false; log("  append the other mesh"); break; }
        default: break;
        }
        if (pool[cur].nb_triangles() > 20000) break;
    }
    if (steps > 1 || eventful) nontrivial();
    signature(sg);
}
static void image_chain()
{
    Image im[2]; gen_image(im[0], 0, true); if (draw(2)) gen_image(im[1], 0, false);
    int cur = 0, steps = 1 + (int)draw(5); uint64_t sg = 7;
    for (int s = 0; s < steps; s++) {
        std::string path = scratch_file("c.bmp"), why; int same = (int)draw(3);
        ImageM before = read_image(im[cur]); bool ok = false;
        IoPlan p = benign(); plan_log("save BMP", p); disk.set(p);
        must("save BMP", [&] { ok = ImageIoBmp::write(path, &im[cur]); });
        if (!ok) fail("save-failed", "BMP save failed on a disk without errors");
        if (!same_image(read_image(im[cur]), before, false, why)) fail("save-changed-object", "saving changed the image: %s", why.c_str());
        int dst = same == 2 ? cur : 1 - cur;
        if (chance(1, 5)) { IoPlan f = gen_io(IO_RFAULT, 500); disk.set(f); bool r = false; must("load BMP", [&] { r = ImageIoBmp::read(path, &im[1 - cur]); }); log("  first attempt with%s -> %d", describe(f).c_str(), r); }
        p = benign(); plan_log("load", p); disk.set(p);
        must("load BMP", [&] { ok = ImageIoBmp::read(path, &im[dst]); });
        disk.set(IoPlan());
        if (!ok) fail("load-failed", "load of a BMP file just saved failed");
        ImageM got = read_image(im[dst]);
        if (!same_image(got, before, true, why)) fail("round-trip", "BMP: %s", why.c_str());
        log("  -> %d x %d x %d", got.w, got.h, got.p);
        cur = dst; sg = sg * 31 + same + got.w * 1009 + got.h * 77 + got.p + eventful;
        if (draw(2) && got.w && got.h) { int x = (int)draw(got.w), y = (int)draw(got.h); must("set pixel", [&] { for (int q = 0; q < got.p; q++) im[cur](x, y, q) ^= 0x5A; }); log("  change pixel %d %d", x, y); }
        if (draw(4) == 3) gen_image(im[1 - cur], 0, false);
    }
    if (steps > 1 || eventful) nontrivial();
    signature(sg);
}
static void run() { if (draw(3) == 2) image_chain(); else mesh_chain(); }
static Register reg({ "C03", run, 24000, 1500000,
    "seeded search: chains of save, (failing load,) load and edit through STL, OBJ and BMP files that already exist, into new, used or the same objects, with short and interrupted transfers; each generation is compared with the model of the previous one. Non-trivial: more than one generation or a split or interrupted transfer",
    "STLFile, OBJFile, ImageIoBmp, Mesh, Image, MeshFactory, libstdc++ streams", "disk (system calls of files)", "edges of code under test", 0 });
