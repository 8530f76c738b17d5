// Catalogue of library operations on a small world of objects.  Free of the simulator: usable in
// threads and in separately built modules.  Executing an operation draws nothing: everything it
// does follows from its Args and the objects.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include "Mesh.h"
#include "MeshUtil.h"
#include "MeshFactory.h"
#include "MeshMeasurements.h"
#include "MeshTessellate.h"
#include "MeshBoolean.h"
#include "SmoothMesh.h"
#include "SmoothMeshFactory.h"
#include "QuadBezierTriangle.h"
#include "CubicBezierTriangles.h"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "NurbsSolid.h"
#include "NurbsFactory.h"
#include "NurbsUtil.h"
#include "NurbsExtrude.h"
#include "NurbsRevolve.h"
#include "NurbsRuled.h"
#include "Image.h"
#include "ImageUtil.h"
#include "ImageGenerator.h"
#include "ImageIoBmp.h"
#include "STLFile.h"
#include "OBJFile.h"
#include "StepFile.h"
#include "Renderer.h"
#include "Transform.h"
#include "GeometryUtil.h"
#include "Geometry.h"
#include "Face.h"
#include "Solid.h"

namespace ops {
enum Kind { K_NONE, K_MESH, K_CURVE, K_SURF, K_SOLID, K_SMOOTH, K_IMAGE, K_POLY, K_N };
static const char* const kind_name[] = { "none", "mesh", "curve", "surface", "solid", "smooth mesh", "image", "polyline" };
enum { SLOTS = 3, NTR = 6, FB_W = 56, FB_H = 40 };
struct World {
    Mesh* mesh[SLOTS]; NurbsCurve* curve[SLOTS]; NurbsSurface* surf[SLOTS]; NurbsSolid* solid[SLOTS];
    SmoothMesh* smooth[SLOTS]; Image* image[SLOTS]; std::vector<Point3>* poly[SLOTS];
    Transform* tr[NTR];
    std::string* dir;         // directory of its files
};
struct Args { int op; int o, a, b; int n, m; double x, y, z; uint64_t seed; int file; };
enum Flag { REBUILD = 1,      // the result depends on the inputs only, not on what the output held before
    STRONG = 2,               // out of memory leaves the output as it was (or fully changed)
    READ = 4,                 // modifies no object: the result is the returned value
    IO = 8,                   // touches files
    GROW = 16,                // the object grows
    DISTINCT = 32,            // output and inputs must be different objects
    RES = 64,                 // out of memory may also show as failure result
    SAVE = 128, LOAD = 256,
    KEEPCOLOR = 512 };          // does not set the colour of the mesh
typedef uint64_t (*Fn)(World&, const Args&);
struct Def { const char* name; Kind out; Kind in1, in2; unsigned flags; Fn fn; };
enum : uint64_t { SKIPPED = 0x5E1Full };

struct R {
    uint64_t s; explicit R(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 77) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    int below(int n) { return n > 0 ? (int)(next() % (uint64_t)n) : 0; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double c() { return below(3) ? (unit() - 0.5) * 8. : (below(17) - 8) * 0.5; }
    Point3 gp() { double x = (unit() - 0.5) * 6., y = (unit() - 0.5) * 6., z = (unit() - 0.5) * 6.; return Point3(x, y, z); }    // general position
    Point3 pt() { double x = c(), y = c(), z = c(); return Point3(x, y, z); }
};
// ---------------------------------------------------------------- hashing
inline void mix(uint64_t& h, uint64_t v) { h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
inline void mixd(uint64_t& h, double d) { uint64_t u; if (d != d) u = 0x7FF8000000000000ull; else memcpy(&u, &d, 8); mix(h, u); }
inline void mixp(uint64_t& h, const Point3& p) { mixd(h, p.x()); mixd(h, p.y()); mixd(h, p.z()); }
inline uint64_t hash_mesh(const Mesh& m, bool color = true)
{
    uint64_t h = 11;
    if (color) mix(h, (uint64_t)(int64_t)m.get_color());
    int nv = m.nb_vertices(), nt = m.nb_triangles();
    mix(h, nv); mix(h, nt);
    for (int i = 0; i < nv; i++) { Point3 p; m.get_vertex(i, p); mixp(h, p); }
    for (int i = 0; i < nt; i++) {
        bool u = m.is_triangle_unlinked(i); mix(h, u);
        int a, b, c; m.get_triangle_vertices(i, a, b, c);
        if (!u) { mix(h, a); mix(h, b); mix(h, c); }
    }
    return h;
}
inline uint64_t hash_curve(const NurbsCurve& c)
{
    uint64_t h = 12; mix(h, c.degree()); mix(h, c.nb_points());
    for (auto& p : c.points()) mixp(h, p);
    mix(h, c.knots().size()); for (double k : c.knots()) mixd(h, k);
    mix(h, c.weights().size()); for (double k : c.weights()) mixd(h, k);
    return h;
}
inline uint64_t hash_surf(const NurbsSurface& s)
{
    uint64_t h = 13; mix(h, s.degree_u()); mix(h, s.degree_v()); mix(h, s.nb_points_u()); mix(h, s.nb_points_v()); mix(h, s.is_closed_u()); mix(h, s.is_closed_v());
    mix(h, s.points().size()); for (auto& p : s.points()) mixp(h, p);
    mix(h, s.weights().size()); for (double k : s.weights()) mixd(h, k);
    mix(h, s.knots_u().size()); for (double k : s.knots_u()) mixd(h, k);
    mix(h, s.knots_v().size()); for (double k : s.knots_v()) mixd(h, k);
    return h;
}
inline uint64_t hash_solid(const NurbsSolid& s) { uint64_t h = 14; mix(h, s.surfaces().size()); for (auto& x : s.surfaces()) mix(h, hash_surf(x)); return h; }
inline uint64_t hash_smooth(const SmoothMesh& s)
{
    uint64_t h = 15; int n = s.nb_triangles(); mix(h, n);
    static const double uv[6][2] = { { 1, 0 }, { 0, 1 }, { 0, 0 }, { 0.5, 0.5 }, { 0.5, 0 }, { 0.2, 0.3 } };
    for (int i = 0; i < n; i++) for (auto& q : uv) mixp(h, s.triangle(i).eval(q[0], q[1]));
    return h;
}
inline uint64_t hash_image(Image& im)
{
    uint64_t h = 16; mix(h, im.width()); mix(h, im.height()); mix(h, im.planes());
    int n = im.size(); const unsigned char* d = im.data();
    for (int i = 0; i < n; i++) h = (h ^ d[i]) * 1099511628211ull;
    return h ^ (h >> 31);
}
inline uint64_t hash_poly(const std::vector<Point3>& v) { uint64_t h = 17; mix(h, v.size()); for (auto& p : v) mixp(h, p); return h; }
inline uint64_t hash_obj(World& w, Kind k, int i, bool color = true)
{
    switch (k) {
    case K_MESH: return hash_mesh(*w.mesh[i], color);
    case K_CURVE: return hash_curve(*w.curve[i]);
    case K_SURF: return hash_surf(*w.surf[i]);
    case K_SOLID: return hash_solid(*w.solid[i]);
    case K_SMOOTH: return hash_smooth(*w.smooth[i]);
    case K_IMAGE: return hash_image(*w.image[i]);
    case K_POLY: return hash_poly(*w.poly[i]);
    default: return 0;
    }
}
inline uint64_t hash_world(World& w) { uint64_t h = 1; for (int k = 1; k < K_N; k++) for (int i = 0; i < SLOTS; i++) mix(h, hash_obj(w, (Kind)k, i)); return h; }

// ---------------------------------------------------------------- world
inline void null_world(World& w) { memset((void*)&w, 0, sizeof w); }
inline void free_world(World& w)
{
    for (int i = 0; i < SLOTS; i++) {
        delete w.mesh[i]; delete w.curve[i]; delete w.surf[i]; delete w.solid[i]; delete w.smooth[i]; delete w.image[i]; delete w.poly[i];
    }
    for (int i = 0; i < NTR; i++) {
        if (!w.tr[i]) continue;                  // Transform has no virtual destructor
        switch (i) { case 0: delete (Translation*)w.tr[i]; break; case 1: delete (Scale*)w.tr[i]; break; case 2: delete (RotationEulerAngles*)w.tr[i]; break; case 3: delete (RotationQuaternion*)w.tr[i]; break; case 4: delete (RotationMatrix*)w.tr[i]; break; default: delete (RotationAngleAxis*)w.tr[i]; }
    }
    delete w.dir;
    null_world(w);
}
inline void make_world(World& w, uint64_t seed, const char* dir)
{
    null_world(w);
    for (int i = 0; i < SLOTS; i++) {
        w.mesh[i] = new Mesh; w.curve[i] = new NurbsCurve; w.surf[i] = new NurbsSurface; w.solid[i] = new NurbsSolid;
        w.smooth[i] = new SmoothMesh; w.image[i] = new Image; w.poly[i] = new std::vector<Point3>;
    }
    R r(seed);
    Point3 ax = r.pt(); if (ax.norm() < 0.1) ax = Point3(1, 0, 0); ax.normalize();
    w.tr[0] = new Translation(r.pt());
    w.tr[1] = new Scale(0.5 + r.unit(), 0.5 + r.unit(), 0.5 + r.unit());
    w.tr[2] = new RotationEulerAngles(r.unit() * 360, r.unit() * 360, r.unit() * 360);
    RotationQuaternion* q = new RotationQuaternion; w.tr[3] = q; q->from_angle_axis(r.unit() * 360, ax);
    RotationMatrix* m = new RotationMatrix; w.tr[4] = m; m->from_angle_axis(r.unit() * 360, ax);
    w.tr[5] = new RotationAngleAxis(r.unit() * 360, ax);
    w.dir = new std::string(dir);
}
inline std::string file_name(World& w, int f) { char b[16]; snprintf(b, sizeof b, "q%d", f); return *w.dir + b; }

inline bool ok_curve(const NurbsCurve& c) { return c.nb_points() > 0 && (int)c.weights().size() == c.nb_points() && (int)c.knots().size() == c.nb_points() + c.degree() + 1; }
inline bool ok_surf(const NurbsSurface& s)
{
    size_t n = (size_t)s.nb_points_u() * s.nb_points_v();
    return n > 0 && s.points().size() == n && s.weights().size() == n && (int)s.knots_u().size() == s.nb_points_u() + s.degree_u() + 1 && (int)s.knots_v().size() == s.nb_points_v() + s.degree_v() + 1;
}
inline bool empty_surf(const NurbsSurface& s) { return s.points().empty() && s.nb_points_u() == 0 && s.nb_points_v() == 0; }
// what every object must satisfy at any time, whatever happened to it
inline const char* broken_obj(World& w, Kind k, int i)
{
    switch (k) {
    case K_MESH: { const Mesh& m = *w.mesh[i]; int n = m.nb_vertices(); for (int t = 0; t < m.nb_triangles(); t++) { if (m.is_triangle_unlinked(t)) continue; int v[3]; m.get_triangle_vertices(t, v[0], v[1], v[2]); for (int x : v) if (x < 0 || x >= n) return "a triangle refers to a vertex that does not exist"; } return nullptr; }
    case K_CURVE: return (size_t)w.curve[i]->nb_points() == w.curve[i]->points().size() ? nullptr : "the number of points is not the number of points it holds";
    case K_SURF: return (size_t)w.surf[i]->nb_points_u() * (size_t)w.surf[i]->nb_points_v() == w.surf[i]->points().size() ? nullptr : "the numbers of points are not those it holds";
    case K_SOLID: for (auto& s : w.solid[i]->surfaces()) if ((size_t)s.nb_points_u() * (size_t)s.nb_points_v() != s.points().size()) return "the numbers of points of a surface are not those it holds"; return nullptr;
    case K_IMAGE: return w.image[i]->size() == w.image[i]->width() * w.image[i]->height() * w.image[i]->planes() ? nullptr : "the size is not that of its pixels";
    default: return nullptr;
    }
}
inline bool ok_solid(const NurbsSolid& s) { for (auto& x : s.surfaces()) if (!ok_surf(x)) return false; return true; }
inline bool small(const Mesh& m) { return m.nb_triangles() < 500 && m.nb_vertices() < 900; }
inline int live_triangle(const Mesh& m, uint64_t seed)
{
    int n = m.nb_triangles(); if (!n) return -1;
    int s = (int)(seed % (uint64_t)n);
    for (int k = 0; k < n; k++) { int i = (s + k) % n; if (!m.is_triangle_unlinked(i)) return i; }
    return -1;
}
inline std::vector<double> knots_for(int deg, int n, R& r)
{
    std::vector<double> k(deg + 1, 0.);
    double v = 0; for (int i = 0; i < n - deg - 1; i++) { v += 0.1 + r.unit(); k.push_back(v); }
    for (int i = 0; i <= deg; i++) k.push_back(v + 0.5);
    return k;
}

// ---------------------------------------------------------------- operations
#define OP [](World& w, const Args& g) -> uint64_t
#define MO (*w.mesh[g.o])
#define MA (*w.mesh[g.a])
#define MB (*w.mesh[g.b])
#define SU (*w.surf[g.o])
#define CU (*w.curve[g.o])
#define SO (*w.solid[g.o])
#define SM (*w.smooth[g.o])
#define IM (*w.image[g.o])

inline void build_mesh(Mesh& m, const Args& g)
{
    m.clear();
    R r(g.seed); int nv = 3 + r.below(10), nt = r.below(14);
    for (int i = 0; i < nv; i++) m.add_vertex(r.pt());
    for (int i = 0; i < nt; i++) { int a = r.below(nv), b = (a + 1 + r.below(nv - 1)) % nv, c; do c = r.below(nv); while (c == a || c == b); m.add_triangle(a, b, c); }
    for (int i = 0; i < nt; i++) if (r.below(4) == 0) m.unlink_triangle(i);
}
inline void general_mesh(Mesh& m, R& r, int n)     // triangles in general position, some deleted
{
    m.clear();
    for (int i = 0; i < n; i++) { Point3 a = r.gp(), b = r.gp(); m.add_triangle(a, b, r.gp()); }
    for (int i = 0; i < n; i++) if (r.below(3) == 0) m.unlink_triangle(i);
}
inline bool thin(const Mesh& m, int t)
{
    Triangle3 x; m.get_triangle(t, x);
    double e = (x.p1() - x.p2()).norm_square() + (x.p2() - x.p3()).norm_square() + (x.p1() - x.p3()).norm_square();
    return !(x.surface() > 1e-4 * e) || !(e > 1e-6) || !(e < 1e9);
}
inline void build_surf(NurbsSurface& s, const Args& g, bool clear = true)
{
    R r(g.seed); int du = 1 + r.below(3), dv = 1 + r.below(3), nu = du + 1 + r.below(3), nv = dv + 1 + r.below(3);
    std::vector<Point3> p; std::vector<double> wt;
    for (int i = 0; i < nu * nv; i++) { p.push_back(r.pt()); wt.push_back(0.5 + r.unit()); }
    if (clear) s.clear();
    s.set_degree(du, dv); s.set_points(p, nu, nv);
    if (r.below(2)) s.set_uniform_u(); else s.set_knots_u(knots_for(du, nu, r));
    if (r.below(2)) s.set_uniform_v(); else s.set_knots_v(knots_for(dv, nv, r));
    if (r.below(2)) s.set_equals_weights(); else s.set_weights(wt);
    int cu = r.below(4), cv = r.below(4);
    if (cu == 0 || !clear) s.set_closed_u(cu == 0);
    if (cv == 0 || !clear) s.set_closed_v(cv == 0);
}
inline void build_curve(NurbsCurve& c, const Args& g, bool clear = true)
{
    R r(g.seed); int d = 1 + r.below(3), n = d + 1 + r.below(4);
    std::vector<Point3> p; std::vector<double> wt;
    for (int i = 0; i < n; i++) { p.push_back(r.pt()); wt.push_back(0.5 + r.unit()); }
    if (clear) c.clear();
    c.set_degree(d); c.set_points(p);
    if (r.below(2)) c.set_uniform(); else c.set_knots(knots_for(d, n, r));
    if (r.below(2)) c.set_equals_weights(); else c.set_weights(wt);
}
inline uint64_t render(World& w, const Args& g, int* fb)
{
    Renderer rd(fb, FB_W, FB_H);
    rd.set_background((int)(g.seed & 0xFFFFFF));
    rd.set_camera(0, 0, -14, 2., 0, 0, 0, 60.);
    rd.add_ambient_light(0x404040, 0.7);
    rd.add_diffuse_light(0xC0B0A0, 1., Point3(0.3, 0.2, 1.));
    rd.clear();
    if (small(MA)) rd.draw_mesh(MA, g.n & 1, g.m & 1 ? 0x00FF80 : -1);
    if (small(MB)) rd.draw_mesh(MB, g.n & 2, g.m & 2 ? 0x8040FF : -1);
    rd.draw_polyline(*w.poly[g.a], 0xFFFF00);
    R r(g.seed); for (int i = 0; i < 4; i++) { rd.draw_line(r.pt(), r.pt(), 0x123456); rd.draw_pixel(r.pt(), 0xFFFFFF); rd.draw_triangle_1color(r.pt(), r.pt(), r.pt(), 0x777777 + 0x050301 * i, g.n & 4); }
    uint64_t h = 21; for (int i = 0; i < FB_W * FB_H; i++) mix(h, (uint32_t)fb[i]);
    return h;
}

inline const std::vector<Def>& table()
{
    static const std::vector<Def>* t = new std::vector<Def> {
    // meshes, rebuilt
    { "mesh build", K_MESH, K_NONE, K_NONE, REBUILD | KEEPCOLOR, OP { build_mesh(MO, g); return 0; } },
    { "mesh tetrahedron", K_MESH, K_NONE, K_NONE, REBUILD | KEEPCOLOR, OP { MeshFactory::create_tetrahedron(g.x, MO); return 0; } },
    { "mesh box", K_MESH, K_NONE, K_NONE, REBUILD | KEEPCOLOR, OP { MeshFactory::create_box(g.x, g.y, g.z, MO); return 0; } },
    { "mesh octahedron", K_MESH, K_NONE, K_NONE, REBUILD | KEEPCOLOR, OP { MeshFactory::create_octahedron(g.x, MO); return 0; } },
    { "mesh dodecahedron", K_MESH, K_NONE, K_NONE, REBUILD | KEEPCOLOR, OP { MeshFactory::create_dodecahedron(g.x, MO); return 0; } },
    { "mesh icosahedron", K_MESH, K_NONE, K_NONE, REBUILD | KEEPCOLOR, OP { MeshFactory::create_icosahedron(g.x, MO); return 0; } },
    { "mesh cylinder", K_MESH, K_NONE, K_NONE, REBUILD | KEEPCOLOR, OP { MeshFactory::create_cylinder(g.x, g.y, 3 + g.n, MO); return 0; } },
    { "mesh geodesic sphere", K_MESH, K_NONE, K_NONE, REBUILD | KEEPCOLOR, OP { MeshFactory::create_sphere_geodesic(g.x, 1 + g.n % 3, MO); return 0; } },
    { "mesh uv sphere", K_MESH, K_NONE, K_NONE, REBUILD | KEEPCOLOR, OP { MeshFactory::create_sphere_uv(g.x, 4 + g.n, MO); return 0; } },
    { "mesh torus", K_MESH, K_NONE, K_NONE, REBUILD | KEEPCOLOR, OP { MeshFactory::create_torus(g.x + 3, g.y / 2, 3 + g.n, MO); return 0; } },
    { "mesh from z", K_MESH, K_NONE, K_NONE, REBUILD | KEEPCOLOR, OP { R r(g.seed); int x = g.n, y = g.m; std::vector<double> z; for (int i = 0; i < x * y; i++) z.push_back(r.c()); MeshUtil::create_from_z(z, x, y, MO); return 0; } },
    { "mesh from grid", K_MESH, K_NONE, K_NONE, REBUILD | KEEPCOLOR, OP { R r(g.seed); int x = g.n, y = g.m; std::vector<Point3> z; for (int i = 0; i < x * y; i++) z.push_back(r.pt()); MeshUtil::create_from_grid(z, x, y, MO); return 0; } },
    { "mesh tessellate", K_MESH, K_MESH, K_NONE, REBUILD | KEEPCOLOR | DISTINCT, OP { if (MA.nb_triangles() > 60) return SKIPPED; MeshTessellate t; t.compute(MA, g.n % 5, MO); return 0; } },
    { "mesh boolean split", K_MESH, K_NONE, K_NONE, REBUILD, OP { R r(g.seed); Mesh a, b, c, d, e; general_mesh(a, r, 1 + g.n); general_mesh(b, r, 1 + g.m); MeshBoolean x; if (g.seed & 1) x.split_meshes(a, b, MO, c, d, e); else x.split_meshes(a, b, c, MO, d, e); return hash_mesh(c); } },
    { "mesh from surface", K_MESH, K_SURF, K_NONE, REBUILD | KEEPCOLOR, OP { if ((!ok_surf(*w.surf[g.a]) && !empty_surf(*w.surf[g.a])) || w.surf[g.a]->points().size() > 60) return SKIPPED; NurbsUtil::to_mesh(*w.surf[g.a], MO, g.m ? 1 + g.n % 2 : 0); return 0; } },
    { "mesh from solid", K_MESH, K_SOLID, K_NONE, REBUILD | KEEPCOLOR, OP { if (!ok_solid(*w.solid[g.a]) || w.solid[g.a]->surfaces().size() > 6) return SKIPPED; NurbsUtil::to_mesh(*w.solid[g.a], MO, g.m ? 1 : 0); return 0; } },
    { "mesh of control points", K_MESH, K_SURF, K_NONE, REBUILD | KEEPCOLOR, OP { if (!ok_surf(*w.surf[g.a]) && !empty_surf(*w.surf[g.a])) return SKIPPED; NurbsUtil::to_controlpoints_mesh(*w.surf[g.a], MO); return 0; } },
    { "mesh from an empty surface", K_MESH, K_NONE, K_NONE, REBUILD | KEEPCOLOR, OP { NurbsSurface s; NurbsSolid e; if (g.n % 3 == 0) NurbsUtil::to_mesh(s, MO, 1 + g.m); else if (g.n % 3 == 1) NurbsUtil::to_controlpoints_mesh(s, MO); else NurbsUtil::to_mesh(e, MO, 1 + g.m); return 0; } },
    { "mesh assign", K_MESH, K_MESH, K_NONE, REBUILD | STRONG, OP { if (g.o == g.a) return SKIPPED; MO = MA; return 0; } },
    { "mesh copy construct", K_MESH, K_MESH, K_NONE, REBUILD | STRONG, OP { Mesh c(MA); if (g.o != g.a) MO = c; return hash_mesh(c); } },
    { "mesh of face and solid", K_MESH, K_MESH, K_NONE, REBUILD | STRONG | DISTINCT, OP { Face f(MA); Face f2; f2 = f; Solid s(f2.mesh()); s.add_face(f2); Solid s2(s); Solid s3; s3 = s2; MO = s3.mesh(); return hash_mesh(f2.mesh()); } },
    // meshes, edited
    { "mesh assign itself", K_MESH, K_NONE, K_NONE, STRONG, OP { Mesh& m = MO; Mesh& n = m; m = n; return 0; } },
    { "mesh clear", K_MESH, K_NONE, K_NONE, REBUILD | KEEPCOLOR, OP { MO.clear(); return 0; } },
    { "mesh colour", K_MESH, K_NONE, K_NONE, 0, OP { MO.set_color(g.n & 1 ? -1 : (int)(g.seed & 0xFFFFFF)); return 0; } },
    { "mesh add vertex", K_MESH, K_NONE, K_NONE, GROW, OP { R r(g.seed); return MO.add_vertex(r.pt()); } },
    { "mesh set vertex", K_MESH, K_NONE, K_NONE, 0, OP { if (!MO.nb_vertices()) return SKIPPED; R r(g.seed); MO.set_vertex(r.below(MO.nb_vertices()), r.pt()); return 0; } },
    { "mesh add triangle", K_MESH, K_NONE, K_NONE, GROW, OP { int n = MO.nb_vertices(); if (n < 3) return SKIPPED; R r(g.seed); int a = r.below(n), b = r.below(n); return MO.add_triangle(a, b, r.below(n)); } },
    { "mesh add triangle of points", K_MESH, K_NONE, K_NONE, GROW, OP { R r(g.seed); Point3 a = r.pt(), b = r.pt(); return MO.add_triangle(a, b, r.pt()); } },
    { "mesh add quad", K_MESH, K_NONE, K_NONE, GROW, OP { int n = MO.nb_vertices(); if (n < 4) return SKIPPED; R r(g.seed); int a = r.below(n), b = r.below(n), c = r.below(n); MO.add_quad(a, b, c, r.below(n)); return 0; } },
    { "mesh add quad of points", K_MESH, K_NONE, K_NONE, GROW, OP { R r(g.seed); Point3 a = r.pt(), b = r.pt(), c = r.pt(); MO.add_quad(a, b, c, r.pt(), g.n & 1); return 0; } },
    { "mesh add pentagon", K_MESH, K_NONE, K_NONE, GROW, OP { int n = MO.nb_vertices(); if (n < 5) return SKIPPED; R r(g.seed); int a = r.below(n), b = r.below(n), c = r.below(n), d = r.below(n); MO.add_pentagon(a, b, c, d, r.below(n)); return 0; } },
    { "mesh delete triangle", K_MESH, K_NONE, K_NONE, 0, OP { int t = live_triangle(MO, g.seed); if (t < 0) return SKIPPED; MO.unlink_triangle(t); return t; } },
    { "mesh flip triangle", K_MESH, K_NONE, K_NONE, GROW, OP { int t = live_triangle(MO, g.seed); if (t < 0) return SKIPPED; MO.flip_triangle(t); return t; } },
    { "mesh split triangle", K_MESH, K_NONE, K_NONE, GROW, OP { int t = live_triangle(MO, g.seed); if (t < 0) return SKIPPED; R r(g.seed); MO.split_triangle_with_vertex(t, r.pt()); return t; } },
    { "mesh split triangle by triangle", K_MESH, K_NONE, K_NONE, GROW, OP { int t = live_triangle(MO, g.seed); if (t < 0) return SKIPPED; if (thin(MO, t)) return SKIPPED; R r(g.seed); Point3 a = r.gp(), b = r.gp(); MO.split_triangle(t, Triangle3(a, b, r.gp())); return t; } },
    { "mesh append", K_MESH, K_MESH, K_NONE, GROW, OP { if (!small(MO) || !small(MA)) return SKIPPED; MO.add_mesh(MA); return 0; } },
    { "mesh transform", K_MESH, K_NONE, K_NONE, 0, OP { MO.apply_transform(*w.tr[g.n % NTR]); return 0; } },
    { "mesh merge vertices", K_MESH, K_NONE, K_NONE, STRONG, OP { if (MO.nb_vertices() > 300) return SKIPPED; MeshUtil::merge_vertices(MO, g.n & 1 ? 1e-6 : 0.7); return 0; } },
    { "mesh remove empty triangles", K_MESH, K_NONE, K_NONE, 0, OP { MeshUtil::remove_empty_triangles(MO, g.n & 1 ? 1e-6 : 0.9); return 0; } },
    { "mesh append smooth mesh", K_MESH, K_SMOOTH, K_NONE, GROW, OP { if (!small(MO) || w.smooth[g.a]->nb_triangles() > 60) return SKIPPED; w.smooth[g.a]->add_to_mesh(MO, 2 + g.n % 3); return 0; } },
    { "mesh append cubic patch", K_MESH, K_NONE, K_NONE, GROW, OP { R r(g.seed); CubicBezierTriangles c; Point3 a = r.pt(), b = r.pt(), d = r.pt(); c.set_points(a, b, d); c.set_normals(r.pt(), a, b); return 0; } },
    // curves
    { "curve build", K_CURVE, K_NONE, K_NONE, REBUILD, OP { build_curve(CU, g); return 0; } },
    { "curve set anew", K_CURVE, K_NONE, K_NONE, REBUILD, OP { build_curve(CU, g, false); return 0; } },
    { "curve set points", K_CURVE, K_NONE, K_NONE, 0, OP { R r(g.seed); std::vector<Point3> p; for (int i = 0; i < 1 + g.n + 4 * (g.m % 3); i++) p.push_back(r.pt()); CU.set_points(p); if (g.m & 1) { int d = 1 + g.n % 3; if (CU.nb_points() > d) { CU.set_degree(d); CU.set_uniform(); CU.set_equals_weights(); } } return 0; } },
    { "curve from points", K_CURVE, K_NONE, K_NONE, REBUILD, OP { R r(g.seed); int d = 1 + g.n % 3; std::vector<Point3> p; for (int i = 0; i < d + 1 + g.m; i++) p.push_back(r.pt()); NurbsFactory::create_curve_from_points(p, d, CU); return 0; } },
    { "curve circle", K_CURVE, K_NONE, K_NONE, REBUILD, OP { NurbsFactory::create_circle(g.x, CU); return 0; } },
    { "curve clear", K_CURVE, K_NONE, K_NONE, REBUILD, OP { CU.clear(); return 0; } },
    { "curve assign", K_CURVE, K_CURVE, K_NONE, REBUILD | STRONG, OP { CU = *w.curve[g.a]; return 0; } },
    { "curve copy construct", K_CURVE, K_CURVE, K_NONE, REBUILD | STRONG, OP { std::vector<NurbsCurve> v(1, *w.curve[g.a]); v.push_back(*w.curve[g.a]); if (g.o != g.a) CU = v[g.n & 1]; return hash_curve(v[0]); } },
    { "curve insert knot", K_CURVE, K_NONE, K_NONE, STRONG | GROW, OP { if (!ok_curve(CU) || CU.nb_points() > 30) return SKIPPED; CU.insert_knot(0.001 + 0.998 * R(g.seed).unit()); return 0; } },
    { "curve degree elevation", K_CURVE, K_NONE, K_NONE, STRONG, OP { if (!ok_curve(CU) || CU.nb_points() > 30) return SKIPPED; return CU.degree_elevation(); } },
    // surfaces
    { "surface build", K_SURF, K_NONE, K_NONE, REBUILD, OP { build_surf(SU, g); return 0; } },
    { "surface set anew", K_SURF, K_NONE, K_NONE, REBUILD, OP { build_surf(SU, g, false); return 0; } },
    { "surface set points", K_SURF, K_NONE, K_NONE, 0, OP { R r(g.seed); int u = 1 + g.n % 6, v = 1 + g.m % 6; std::vector<Point3> p; for (int i = 0; i < u * v; i++) p.push_back(r.pt()); SU.set_points(p, u, v); if (g.seed & 1) { int d = (std::min)(1 + g.n % 3, (std::min)(u, v) - 1); if (d > 0) { SU.set_degree(d, d); SU.set_uniform_u(); SU.set_uniform_v(); SU.set_equals_weights(); } } return 0; } },
    { "surface set weights", K_SURF, K_NONE, K_NONE, 0, OP { if (!ok_surf(SU)) return SKIPPED; R r(g.seed); std::vector<double> q; for (size_t i = 0; i < SU.points().size(); i++) q.push_back(0.5 + r.unit()); SU.set_weights(q); if (g.n & 1) SU.set_knots_u(knots_for(SU.degree_u(), SU.nb_points_u(), r)); if (g.n & 2) SU.set_knots_v(knots_for(SU.degree_v(), SU.nb_points_v(), r)); return 0; } },
    { "surface move points", K_SURF, K_NONE, K_NONE, 0, OP { R r(g.seed); for (auto& p : SU.points()) if (r.below(2)) p = r.pt(); for (auto& x : SU.weights()) if (r.below(2)) x = 0.5 + r.unit(); return 0; } },
    { "surface triangle", K_SURF, K_NONE, K_NONE, REBUILD, OP { R r(g.seed); Point3 a = r.pt(), b = r.pt(); NurbsFactory::create_triangle(a, b, r.pt(), SU); return 0; } },
    { "surface quad", K_SURF, K_NONE, K_NONE, REBUILD, OP { R r(g.seed); Point3 a = r.pt(), b = r.pt(), c = r.pt(); NurbsFactory::create_quad(a, b, c, r.pt(), SU); return 0; } },
    { "surface disk", K_SURF, K_NONE, K_NONE, REBUILD, OP { NurbsFactory::create_disk(g.x, SU); return 0; } },
    { "surface sphere", K_SURF, K_NONE, K_NONE, REBUILD, OP { NurbsFactory::create_sphere(g.x, SU); return 0; } },
    { "surface torus", K_SURF, K_NONE, K_NONE, REBUILD, OP { NurbsFactory::create_torus(g.x + 3, g.y / 2, SU); return 0; } },
    { "surface from z", K_SURF, K_NONE, K_NONE, REBUILD, OP { R r(g.seed); int d = 1 + g.n % 3, x = d + 1 + g.m % 3, y = d + 1 + g.n % 2; std::vector<double> z; for (int i = 0; i < x * y; i++) z.push_back(r.c()); NurbsUtil::create_from_z(z, x, y, d, SU); return 0; } },
    { "surface extrude", K_SURF, K_CURVE, K_NONE, REBUILD | RES, OP { if (!ok_curve(*w.curve[g.a])) return SKIPPED; NurbsExtrude e; return e.extrude(*w.curve[g.a], Point3(g.x, g.y, g.z), SU); } },
    { "surface revolve", K_SURF, K_CURVE, K_NONE, REBUILD | RES, OP { if (!ok_curve(*w.curve[g.a])) return SKIPPED; NurbsRevolve e; return e.revolve(*w.curve[g.a], SU); } },
    { "surface ruled", K_SURF, K_CURVE, K_CURVE, REBUILD | RES, OP { const NurbsCurve &a = *w.curve[g.a], &b = *w.curve[g.b]; if (!ok_curve(a) || !ok_curve(b) || a.degree() != b.degree() || a.nb_points() != b.nb_points()) return SKIPPED; NurbsRuled e; return e.create_ruled(a, b, SU); } },
    { "surface clear", K_SURF, K_NONE, K_NONE, REBUILD, OP { SU.clear(); return 0; } },
    { "surface assign", K_SURF, K_SURF, K_NONE, REBUILD | STRONG, OP { SU = *w.surf[g.a]; return 0; } },
    { "surface copy construct", K_SURF, K_SURF, K_NONE, REBUILD | STRONG, OP { std::vector<NurbsSurface> v(1, *w.surf[g.a]); v.push_back(*w.surf[g.a]); if (g.o != g.a) SU = v[g.n & 1]; return hash_surf(v[0]); } },
    { "surface insert knot u", K_SURF, K_NONE, K_NONE, STRONG | GROW, OP { if (!ok_surf(SU) || SU.points().size() > 60) return SKIPPED; SU.insert_knot_u(0.001 + 0.998 * R(g.seed).unit()); return 0; } },
    { "surface insert knot v", K_SURF, K_NONE, K_NONE, STRONG | GROW, OP { if (!ok_surf(SU) || SU.points().size() > 60) return SKIPPED; SU.insert_knot_v(0.001 + 0.998 * R(g.seed).unit()); return 0; } },
    { "surface degree elevation u", K_SURF, K_NONE, K_NONE, STRONG, OP { if (!ok_surf(SU) || SU.points().size() > 60) return SKIPPED; return SU.degree_elevation_u(); } },
    { "surface degree elevation v", K_SURF, K_NONE, K_NONE, STRONG, OP { if (!ok_surf(SU) || SU.points().size() > 60) return SKIPPED; return SU.degree_elevation_v(); } },
    { "surface transform", K_SURF, K_NONE, K_NONE, 0, OP { SU.apply_transform(*w.tr[g.n % NTR]); return 0; } },
    // solids
    { "solid box", K_SOLID, K_NONE, K_NONE, REBUILD, OP { NurbsFactory::create_box(g.x, g.y, g.z, SO); return 0; } },
    { "solid cylinder", K_SOLID, K_NONE, K_NONE, REBUILD, OP { NurbsFactory::create_cylinder(g.x, g.y, SO); return 0; } },
    { "solid sphere", K_SOLID, K_NONE, K_NONE, REBUILD, OP { NurbsFactory::create_sphere(g.x, SO); return 0; } },
    { "solid torus", K_SOLID, K_NONE, K_NONE, REBUILD, OP { NurbsFactory::create_torus(g.x + 3, g.y / 2, SO); return 0; } },
    { "solid from mesh", K_SOLID, K_MESH, K_NONE, REBUILD, OP { if (MA.nb_triangles() > 30) return SKIPPED; NurbsUtil::create_from_mesh(MA, SO); return 0; } },
    { "solid clear", K_SOLID, K_NONE, K_NONE, REBUILD, OP { SO.clear(); return 0; } },
    { "solid assign", K_SOLID, K_SOLID, K_NONE, REBUILD, OP { SO = *w.solid[g.a]; return 0; } },
    { "solid copy construct", K_SOLID, K_SOLID, K_NONE, REBUILD, OP { NurbsSolid c(*w.solid[g.a]); if (g.o != g.a) SO = c; return hash_solid(c); } },
    { "solid add surface", K_SOLID, K_SURF, K_NONE, GROW, OP { if (SO.surfaces().size() > 8) return SKIPPED; SO.add_surface(*w.surf[g.a]); return 0; } },
    { "solid transform", K_SOLID, K_NONE, K_NONE, 0, OP { SO.apply_transform(*w.tr[g.n % NTR]); return 0; } },
    // smooth meshes
    { "smooth tetrahedron", K_SMOOTH, K_NONE, K_NONE, REBUILD, OP { SmoothMeshFactory::create_tetrahedron(g.x, SM); return 0; } },
    { "smooth box", K_SMOOTH, K_NONE, K_NONE, REBUILD, OP { SmoothMeshFactory::create_box(g.x, g.y, g.z, SM); return 0; } },
    { "smooth octahedron", K_SMOOTH, K_NONE, K_NONE, REBUILD, OP { SmoothMeshFactory::create_octahedron(g.x, SM); return 0; } },
    { "smooth dodecahedron", K_SMOOTH, K_NONE, K_NONE, REBUILD, OP { SmoothMeshFactory::create_dodecahedron(g.x, SM); return 0; } },
    { "smooth icosahedron", K_SMOOTH, K_NONE, K_NONE, REBUILD, OP { SmoothMeshFactory::create_icosahedron(g.x, SM); return 0; } },
    { "smooth sphere", K_SMOOTH, K_NONE, K_NONE, REBUILD, OP { SmoothMeshFactory::create_sphere(g.x, SM); return 0; } },
    { "smooth clear", K_SMOOTH, K_NONE, K_NONE, REBUILD, OP { SM.clear(); return 0; } },
    { "smooth assign", K_SMOOTH, K_SMOOTH, K_NONE, REBUILD, OP { SM = *w.smooth[g.a]; return 0; } },
    { "smooth append", K_SMOOTH, K_SMOOTH, K_NONE, GROW, OP { if (SM.nb_triangles() > 80 || w.smooth[g.a]->nb_triangles() > 80) return SKIPPED; SM.add_mesh(*w.smooth[g.a]); return 0; } },
    { "smooth add flat", K_SMOOTH, K_NONE, K_NONE, GROW, OP { R r(g.seed); Point3 a = r.pt(), b = r.pt(), c = r.pt(), d = r.pt(); if (g.n % 3 == 0) SM.add_flat_triangle(a, b, c); else if (g.n % 3 == 1) SM.add_flat_quad(a, b, c, d); else SM.add_flat_pentagon(a, b, c, d, r.pt()); return 0; } },
    { "smooth add patch", K_SMOOTH, K_NONE, K_NONE, GROW, OP { R r(g.seed); QuadBezierTriangle q; Point3 a = r.pt(), b = r.pt(), c = r.pt(); q.set_points(a, b, c); if (g.n & 1) q.set_control_points(r.pt(), a, b); if (g.n & 2) q.set_weights(1, 1, 1, 0.7, 0.8, 0.9); SM.add_triangle(q); return 0; } },
    { "smooth transform", K_SMOOTH, K_NONE, K_NONE, 0, OP { SM.apply_transform(*w.tr[g.n % NTR]); return 0; } },
    // images
    { "image fill", K_IMAGE, K_NONE, K_NONE, REBUILD, OP { R r(g.seed); static const int pl[] = { 1, 3, 4 }; IM.resize(1 + g.n, 1 + g.m, pl[r.below(3)]); for (int i = 0; i < IM.size(); i++) IM.data()[i] = (unsigned char)r.below(256); return 0; } },
    { "image fill large", K_IMAGE, K_NONE, K_NONE, REBUILD, OP { R r(g.seed); static const int pl[] = { 1, 3, 4 }; int p = pl[r.below(3)]; IM.resize(20 + 8 * g.n, 20 + 8 * g.m, p); for (int i = 0; i < IM.size(); i += 8) { uint64_t v = r.next(); memcpy(IM.data() + i, &v, (size_t)(IM.size() - i < 8 ? IM.size() - i : 8)); } return 0; } },
    { "image resize", K_IMAGE, K_NONE, K_NONE, STRONG, OP { IM.resize(g.n, g.m, 1 + (int)(g.seed % 4)); return 0; } },
    { "image sierpinsky", K_IMAGE, K_NONE, K_NONE, REBUILD, OP { ImageGenerator::Shierpinsky(IM, 1 + g.n * 2, 1 + g.m); return 0; } },
    { "image mandelbrot", K_IMAGE, K_NONE, K_NONE, REBUILD, OP { ImageGenerator::Mandelbrot(IM, 1 + g.n, 1 + g.m, 5 + (int)(g.seed % 20)); return 0; } },
    { "image to black and white", K_IMAGE, K_IMAGE, K_NONE, REBUILD | DISTINCT, OP { if (w.image[g.a]->planes() < 3) return SKIPPED; ImageUtil::convert_to_bw(*w.image[g.a], IM); return 0; } },
    { "image scale", K_IMAGE, K_NONE, K_NONE, 0, OP { ImageUtil::scale(IM, R(g.seed).unit()); return 0; } },
    { "image assign", K_IMAGE, K_IMAGE, K_NONE, REBUILD | STRONG, OP { IM = *w.image[g.a]; return 0; } },
    { "image copy construct", K_IMAGE, K_IMAGE, K_NONE, REBUILD | STRONG, OP { Image c(*w.image[g.a]); if (g.o != g.a) IM = c; return c.size(); } },
    // polylines
    { "image to doubles", K_POLY, K_IMAGE, K_NONE, REBUILD, OP { Image& i = *w.image[g.a]; if (i.planes() < 1 || i.size() > 4000) return SKIPPED; std::vector<Point3>& p = *w.poly[g.o]; std::vector<double> v; for (auto& q : p) { v.push_back(q.x()); v.push_back(q.y()); v.push_back(q.z()); } i.to_double(v); p.clear(); for (size_t k = 0; k < v.size(); k++) p.push_back(Point3(v[k], k, 0.)); return 0; } },
    { "polyline from curve", K_POLY, K_CURVE, K_NONE, REBUILD, OP { if (!w.curve[g.a]->points().empty() && !ok_curve(*w.curve[g.a])) return SKIPPED; w.curve[g.a]->to_polyline(*w.poly[g.o]); return 0; } },
    { "polyline transform", K_POLY, K_NONE, K_NONE, 0, OP { w.tr[g.n % NTR]->apply_all(*w.poly[g.o]); return 0; } },
    // loading
    { "load STL", K_MESH, K_NONE, K_NONE, REBUILD | IO | RES | LOAD | KEEPCOLOR, OP { return STLFile::load(file_name(w, g.file), MO); } },
    { "load OBJ", K_MESH, K_NONE, K_NONE, REBUILD | IO | RES | LOAD | KEEPCOLOR, OP { return OBJFile::load(file_name(w, g.file), MO); } },
    { "load BMP", K_IMAGE, K_NONE, K_NONE, REBUILD | IO | RES | LOAD, OP { return ImageIoBmp::read(file_name(w, g.file), &IM); } },
    // reading only
    { "save STL", K_NONE, K_MESH, K_NONE, READ | IO | RES | SAVE, OP { return STLFile::save(file_name(w, g.file), MA); } },
    { "save OBJ", K_NONE, K_MESH, K_NONE, READ | IO | RES | SAVE, OP { return OBJFile::save(file_name(w, g.file), MA); } },
    { "save BMP", K_NONE, K_IMAGE, K_NONE, READ | IO | RES | SAVE, OP { return ImageIoBmp::write(file_name(w, g.file), w.image[g.a]); } },
    { "OBJ writer", K_NONE, K_MESH, K_MESH, READ | IO | RES | SAVE, OP { OBJWriter f; f.open(file_name(w, g.file)); f.write(MA); f.write(*w.poly[g.a]); f.write(MB); return f.close(); } },
    { "OBJ writer abandoned", K_NONE, K_MESH, K_NONE, READ | IO | RES, OP { OBJWriter f; f.open(file_name(w, g.file)); f.write(MA); f.open(file_name(w, g.file + 1)); f.write(*w.poly[g.a]); return 0; } },
    { "STEP writer", K_NONE, K_SURF, K_SOLID, READ | IO | RES | SAVE, OP { if (!ok_surf(*w.surf[g.a]) || !ok_solid(*w.solid[g.b]) || w.solid[g.b]->surfaces().size() > 8) return SKIPPED; StepWriter f; f.open(file_name(w, g.file)); f.write(*w.surf[g.a]); f.write(*w.solid[g.b]); return f.close(); } },
    { "STEP writer abandoned", K_NONE, K_SURF, K_NONE, READ | IO | RES, OP { if (!ok_surf(*w.surf[g.a])) return SKIPPED; StepWriter f; f.open(file_name(w, g.file)); f.write(*w.surf[g.a]); f.open(file_name(w, g.file + 1)); return 0; } },
    { "mesh measurements", K_NONE, K_MESH, K_NONE, READ, OP { const Mesh& m = MA; uint64_t h = 1; mixd(h, MeshMeasurements::volume(m)); mixd(h, MeshMeasurements::surface(m)); mix(h, MeshMeasurements::is_closed(m)); mix(h, MeshMeasurements::is_clean(m)); mix(h, MeshMeasurements::is_oriented_outside(m)); mix(h, MeshMeasurements::has_no_degenerated_triangles(m)); mix(h, m.empty()); return h; } },
    { "mesh read", K_NONE, K_MESH, K_NONE, READ, OP { const Mesh& m = MA; uint64_t h = hash_mesh(m); for (int i = 0; i < m.nb_triangles() && i < 40; i++) { if (m.is_triangle_unlinked(i)) continue; Triangle3 t; m.get_triangle(i, t); mixp(h, t.normal()); int a, b, c; m.get_near_triangles(i, a, b, c); mix(h, a); Point3 p, q, r; m.get_triangle_vertices(i, p, q, r); mixp(h, q); } return h; } },
    { "mesh copy", K_NONE, K_MESH, K_NONE, READ, OP { Mesh c(MA); Mesh d; d = MA; d.add_mesh(c); uint64_t h = hash_mesh(c); mix(h, hash_mesh(d)); return h; } },
    { "mesh tessellate to new", K_NONE, K_MESH, K_NONE, READ, OP { if (MA.nb_triangles() > 60) return SKIPPED; Mesh d; MeshTessellate t; t.compute(MA, 1 + g.n % 3, d); return hash_mesh(d); } },
    { "mesh to nurbs", K_NONE, K_MESH, K_NONE, READ, OP { if (MA.nb_triangles() > 30) return SKIPPED; NurbsSolid s; NurbsUtil::create_from_mesh(MA, s); return hash_solid(s); } },
    { "render", K_NONE, K_MESH, K_MESH, READ, OP { std::vector<int> fb(FB_W * FB_H, 0x55); return render(w, g, fb.data()); } },
    { "curve evaluate", K_NONE, K_CURVE, K_NONE, READ, OP { const NurbsCurve& c = *w.curve[g.a]; if (!ok_curve(c)) return SKIPPED; uint64_t h = hash_curve(c); R r(g.seed); for (int i = 0; i < 6; i++) { Point3 p; c.evaluate(i ? r.unit() : 1., p); mixp(h, p); } mix(h, c.is_closed()); std::vector<Point3> v; c.to_polyline(v); mix(h, hash_poly(v)); return h; } },
    { "curve extrude, revolve, rule", K_NONE, K_CURVE, K_CURVE, READ, OP { const NurbsCurve &c = *w.curve[g.a]; if (!ok_curve(c)) return SKIPPED; NurbsSurface a, b, d; NurbsExtrude e; e.extrude(c, Point3(g.x, 1, 2), a); NurbsRevolve v; v.revolve(c, b); NurbsRuled u; u.create_ruled(c, c, d); uint64_t h = hash_surf(a); mix(h, hash_surf(b)); mix(h, hash_surf(d)); return h; } },
    { "curve copy and refine", K_NONE, K_CURVE, K_NONE, READ, OP { const NurbsCurve &c = *w.curve[g.a]; if (!ok_curve(c) || c.nb_points() > 30) return SKIPPED; NurbsCurve d = c; d.insert_knot(0.37); d.degree_elevation(); return hash_curve(d); } },
    { "surface evaluate", K_NONE, K_SURF, K_NONE, READ, OP { const NurbsSurface& s = *w.surf[g.a]; if (!ok_surf(s)) return SKIPPED; uint64_t h = hash_surf(s); R r(g.seed); for (int i = 0; i < 6; i++) { Point3 p; double u = r.unit(); s.evaluate(i == 1 ? 0. : u, i == 2 ? 1. : r.unit(), p); mixp(h, p); } return h; } },
    { "surface to mesh", K_NONE, K_SURF, K_NONE, READ, OP { const NurbsSurface& s = *w.surf[g.a]; if (!ok_surf(s) || s.points().size() > 60) return SKIPPED; Mesh a, b; NurbsUtil::to_mesh(s, a, 1 + g.n % 2); NurbsUtil::to_controlpoints_mesh(s, b); uint64_t h = hash_mesh(a); mix(h, hash_mesh(b)); return h; } },
    { "surface copy and refine", K_NONE, K_SURF, K_NONE, READ, OP { const NurbsSurface& s = *w.surf[g.a]; if (!ok_surf(s) || s.points().size() > 60) return SKIPPED; NurbsSurface d = s; if (g.n % 4 < 2) d.insert_knot_u(0.41); else d.insert_knot_v(0.43); if (g.n % 3 & 1) d.degree_elevation_u(); else d.degree_elevation_v(); return hash_surf(d); } },
    { "solid to mesh", K_NONE, K_SOLID, K_NONE, READ, OP { const NurbsSolid& s = *w.solid[g.a]; if (!ok_solid(s) || s.surfaces().size() > 6) return SKIPPED; Mesh a; NurbsUtil::to_mesh(s, a, 1); uint64_t h = hash_mesh(a); mix(h, hash_solid(s)); return h; } },
    { "smooth to mesh", K_NONE, K_SMOOTH, K_NONE, READ, OP { const SmoothMesh& s = *w.smooth[g.a]; if (s.nb_triangles() > 60) return SKIPPED; Mesh a; s.add_to_mesh(a, 2 + g.n % 3); SmoothMesh c(s); c.add_mesh(s); uint64_t h = hash_mesh(a); mix(h, hash_smooth(s)); mix(h, hash_smooth(c)); return h; } },
    { "image read", K_NONE, K_IMAGE, K_NONE, READ, OP { Image& i = *w.image[g.a]; uint64_t h = hash_image(i); const Image& c = i; if (c.width() && c.height() && c.planes()) { mix(h, c(c.width() - 1, c.height() - 1, c.planes() - 1)); mix(h, *c.pixel(0, c.height() / 2)); } Image d = c; if (d.planes() >= 3) { Image e; ImageUtil::convert_to_bw(c, e); mix(h, hash_image(e)); } return h; } },
    { "image to double", K_NONE, K_IMAGE, K_NONE, READ, OP { Image& i = *w.image[g.a]; std::vector<double> v; if (i.planes() < 1) return SKIPPED; i.to_double(v); uint64_t h = 3; mix(h, v.size()); for (int k = 0; k < i.width() * i.height(); k++) mixd(h, v[k]); return h; } },
    { "transforms", K_NONE, K_NONE, K_NONE, READ, OP { R r(g.seed); uint64_t h = 4; for (int k = 0; k < NTR; k++) { Point3 p = r.pt(); w.tr[k]->apply(p); mixp(h, p); } std::vector<Point3> v; for (int k = 0; k < 5; k++) v.push_back(r.pt()); w.tr[g.n % NTR]->apply_all(v); mix(h, hash_poly(v)); return h; } },
    { "geometry", K_NONE, K_NONE, K_NONE, READ, OP { R r(g.seed); uint64_t h = 5; Point3 p; GeometryUtil::compute_random_axis(p, (int)(g.seed & 0xFFFF)); mixp(h, p); Triangle3 a(r.pt(), p, r.pt()), b(r.pt(), r.pt(), p * 2.); mix(h, a.intersect_with(b)); Plane3 q(a); Point3 s; q.project_point(r.pt(), s); mixp(h, s); mixd(h, q.distance_to(s)); BoundingBox3 x(a), y(b); mix(h, x.intersect_with(y)); Line3 l; if (Plane3(b).intersect_with(q, l)) mixp(h, l.p1()); mix(h, a.contains(r.pt())); Point3 t; if (Segment3(r.pt(), r.pt()).intersect(Segment3(r.pt(), r.pt()), t)) mixp(h, t); return h; } },
    };
    return *t;
}
#undef OP
#undef MO
#undef MA
#undef MB
#undef SU
#undef CU
#undef SO
#undef SM
#undef IM
inline uint64_t exec(World& w, const Args& g) { return table()[g.op].fn(w, g); }
}
