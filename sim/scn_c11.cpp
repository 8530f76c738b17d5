#include "opsim.h"
#include "MeshKernelTIN.h"
#include "MeshKernelLinkedTriangles.h"
#include <algorithm>
#include <cmath>
using namespace sim;
using namespace gen;
using opsim::World; using ops::Args; using ops::R;

// ---------------------------------------------------------------- model
struct Tri { int a, b, c; };
struct MM { std::vector<V3> v; std::vector<Tri> t; std::vector<char> live; int color = -1; int nlive() const { int n = 0; for (char c : live) n += c; return n; } };
static Tri norm(Tri t) { while (t.a > t.b || t.a > t.c) { int x = t.a; t.a = t.b; t.b = t.c; t.c = x; if (t.a <= t.b && t.a <= t.c) break; } if (t.a == t.b && t.b == t.c) return t; if (t.a == t.c && t.a <= t.b) { Tri u = { t.c, t.a, t.b }; return u; } return t; }
static bool operator==(const Tri& x, const Tri& y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
static bool operator<(const Tri& x, const Tri& y) { return x.a != y.a ? x.a < y.a : x.b != y.b ? x.b < y.b : x.c < y.c; }
static bool same_tri(const Tri& x, const Tri& y) { return (x.a == y.a && x.b == y.b && x.c == y.c) || (x.a == y.b && x.b == y.c && x.c == y.a) || (x.a == y.c && x.b == y.a && x.c == y.b); }
static bool same_pt(const V3& x, const V3& y) { return !memcmp(&x, &y, sizeof x) || (x[0] == y[0] && x[1] == y[1] && x[2] == y[2]); }
static V3 sub(const V3& a, const V3& b) { return { a[0] - b[0], a[1] - b[1], a[2] - b[2] }; }
static V3 cross(const V3& a, const V3& b) { return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }
static double dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static double len(const V3& a) { return std::sqrt(dot(a, a)); }
static V3 orth(const MM& m, const Tri& t) { return cross(sub(m.v[t.a], m.v[t.b]), sub(m.v[t.a], m.v[t.c])); }
static double area(const MM& m) { double s = 0; for (size_t i = 0; i < m.t.size(); i++) if (m.live[i]) s += len(orth(m, m.t[i])) / 2; return s; }
static double volume(const MM& m) { double s = 0; for (size_t i = 0; i < m.t.size(); i++) if (m.live[i]) s += dot(m.v[m.t[i].a], orth(m, m.t[i])) / 6; return s; }
static double scale(const MM& m) { double s = 1; for (auto& p : m.v) for (double c : p) s = std::max(s, std::fabs(c)); return s; }
static const char* opname = "";

static MM read(const Mesh& m)
{
    MM r; must("read mesh", [&] {
        int nv = m.nb_vertices(), nt = m.nb_triangles();
        { Quiet z; r.v.reserve(nv > 0 ? nv : 0); r.t.reserve(nt > 0 ? nt : 0); r.live.reserve(nt > 0 ? nt : 0); }
        for (int i = 0; i < nv; i++) { Point3 p; m.get_vertex(i, p); r.v.push_back({ p.x(), p.y(), p.z() }); }
        for (int i = 0; i < nt; i++) {
            Tri t = { 0, 0, 0 }; bool u = m.is_triangle_unlinked(i);
            if (!u) m.get_triangle_vertices(i, t.a, t.b, t.c);
            r.t.push_back(t); r.live.push_back(!u);
        }
        r.color = m.get_color();
    });
    for (size_t i = 0; i < r.t.size(); i++) {
        Tri& t = r.t[i]; int n = (int)r.v.size();
        if (!r.live[i]) continue;
        if (t.a < 0 || t.b < 0 || t.c < 0 || t.a >= n || t.b >= n || t.c >= n) fail("invalid-mesh", "after %s triangle %zu has corners %d %d %d but there are %d vertices", opname, i, t.a, t.b, t.c, n);
    }
    return r;
}
// the other getters agree with the indexed ones
static void getters(const Mesh& m, const MM& x, uint64_t seed)
{
    R r(seed);
    if (x.t.empty()) { bool e = false; must("Mesh::empty", [&] { e = m.empty(); }); if (!e) fail("getter", "a mesh without triangles is not empty()"); return; }
    for (int k = 0; k < 4; k++) {
        int i = r.below((int)x.t.size()); if (!x.live[i]) continue;
        Triangle3 t; Point3 p, q, s; bool e = true;
        must("Mesh::get_triangle", [&] { m.get_triangle(i, t); m.get_triangle_vertices(i, p, q, s); e = m.empty(); });
        if (e) fail("getter", "a mesh with live triangles is empty()");
        V3 a[3] = { V(t.p1()), V(t.p2()), V(t.p3()) }, b[3] = { V(p), V(q), V(s) }, c[3] = { x.v[x.t[i].a], x.v[x.t[i].b], x.v[x.t[i].c] };
        for (int j = 0; j < 3; j++) if (!same_pt(a[j], c[j]) || !same_pt(b[j], c[j])) fail("getter", "the getters of triangle %d disagree", i);
    }
}
static void same_or_fail(const MM& want, const MM& got, const char* cls, const char* what)
{
    if (want.v.size() != got.v.size()) fail(cls, "%s after %s: %zu vertices instead of %zu", what, opname, got.v.size(), want.v.size());
    for (size_t i = 0; i < want.v.size(); i++) if (!same_pt(want.v[i], got.v[i])) fail(cls, "%s after %s: vertex %zu is (%g,%g,%g) instead of (%g,%g,%g)", what, opname, i, got.v[i][0], got.v[i][1], got.v[i][2], want.v[i][0], want.v[i][1], want.v[i][2]);
    if (want.t.size() != got.t.size()) fail(cls, "%s after %s: %zu triangles instead of %zu", what, opname, got.t.size(), want.t.size());
    for (size_t i = 0; i < want.t.size(); i++) {
        if (want.live[i] != got.live[i]) fail(cls, "%s after %s: triangle %zu is %s", what, opname, i, got.live[i] ? "live but was deleted" : "deleted but should be live");
        if (want.live[i] && !same_tri(want.t[i], got.t[i])) fail(cls, "%s after %s: triangle %zu has corners %d %d %d instead of %d %d %d", what, opname, i, got.t[i].a, got.t[i].b, got.t[i].c, want.t[i].a, want.t[i].b, want.t[i].c);
    }
}
// live triangles only, renumbered as in a copy
static MM packed(const MM& m) { MM r; r.v = m.v; r.color = m.color; for (size_t i = 0; i < m.t.size(); i++) if (m.live[i]) { r.t.push_back(m.t[i]); r.live.push_back(1); } return r; }
static void prefix_or_fail(const MM& old, const MM& got, bool verts)
{
    if (got.v.size() < old.v.size() || got.t.size() < old.t.size()) fail("lost", "%s lost vertices or triangles", opname);
    MM g = got; g.v.resize(old.v.size()); g.t.resize(old.t.size()); g.live.resize(old.t.size());
    if (!verts) g.v = old.v;
    same_or_fail(old, g, "history", "what was there before");
}
static std::vector<Tri> appended(const MM& old, const MM& got) { std::vector<Tri> v; for (size_t i = old.t.size(); i < got.t.size(); i++) { if (!got.live[i]) fail("history", "%s added a deleted triangle", opname); v.push_back(norm(got.t[i])); } return v; }
static void expect_added(const MM& old, const MM& got, std::vector<Tri> want)
{
    std::vector<Tri> a = appended(old, got);
    for (auto& t : want) t = norm(t);
    std::sort(a.begin(), a.end()); std::sort(want.begin(), want.end());
    if (!(a == want)) { std::string s; for (auto& t : a) s += " " + std::to_string(t.a) + "," + std::to_string(t.b) + "," + std::to_string(t.c); s += " instead of"; for (auto& t : want) s += " " + std::to_string(t.a) + "," + std::to_string(t.b) + "," + std::to_string(t.c); fail("history", "%s added triangles%s", opname, s.c_str()); }
}
// the triangles cover the polygon once, with its orientation
static void expect_polygon(const MM& old, const MM& got, const std::vector<int>& poly)
{
    std::vector<Tri> a = appended(old, got);
    if (a.size() != poly.size() - 2) fail("history", "%s added %zu triangles", opname, a.size());
    std::map<std::pair<int, int>, int> e, w;
    auto add = [](std::map<std::pair<int, int>, int>& m, int x, int y) { if (x == y) return; if (x < y) m[{ x, y }]++; else m[{ y, x }]--; };
    for (auto& t : a) { add(e, t.a, t.b); add(e, t.b, t.c); add(e, t.c, t.a); }
    for (size_t i = 0; i < poly.size(); i++) add(w, poly[i], poly[(i + 1) % poly.size()]);
    for (auto& x : e) if (x.second != w[x.first]) fail("history", "the triangles added by %s do not cover it: edge %d-%d", opname, x.first.first, x.first.second);
    for (auto& x : w) if (x.second != e[x.first]) fail("history", "the triangles added by %s do not cover it: edge %d-%d", opname, x.first.first, x.first.second);
}
static bool near(double a, double b, double tol) { return !(std::fabs(a - b) > tol); }

// ---------------------------------------------------------------- one run
enum { NS = 3 };
static Mesh* me[NS]; static MM mo[NS];
static Face* face; static MM fm; static Solid* solid; static MM sm2;
static V3 gp(R& r, bool lattice) { if (lattice) return { r.below(5) - 2., r.below(5) - 2., r.below(3) - 1. }; Point3 p = r.pt(); return V(p); }

// a patch by its corners 1 2 3, controls 12 13 23 and weights; after an interruption known by its values only
static const double PS[7][2] = { { 1, 0 }, { 0, 1 }, { 0, 0 }, { .5, .5 }, { .5, 0 }, { 0, .5 }, { .25, .5 } };
struct QP {
    V3 p[6]; double w[6] = { 1, 1, 1, 1, 1, 1 };
    V3 at(double s, double u) const { double v = 1 - s - u, b[6] = { s * s, u * u, v * v, 2 * s * u, 2 * s * v, 2 * u * v }, d = 0; V3 r = { 0, 0, 0 }; for (int i = 0; i < 6; i++) { d += b[i] * w[i]; for (int c = 0; c < 3; c++) r[c] += p[i][c] * w[i] * b[i]; } for (double& x : r) x /= d; return r; }
    double size() const { double s = 1; for (auto& x : p) for (double y : x) s = std::max(s, std::fabs(y)); return s; }
};
static QP flat_patch(V3 a, V3 b, V3 c) { QP q; q.p[0] = a; q.p[1] = b; q.p[2] = c; for (int i = 0; i < 3; i++) { q.p[3][i] = (a[i] + b[i]) / 2; q.p[4][i] = (a[i] + c[i]) / 2; q.p[5][i] = (b[i] + c[i]) / 2; } return q; }
static SmoothMesh* sm[2]; static std::vector<QP> smm[2];
static bool same_patch(const QuadBezierTriangle& a, const QP& b)
{
    for (auto& p : PS) { V3 x = V(a.eval(p[0], p[1])), y = b.at(p[0], p[1]); if (!(len(sub(x, y)) <= 1e-9 * b.size())) return false; }
    return true;
}
// holds exactly the patches of the model; after an interrupted operation only what was there in front is certain
static void smooth_is(const SmoothMesh* s, const std::vector<QP>& want, const std::vector<QP>* old, bool target)
{
    must("read smooth mesh", [&] {
        Quiet y; int n = s->nb_triangles();
        auto is = [&](const std::vector<QP>& v, int m) { for (int i = 0; i < m; i++) if (!same_patch(s->triangle(i), v[i])) return i; return -1; };
        if (!old) { if (n != (int)want.size()) fail(target ? "history" : "other-mesh-changed", "smooth mesh after %s has %d patches instead of %zu", opname, n, want.size()); int b = is(want, n); if (b >= 0) fail(target ? "history" : "other-mesh-changed", "patch %d of the smooth mesh is wrong after %s", b, opname); }
        else {                                     // every patch is the old or the new one at its place
            std::vector<QP> o = *old, now; if (n > (int)std::max(want.size(), o.size())) fail("lost", "an interrupted %s made patches up", opname);
            for (int i = 0; i < n; i++) { if (i < (int)o.size() && same_patch(s->triangle(i), o[i])) now.push_back(o[i]); else if (i < (int)want.size() && same_patch(s->triangle(i), want[i])) now.push_back(want[i]); else fail("lost", "an interrupted %s damaged patch %d", opname, i); }
            smm[s == sm[1]] = now;
        }
    });
}
static void check_others(int changed)
{
    for (int i = 0; i < NS; i++) if (i != changed) { MM g = read(*me[i]); const char* w = i == 0 ? "mesh 0" : i == 1 ? "mesh 1" : "mesh 2"; same_or_fail(mo[i], g, "other-mesh-changed", w); if (g.color != mo[i].color) fail("other-mesh-changed", "%s changed the colour of another mesh", opname); }
    if (face) same_or_fail(fm, read(face->mesh()), "other-mesh-changed", "the face");
    if (solid) same_or_fail(sm2, read(solid->mesh()), "other-mesh-changed", "the solid");
}

static void derived(World& w, int k)
{
    Mesh& m = *me[k]; const MM& x = mo[k]; MM p = packed(x);
    int what = (int)draw(8);
    double sc = scale(x), tol = 1e-9 * sc * sc * (1 + x.t.size());
    switch (what) {
    case 0: case 1: {
        opname = "measuring"; double s = 0, v = 0; bool out = false, deg = false;
        must("MeshMeasurements", [&] { s = MeshMeasurements::surface(m); v = MeshMeasurements::volume(m); out = MeshMeasurements::is_oriented_outside(m); deg = !MeshMeasurements::has_no_degenerated_triangles(m); });
        log("mesh %d: surface %.9g volume %.9g", k, s, v);
        if (!near(s, area(x), tol)) fail("measurement", "surface is %.12g but the live triangles have %.12g", s, area(x));
        if (!near(v, volume(x), tol * sc)) fail("measurement", "volume is %.12g but the live triangles have %.12g", v, volume(x));
        if (std::fabs(volume(x)) > tol * sc && out != (volume(x) > 0)) fail("measurement", "orientation does not follow the live triangles");
        double amin = 1e300; bool flat = false; for (size_t i = 0; i < x.t.size(); i++) if (x.live[i]) { amin = std::min(amin, len(orth(x, x.t[i]))); if (x.t[i].a == x.t[i].b || x.t[i].b == x.t[i].c || x.t[i].a == x.t[i].c) flat = true; }
        if (flat && !deg) fail("measurement", "a degenerated live triangle is not reported");
        if (amin > 1e-9 * sc * sc && deg) fail("measurement", "a degenerated triangle is reported but no live triangle is");
        break; }
    case 2: {
        opname = "saving as STL"; std::string f = scratch_file("m.stl"), b, why; bool ok = false;
        must("save STL", [&] { ok = STLFile::save(f, m); }); get_file(f, b);
        MeshM a; a.v = p.v; for (auto& t : p.t) a.t.push_back({ t.a, t.b, t.c });
        StlM s, want = stl_of(a); log("mesh %d: STL of %zu triangles", k, p.t.size());
        if (!ok || !stl_decode(b, s, true, why)) fail("file", "STL file is not readable: %s", why.c_str());
        if (s.t.size() != want.t.size()) fail("file", "STL file has %zu triangles instead of %zu", s.t.size(), want.t.size());
        for (size_t i = 0; i < s.t.size(); i++) if (s.t[i] != want.t[i]) fail("file", "STL triangle %zu is not the live triangle", i);
        break; }
    case 3: {
        opname = "saving as OBJ"; std::string f = scratch_file("m.obj"), b, why; bool ok = false;
        must("save OBJ", [&] { ok = OBJFile::save(f, m); }); get_file(f, b);
        MeshM a; a.v = p.v; for (auto& t : p.t) a.t.push_back({ t.a, t.b, t.c });
        ObjM o; log("mesh %d: OBJ of %zu triangles", k, p.t.size());
        if (!ok || !obj_parse(b, o, why) || !obj_is_mesh(o, a, why)) fail("file", "OBJ file is not the mesh: %s", why.c_str());
        break; }
    case 4: {
        if (p.t.size() > 60) return;
        opname = "conversion to NURBS"; NurbsSolid* s = nullptr; must("NurbsUtil::create_from_mesh", [&] { s = new NurbsSolid; NurbsUtil::create_from_mesh(m, *s); });
        log("mesh %d: NURBS of %zu triangles", k, p.t.size());
        if (s->surfaces().size() != p.t.size()) fail("derived", "%zu surfaces made from %zu live triangles", s->surfaces().size(), p.t.size());
        for (size_t i = 0; i < p.t.size(); i++) {
            const NurbsSurface& n = s->surfaces()[i];
            for (int c = 0; c < 3; c++) { V3 q = p.v[c == 0 ? p.t[i].a : c == 1 ? p.t[i].b : p.t[i].c]; bool f = false; for (auto& z : n.points()) if (same_pt(V(z), q)) f = true; if (!f) fail("derived", "NURBS surface %zu lacks a corner of its triangle", i); }
        }
        must("~NurbsSolid", [&] { delete s; });
        break; }
    case 5: {
        opname = "drawing"; std::vector<int> a(48 * 48, 1), b(48 * 48, 2); Mesh* c = nullptr; must("Mesh copy", [&] { c = new Mesh; for (auto& q : p.v) c->add_vertex(P(q)); for (auto& t : p.t) c->add_triangle(t.a, t.b, t.c); });
        uint64_t sd = draw(64);
        for (int z = 0; z < 2; z++) must("Renderer", [&] { Renderer r(z ? b.data() : a.data(), 48, 48); r.set_background(0x102030); r.set_camera(0, 0, -14, 2, 0, 0, 0, 60); r.add_ambient_light(0xFFFFFF, 1); r.clear(); r.draw_mesh(z ? *c : m, sd & 1, 0x40FF20); });
        must("~Mesh", [&] { delete c; });
        log("mesh %d drawn", k);
        if (a != b) fail("derived", "drawing the mesh differs from drawing its live triangles");
        break; }
    case 6: {
        if (p.t.size() > 200) return;
        int n = 1 + (int)(p.t.size() < 60 ? draw(9) : draw(4)); opname = "tessellation"; Mesh* o = nullptr; must("MeshTessellate::compute", [&] { o = new Mesh; if (n & 1) o->add_triangle(Point3(1, 2, 3), Point3(4, 5, 6), Point3(7, 8, 9)); MeshTessellate t; t.compute(m, n, *o); });
        MM g = read(*o); must("~Mesh", [&] { delete o; });
        log("mesh %d: tessellated by %d", k, n);
        if (g.nlive() != (int)g.t.size() || g.t.size() != p.t.size() * n * n) fail("derived", "tessellation by %d of %zu live triangles has %zu", n, p.t.size(), g.t.size());
        for (size_t i = 0; i < p.t.size(); i++) {
            V3 A = p.v[p.t[i].a], u = sub(p.v[p.t[i].b], A), v = sub(p.v[p.t[i].c], A), N = cross(u, v); double nn = dot(N, N);
            if (nn < 1e-6 * (dot(u, u) + dot(v, v)) * (dot(u, u) + dot(v, v)) || nn < 1e-12) continue;
            std::vector<std::array<int, 6>> cells;
            for (int j = 0; j < n * n; j++) {
                Tri t = g.t[i * n * n + j]; std::vector<std::array<int, 2>> c; V3 q[3] = { g.v[t.a], g.v[t.b], g.v[t.c] };
                for (int z = 0; z < 3; z++) { V3 d = sub(q[z], A); double s = dot(cross(d, v), N) / nn * n, r = dot(cross(u, d), N) / nn * n; int is = (int)std::lround(s), ir = (int)std::lround(r); if (std::fabs(s - is) > 1e-5 || std::fabs(r - ir) > 1e-5 || std::fabs(dot(d, N)) > 1e-6 * nn + 1e-9 || is < 0 || ir < 0 || is + ir > n) fail("derived", "tessellation puts a corner at (%g,%g)/%d", s, r, n); c.push_back({ is, ir }); }
                int o2 = (c[1][0] - c[0][0]) * (c[2][1] - c[0][1]) - (c[2][0] - c[0][0]) * (c[1][1] - c[0][1]);
                if (o2 != 1) fail("derived", "a triangle of the tessellation is not one cell with the orientation of its source");
                std::sort(c.begin(), c.end()); cells.push_back({ c[0][0], c[0][1], c[1][0], c[1][1], c[2][0], c[2][1] });
            }
            std::sort(cells.begin(), cells.end()); if (std::unique(cells.begin(), cells.end()) != cells.end()) fail("derived", "tessellation covers a cell twice");
        }
        break; }
    default: {                                      // meshes cut by each other keep their surface
        opname = "boolean split"; R r(draw(1u << 20)); int n = 1 + r.below(6), n2 = 1 + r.below(6); Mesh *a = nullptr, *b = nullptr, *c[4];
        must("make meshes", [&] { a = new Mesh; b = new Mesh; ops::general_mesh(*a, r, n); ops::general_mesh(*b, r, n2); for (auto& z : c) z = new Mesh; if (r.below(2)) *c[0] = *b; });
        MM ma = read(*a), mb = read(*b);
        must("MeshBoolean::split_meshes", [&] { MeshBoolean x; x.split_meshes(*a, *b, *c[0], *c[1], *c[2], *c[3]); });
        MM oa = read(*c[0]), ob = read(*c[1]); same_or_fail(ma, read(*a), "other-mesh-changed", "an input"); same_or_fail(mb, read(*b), "other-mesh-changed", "an input");
        log("boolean split: %d and %d triangles become %d and %d", ma.nlive(), mb.nlive(), oa.nlive(), ob.nlive());
        if (oa.nlive() > ma.nlive() || ob.nlive() > mb.nlive()) probe("boolean split cut a triangle");
        if (!near(area(ma), area(oa), 1e-7 * (1 + area(ma))) || !near(area(mb), area(ob), 1e-7 * (1 + area(mb)))) fail("derived", "cutting meshes by each other changes their surface: %g to %g, %g to %g", area(ma), area(oa), area(mb), area(ob));
        must("~Mesh", [&] { delete a; delete b; for (auto& z : c) delete z; });
    } }
    MM g = read(m); same_or_fail(x, g, "read-changed", "the mesh");
}

// the mesh kernels hold exactly what their own edit history defines (the half-edge kernel cannot add triangles yet)
static void kernel_history()
{
    bool tin = draw(2); MeshKernel* k = nullptr; must("construct kernel", [&] { k = tin ? (MeshKernel*)new MeshKernelTIN : (MeshKernel*)new MeshKernelLinkedTriangles; });
    MM m; R r(1 + draw(1u << 20)); int n = 1 + (int)draw(60); const char* name = tin ? "TIN kernel" : "linked triangles kernel"; log("history of the %s, %d steps", name, n);
    for (int s = 0; s < n; s++) {
        int kind = r.below(12), nv = (int)m.v.size(), nt = (int)m.t.size(), ret = 0; V3 p = gp(r, r.below(2)); Outcome oc = OK; bool oom = r.below(6) == 0;
        if (oom) alloc_fail(1, 1);
        if (kind < 4 || !nv) { oc = sut("kernel add_vertex", [&] { ret = k->add_vertex(P(p)); }); if (oc == OK) { if (ret != nv) fail("history", "%s: add_vertex returned %d for vertex %d", name, ret, nv); m.v.push_back(p); } }
        else if (kind < 5) { int i = r.below(nv); oc = sut("kernel set_vertex", [&] { k->set_vertex(i, P(p)); }); if (oc == OK) m.v[i] = p; }
        else if (kind < 9) { Tri t = { r.below(nv), r.below(nv), r.below(nv) }; oc = sut("kernel add_triangle", [&] { ret = k->add_triangle(t.a, t.b, t.c); }); if (oc == OK) { if (ret != nt) fail("history", "%s: add_triangle returned %d for triangle %d", name, ret, nt); m.t.push_back(t); m.live.push_back(1); } }
        else if (kind < 11) { if (nt) { int i = r.below(nt); oc = sut("kernel unlink_triangle", [&] { k->unlink_triangle(i); }); if (oc == OK) m.live[i] = 0; } }
        else if (r.below(4) == 0) { oc = sut("kernel clear", [&] { k->clear(); }); if (oc == OK) m = MM(); }
        if (oc == EXC) fail("unexpected-exception", "%s threw", name);
        sim::alloc_fail(0, 0);
        MM g; must("read kernel", [&] { int cv = k->nb_vertices(), ct = k->nb_triangles(); Quiet z; for (int i = 0; i < cv; i++) { Point3 q; k->get_vertex(i, q); g.v.push_back(V(q)); } for (int i = 0; i < ct; i++) { Tri t = { 0, 0, 0 }; bool u = k->is_triangle_unlinked(i); if (!u) k->get_triangle_vertices(i, t.a, t.b, t.c); g.t.push_back(t); g.live.push_back(!u); } });
        opname = "a kernel edit"; same_or_fail(m, g, "history", name);
    }
    must("destroy kernel", [&] { delete k; });
    probe("kernel history");
}
static void run()
{
    ops::table();
    World w; opsim::new_world(w);
    face = nullptr; solid = nullptr;
    for (int i = 0; i < NS; i++) { must("Mesh", [&] { me[i] = new Mesh; }); mo[i] = read(*me[i]); opname = "construction"; if (mo[i].v.size() || mo[i].t.size()) fail("history", "a new mesh is not empty"); }
    for (int i = 0; i < 2; i++) { must("SmoothMesh", [&] { sm[i] = new SmoothMesh; }); smm[i].clear(); }
    bool lattice = draw(2), big = chance(1, 80);
    if (big) { int n = 60 + (int)draw(260); opname = "MeshUtil::create_from_grid"; must(opname, [&] { std::vector<Point3> p; for (int i = 0; i < n * n; i++) p.push_back(Point3(i % n, i / n, i % 7)); MeshUtil::create_from_grid(p, n, n, *me[0]); }); mo[0] = read(*me[0]); log("mesh 0: grid of %d", n); probe("large mesh"); if ((int)mo[0].v.size() != n * n || mo[0].nlive() != 2 * (n - 1) * (n - 1)) fail("history", "grid of %d has %zu vertices and %d triangles", n, mo[0].v.size(), mo[0].nlive()); }
    int nops = big ? 2 + (int)draw(6) : 1 + (int)draw(40); uint64_t sg = 11; unsigned edits = 0, ooms = 0;
    for (int s = 0; s < nops; s++) {
        int k = (int)draw(NS); Mesh& m = *me[k]; MM old = mo[k], got; R r(draw(1u << 20));
        int nv = (int)old.v.size(), nt = (int)old.t.size(), kind = (int)draw(34);
        std::vector<int> live, dead; for (int i = 0; i < nt; i++) (old.live[i] ? live : dead).push_back(i);
        bool oom = chance(1, 8); int64_t nth = oom ? 1 + (int64_t)draw(6) : 0, many = oom && draw(2) ? 1 << 30 : 1;
        Outcome oc = OK; bool done = false; int src = (int)draw(NS), ret = -1;
        auto go = [&](const char* n, std::function<void()> f) { opname = n; log("%d: mesh %d: %s%s", s, k, n, oom ? " with allocations failing" : ""); if (oom) alloc_fail(nth, many); auto g = [&] { f(); }; oc = sut(n, g); if (oc == EXC) fail("unexpected-exception", "%s threw", n); got = read(m); done = oc == OK; ops::mix(sg, kind * 4 + oc); edits++; if (oc == OOM) { ooms++; log("  out of memory"); } };
        auto idx = [&] { return r.below(nv); };
        std::vector<V3> q; for (int i = 0; i < 5; i++) q.push_back(gp(r, lattice));
        if (r.below(4) == 0) q[2] = q[0];
        if (nt > 300 && !big && (kind == 14 || kind == 15)) kind = 0;
        switch (kind) {
        case 0: case 1: case 2: go("Mesh::add_vertex", [&] { ret = kind == 1 ? m.add_vertex(q[0][0], q[0][1], q[0][2]) : m.add_vertex(P(q[0])); }); if (done) { MM x = old; x.v.push_back(q[0]); same_or_fail(x, got, "history", "the mesh"); if (ret != nv) fail("history", "add_vertex returned %d for vertex %d", ret, nv); } break;
        case 3: if (!nv) break; { int i = idx(); go("Mesh::set_vertex", [&] { m.set_vertex(i, P(q[0])); }); if (done) { MM x = old; x.v[i] = q[0]; same_or_fail(x, got, "history", "the mesh"); } } break;
        case 4: case 5: if (nv < 1) break; { Tri t = { idx(), idx(), idx() }; go("Mesh::add_triangle", [&] { ret = m.add_triangle(t.a, t.b, t.c); }); if (done) { MM x = old; x.t.push_back(t); x.live.push_back(1); same_or_fail(x, got, "history", "the mesh"); if (ret != nt) fail("history", "add_triangle returned %d for triangle %d", ret, nt); } } break;
        case 6: case 7: go("Mesh::add_triangle of points", [&] { ret = m.add_triangle(P(q[0]), P(q[1]), P(q[2])); }); if (done) { MM x = old; for (int i = 0; i < 3; i++) x.v.push_back(q[i]); x.t.push_back({ nv, nv + 1, nv + 2 }); x.live.push_back(1); same_or_fail(x, got, "history", "the mesh"); if (ret != nt) fail("history", "add_triangle returned %d for triangle %d", ret, nt); } break;
        case 8: if (nv < 1) break; { int a = idx(), b = idx(), c = idx(), d = idx(); go("Mesh::add_quad", [&] { m.add_quad(a, b, c, d); }); if (done) { prefix_or_fail(old, got, true); if ((int)got.v.size() != nv) fail("history", "add_quad added vertices"); expect_polygon(old, got, { a, b, c, d }); } } break;
        case 9: { bool opt = r.below(3); bool dflt = opt && r.below(2); go("Mesh::add_quad of points", [&] { if (dflt) m.add_quad(P(q[0]), P(q[1]), P(q[2]), P(q[3])); else m.add_quad(P(q[0]), P(q[1]), P(q[2]), P(q[3]), opt); });
            if (done) { prefix_or_fail(old, got, true); MM x = old; for (int i = 0; i < 4; i++) x.v.push_back(q[i]); if (x.v.size() != got.v.size()) fail("history", "add_quad of points added %zu vertices", got.v.size() - nv); for (int i = 0; i < 4; i++) if (!same_pt(q[i], got.v[nv + i])) fail("history", "add_quad of points moved a corner"); expect_polygon(old, got, { nv, nv + 1, nv + 2, nv + 3 });
                if (opt) { MM y = got; double s0 = 0; for (int i = nt; i < (int)y.t.size(); i++) s0 += len(orth(y, y.t[i])); double s1 = len(orth(y, { nv, nv + 1, nv + 2 })) + len(orth(y, { nv + 2, nv + 3, nv })), s2 = len(orth(y, { nv + 1, nv + 2, nv + 3 })) + len(orth(y, { nv + 3, nv, nv + 1 })); if (s0 > std::min(s1, s2) + 1e-9 * (1 + s1 + s2)) fail("history", "add_quad did not choose the smaller surface"); } } break; }
        case 10: if (nv < 1) break; { int a = idx(), b = idx(), c = idx(), d = idx(), e = idx(); go("Mesh::add_pentagon", [&] { m.add_pentagon(a, b, c, d, e); }); if (done) { prefix_or_fail(old, got, true); if ((int)got.v.size() != nv) fail("history", "add_pentagon added vertices"); expect_polygon(old, got, { a, b, c, d, e }); } } break;
        case 11: case 12: if (live.empty()) break; { int t = live[r.below((int)live.size())]; go("Mesh::unlink_triangle", [&] { m.unlink_triangle(t); }); if (done) { MM x = old; x.live[t] = 0; same_or_fail(x, got, "history", "the mesh"); } } break;
        case 13: if (dead.empty()) break; { int t = dead[r.below((int)dead.size())]; go("Mesh::unlink_triangle of a deleted one", [&] { m.unlink_triangle(t); }); if (done) same_or_fail(old, got, "history", "the mesh"); } break;
        case 14: case 15: { if (nt > 20000 && src == k) break; const MM f = mo[src]; go(src == k ? "Mesh::add_mesh of itself" : "Mesh::add_mesh", [&] { m.add_mesh(*me[src]); }); if (done) { MM x = old; for (auto& p : f.v) x.v.push_back(p); for (size_t i = 0; i < f.t.size(); i++) if (f.live[i]) { x.t.push_back({ f.t[i].a + nv, f.t[i].b + nv, f.t[i].c + nv }); x.live.push_back(1); } same_or_fail(x, got, "history", "the mesh"); } break; }
        case 16: case 17: { const MM f = mo[src]; go(src == k ? "Mesh assignment to itself" : "Mesh assignment", [&] { m = *me[src]; });
            if (src == k) { same_or_fail(old, got, "history", "the mesh"); if (got.color != old.color) fail("history", "assignment to itself changed the colour"); }
            else if (done) { MM x = packed(f), g = packed(got); same_or_fail(x, g, "history", "the live part of the mesh"); if (got.color != f.color) fail("history", "assignment gave colour %d instead of %d", got.color, f.color); } break; }
        case 18: { Mesh* c = nullptr; go("Mesh copy construction", [&] { c = new Mesh(*me[src]); }); if (done) { MM g = read(*c); same_or_fail(packed(mo[src]), packed(g), "history", "the copy"); if (g.color != mo[src].color) fail("history", "the copy has another colour"); same_or_fail(old, got, "other-mesh-changed", "the source"); must("~Mesh", [&] { delete me[k]; me[k] = c; }); got = read(*me[k]); } break; }
        case 19: if (live.empty()) break; { int t = live[r.below((int)live.size())]; Tri o = old.t[t]; go("Mesh::flip_triangle", [&] { m.flip_triangle(t); }); if (done) { // either in place or as a new triangle
                if ((int)got.v.size() != nv) fail("history", "flip_triangle added vertices");
                if ((int)got.t.size() == nt) { MM x = old; x.t[t] = { o.a, o.c, o.b }; same_or_fail(x, got, "history", "the mesh"); }
                else { MM x = old; x.live[t] = 0; prefix_or_fail(x, got, true); expect_added(old, got, { { o.a, o.c, o.b } }); } } } break;
        case 20: if (live.empty()) break; { int t = live[r.below((int)live.size())]; Tri o = old.t[t]; int p = nv ? idx() : 0; bool pt = r.below(2); go(pt ? "Mesh::split_triangle_with_vertex of a point" : "Mesh::split_triangle_with_vertex", [&] { if (pt) m.split_triangle_with_vertex(t, P(q[0])); else m.split_triangle_with_vertex(t, p); });
            if (done) { MM x = old; x.live[t] = 0; prefix_or_fail(x, got, true); if (pt) { p = nv; if ((int)got.v.size() != nv + 1 || !same_pt(got.v[nv], q[0])) fail("history", "split_triangle_with_vertex did not add its vertex"); } else if ((int)got.v.size() != nv) fail("history", "split_triangle_with_vertex added vertices"); expect_added(old, got, { { o.a, o.b, p }, { o.b, o.c, p }, { o.c, o.a, p } }); } } break;
        case 21: case 22: {                         // split of an edge shared by two triangles
            struct E { int t1, t2, v1, v2, c, d; bool opp; }; std::vector<E> es;
            for (int i : live) { if (big && es.size() > 20) break; for (int j : live) { if (i == j) continue; Tri a = old.t[i], b = old.t[j]; if (a.a == a.b || a.b == a.c || a.a == a.c || b.a == b.b || b.b == b.c || b.a == b.c) continue; int A[3] = { a.a, a.b, a.c }, B[3] = { b.a, b.b, b.c }; for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) { int v1 = A[x], v2 = A[(x + 1) % 3], w1 = B[y], w2 = B[(y + 1) % 3]; if (v1 == w2 && v2 == w1) es.push_back({ i, j, v1, v2, A[(x + 2) % 3], B[(y + 2) % 3], true }); } if (big && es.size() > 20) break; } }
            if (es.empty()) break;
            E e = es[r.below((int)es.size())];
            int sv = -1; Outcome o2 = sut("Mesh::add_vertex", [&] { sv = m.add_vertex(P(q[0])); }); (void)o2; old = read(m); nv++;
            go("Mesh::split_edge_with_vertex", [&] { m.split_edge_with_vertex(e.t1, e.t2, e.v1, e.v2, sv); });
            if (done) { MM x = old; x.live[e.t1] = x.live[e.t2] = 0; prefix_or_fail(x, got, true); if ((int)got.v.size() != nv) fail("history", "split_edge_with_vertex added vertices"); expect_added(old, got, { { e.v1, sv, e.c }, { sv, e.v2, e.c }, { e.v2, sv, e.d }, { sv, e.v1, e.d } }); probe("edge of two triangles split"); }
            break; }
        case 23: if (live.empty() || big) break; {  // cut by a triangle
            int t = live[r.below((int)live.size())]; if (ops::thin(m, t)) break; Point3 a = r.gp(), b = r.gp(), c = r.gp(); double s0 = len(orth(old, old.t[t])) / 2; go("Mesh::split_triangle", [&] { m.split_triangle(t, Triangle3(a, b, c)); });
            if (done) { MM x = old; if (got.t.size() > old.t.size()) x.live[t] = 0; prefix_or_fail(x, got, true); if (got.t.size() > old.t.size()) { double s1 = 0; V3 n0 = orth(old, old.t[t]); for (size_t i = old.t.size(); i < got.t.size(); i++) if (got.live[i]) { s1 += len(orth(got, got.t[i])) / 2; if (dot(orth(got, got.t[i]), n0) < -1e-6 * dot(n0, n0)) fail("history", "a part of the split triangle is turned over"); } if (!near(s0, s1, 1e-7 * (1 + s0))) fail("history", "the parts of a split triangle have surface %g instead of %g", s1, s0); probe("triangle cut by a triangle"); } } } break;
        case 24: { Transform* t = w.tr[r.below(ops::NTR)]; go("Mesh::apply_transform", [&] { m.apply_transform(*t); });
            if (done) { MM x = old; must("Transform::apply", [&] { for (auto& p : x.v) { Point3 z = P(p); t->apply(z); p = V(z); } }); double sc = scale(old) + scale(x); if (got.v.size() != x.v.size()) fail("history", "a transform changed the number of vertices"); for (size_t i = 0; i < x.v.size(); i++) for (int c = 0; c < 3; c++) if (!near(x.v[i][c], got.v[i][c], 1e-9 * sc)) fail("history", "a transform moved vertex %zu to %g instead of %g", i, got.v[i][c], x.v[i][c]); got.v.swap(x.v); same_or_fail(x.v.empty() ? old : [&] { MM y = old; y.v = got.v; return y; }(), got, "history", "the mesh"); got = read(m); } break; }
        case 25: if (nv > 400) break; { double tol = lattice ? (r.below(2) ? 0.5 : 1.2) : (r.below(2) ? 1e-6 : 0.8); go("MeshUtil::merge_vertices", [&] { MeshUtil::merge_vertices(m, tol); });
            if (done) {
                // remaining vertices: some of the old ones, in order, no two within the tolerance; every live triangle once, in order, corners moved by less than the tolerance
                MM g = packed(got), x = packed(old); size_t j = 0; std::vector<int> isold(g.v.size(), -1);
                if (g.t.size() != x.t.size()) fail("history", "merge_vertices changed the number of live triangles from %zu to %zu", x.t.size(), g.t.size());
                for (size_t i = 0; i < g.v.size(); i++) { while (j < x.v.size() && !same_pt(x.v[j], g.v[i])) j++; if (j == x.v.size()) fail("history", "merge_vertices made a vertex that was not there or changed their order"); isold[i] = (int)j++; }
                for (size_t a = 0; a < g.v.size(); a++) for (size_t b = 0; b < a; b++) { double d = len(sub(g.v[a], g.v[b])); if (d < tol * (1 - 1e-9)) fail("history", "merge_vertices left two vertices at distance %g within %g", d, tol); }
                for (size_t i = 0; i < x.v.size(); i++) { bool lone = true; for (size_t b = 0; b < x.v.size(); b++) if (b != i && len(sub(x.v[i], x.v[b])) < tol * (1 + 1e-9)) lone = false; if (lone) { bool f = false; for (auto& p : g.v) if (same_pt(p, x.v[i])) f = true; if (!f) fail("history", "merge_vertices lost a vertex without a neighbour"); } }
                for (size_t i = 0; i < g.t.size(); i++) { int A[3] = { x.t[i].a, x.t[i].b, x.t[i].c }, B[3] = { g.t[i].a, g.t[i].b, g.t[i].c }; for (int c = 0; c < 3; c++) { double d = len(sub(x.v[A[c]], g.v[B[c]])); if (!(d < tol)) fail("history", "merge_vertices moved a corner of triangle %zu by %g, tolerance %g", i, d, tol); } }
                if (g.v.size() < x.v.size()) probe("vertices merged"); if (g.t.size() < old.t.size()) probe("merge of a mesh with deleted triangles");
                if (got.color != old.color) fail("history", "merge_vertices changed the colour");
            } break; }
        case 26: { double tol = lattice ? 1.2 : (r.below(2) ? 1e-6 : 2.); go("MeshUtil::remove_empty_triangles", [&] { MeshUtil::remove_empty_triangles(m, tol); });
            if (done) { MM x = old; bool edge = false; for (int i : live) { Tri t = x.t[i]; double d[3] = { len(sub(x.v[t.a], x.v[t.b])), len(sub(x.v[t.b], x.v[t.c])), len(sub(x.v[t.c], x.v[t.a])) }; for (double y : d) { if (std::fabs(y - tol) < 1e-9) edge = true; if (y < tol) x.live[i] = 0; } } if (!edge) { same_or_fail(packed(x), packed(got), "history", "the live part of the mesh"); } } break; }
        case 27: go("Mesh::clear", [&] { m.clear(); }); if (done && (got.v.size() || got.t.size())) fail("history", "a cleared mesh has %zu vertices and %zu triangles", got.v.size(), got.t.size()); break;
        case 30: case 31: case 32: {                // smooth meshes
            int z = r.below(2), z2 = r.below(2), what = r.below(9); std::vector<QP> o = smm[z], add; R r2(r.next()); Transform* t = w.tr[r.below(ops::NTR)]; QuadBezierTriangle st; bool fill = false;
            auto flat = [&](int a, int b, int c) { add.push_back(flat_patch(q[a], q[b], q[c])); };
            if (what == 0) { st.set_points(P(q[0]), P(q[1]), P(q[2])); st.set_control_points(P(q[3]), P(q[4]), P(q[0])); QP x = flat_patch(q[0], q[1], q[2]); x.p[3] = q[3]; x.p[4] = q[4]; x.p[5] = q[0]; for (double& u : x.w) u = 0.5 + r.below(3); st.set_weights(x.w[0], x.w[1], x.w[2], x.w[3], x.w[4], x.w[5]); add.push_back(x); }
            if (what == 1) flat(0, 1, 2);
            if (what == 2) { flat(0, 1, 2); flat(0, 2, 3); }
            if (what == 3) { flat(0, 1, 2); flat(2, 3, 4); flat(0, 2, 4); }
            if (what == 4 && o.size() < 300) { add = smm[z2]; } else if (what == 4) what = 6; if (what == 7 && o.size() > 300) what = 6;
            SmoothMesh& S = *sm[z]; int n = 1 + r.below(4);
            go("smooth mesh", [&] { switch (what) {
                case 0: S.add_triangle(st); break; case 1: S.add_flat_triangle(P(q[0]), P(q[1]), P(q[2])); break; case 2: S.add_flat_quad(P(q[0]), P(q[1]), P(q[2]), P(q[3])); break; case 3: S.add_flat_pentagon(P(q[0]), P(q[1]), P(q[2]), P(q[3]), P(q[4])); break;
                case 4: S.add_mesh(*sm[z2]); break; case 5: S = *sm[z2]; break; case 6: S.apply_transform(*t); break; case 7: if (n == 1) S.clear(); else { SmoothMesh c(S); if (c.nb_triangles() != S.nb_triangles()) { Quiet y; fail("history", "a copied smooth mesh has %d patches instead of %d", c.nb_triangles(), S.nb_triangles()); } c.clear(); c = *sm[z2]; c.add_mesh(S); S = c; } break;
                default: if (S.nb_triangles() < 40) { S.add_to_mesh(m, n); fill = true; } } });
            if (what == 5) { o = smm[z2]; } if (what == 6) { must("Transform::apply", [&] { for (auto& x : o) for (auto& y : x.p) { Point3 a = P(y); t->apply(a); y = V(a); } }); } if (what == 7 && n == 1) o.clear(); if (what == 7 && n > 1) { o = smm[z2]; for (auto& x : smm[z]) o.push_back(x); } for (auto& x : add) o.push_back(x);
            for (int i = 0; i < 2; i++) { bool chg = i == z && !done; smooth_is(sm[i], i == z ? o : smm[i], chg ? &smm[i] : nullptr, i == z); }
            if (done) smm[z] = o;
            if (what != 8) same_or_fail(old, got, "other-mesh-changed", "the mesh");
            else if (done && fill) {
                prefix_or_fail(old, got, true); size_t c = o.size(); if (got.t.size() - nt != c * n * n || got.v.size() - nv != c * (n + 1) * (n + 2) / 2) fail("history", "tessellating %zu patches by %d added %zu triangles and %zu vertices", c, n, got.t.size() - nt, got.v.size() - nv);
                for (size_t i = nt; i < got.t.size(); i++) { int lo = nv + (int)((i - nt) / (n * n)) * (n + 1) * (n + 2) / 2, hi = lo + (n + 1) * (n + 2) / 2; for (int x : { got.t[i].a, got.t[i].b, got.t[i].c }) if (x < lo || x >= hi || !got.live[i]) fail("history", "a triangle of a tessellated patch uses vertex %d that is not its own", x); }
                // each patch is covered once, without holes, and its vertices are points of it
                double sc = 1e-9 * (1 + scale(got));
                for (size_t i = 0; i < c; i++) {
                    std::map<std::pair<int, int>, int> e; size_t t0 = nt + i * n * n, v0 = nv + i * (n + 1) * (n + 2) / 2, bd = 0;
                    for (size_t j = t0; j < t0 + n * n; j++) { const Tri& y = got.t[j]; for (auto& d : { std::make_pair(y.a, y.b), std::make_pair(y.b, y.c), std::make_pair(y.c, y.a) }) if (e[d]++) fail("history", "tessellating a patch by %d uses an edge twice in the same direction", n); }
                    for (auto& d : e) if (!e.count({ d.first.second, d.first.first })) bd++;
                    if (bd != 3u * n) fail("history", "tessellating a patch by %d leaves %zu border edges", n, bd);
                    for (int is = 0; is <= n; is++) for (int iu = 0; iu <= n - is; iu++) { V3 pt = o[i].at(is / (double)n, iu / (double)n); bool f = false; for (size_t j = v0; j < v0 + (n + 1) * (n + 2) / 2; j++) if (len(sub(pt, got.v[j])) <= sc) f = true; if (!f && len(pt) < 1e9) fail("history", "tessellating a patch by %d lacks the point at %d,%d", n, is, iu); }
                }
                probe("smooth mesh tessellated into a mesh in use");
            }
            break; }
        case 33: {                                  // height field and grid into a mesh in use
            int nx = 1 + r.below(7), ny = 1 + r.below(7); bool z = r.below(2); std::vector<Point3> gpnt; std::vector<double> vz; for (int i = 0; i < nx * ny; i++) { Point3 a = P(gp(r, lattice)); gpnt.push_back(a); vz.push_back(a.z()); }
            go(z ? "MeshUtil::create_from_z" : "MeshUtil::create_from_grid", [&] { if (z) MeshUtil::create_from_z(vz, nx, ny, m); else MeshUtil::create_from_grid(gpnt, nx, ny, m); });
            if (done) {
                MM e; if ((int)got.v.size() != nx * ny) fail("history", "%s of %d x %d made %zu vertices", opname, nx, ny, got.v.size());
                for (int i = 0; i < nx * ny; i++) { V3 want = z ? V3{ double(i % nx), double(i / nx), vz[i] } : V(gpnt[i]); if (!same_pt(want, got.v[i])) fail("history", "%s: vertex %d is wrong", opname, i); }
                if ((int)got.t.size() != 2 * (nx - 1) * (ny - 1) || got.nlive() != (int)got.t.size()) fail("history", "%s of %d x %d made %zu triangles", opname, nx, ny, got.t.size());
                // every square once
                std::map<int, int> sq; for (auto& t : got.t) { int x0 = std::min({ t.a % nx, t.b % nx, t.c % nx }), y0 = std::min({ t.a / nx, t.b / nx, t.c / nx }), x1 = std::max({ t.a % nx, t.b % nx, t.c % nx }), y1 = std::max({ t.a / nx, t.b / nx, t.c / nx }); int cr = (t.b % nx - t.a % nx) * (t.c / nx - t.a / nx) - (t.c % nx - t.a % nx) * (t.b / nx - t.a / nx); if (x1 != x0 + 1 || y1 != y0 + 1 || cr != 1) fail("history", "%s: a triangle is not half a square, or turned over", opname); sq[y0 * nx + x0]++; }
                for (auto& s2 : sq) if (s2.second != 2) fail("history", "%s: a square has %d triangles", opname, s2.second);
            } break; }
        case 28: { int c = r.below(2) ? -1 : r.below(0xFFFFFF); go("Mesh::set_color", [&] { m.set_color(c); }); if (done) { same_or_fail(old, got, "history", "the mesh"); if (got.color != c) fail("history", "set_color(%d) gives %d", c, got.color); } break; }
        default: {                                  // faces and solids made of a mesh
            if (nt > 2000) break;
            int what = r.below(5); bool nf = what < 2 || !face, ns = what > 2 || !solid;
            go("Face and Solid", [&] {
                if (what == 0 || !face) { Face* f = new Face(m); delete face; face = f; } else if (what == 1) *face = Face(m); else if (what == 2) { Face f(*face); f.mesh().clear(); Face g; g = *face; g.mesh().add_vertex(1, 2, 3); }
                if (what == 3 || !solid) { Solid* f = new Solid(m); delete solid; solid = f; } else if (what == 4) { Solid z(m); z.add_face(*face); *solid = z; z.mesh().clear(); Solid y(*solid); y.mesh().add_vertex(1, 2, 3); }
            });
            if (face) { MM g = read(face->mesh()); if (done && nf) same_or_fail(packed(mo[k]), packed(g), "history", "the face of a mesh"); if (!nf) same_or_fail(fm, g, "other-mesh-changed", "a copied face"); fm = g; }
            if (solid) { MM g = read(solid->mesh()); if (done && ns) same_or_fail(packed(mo[k]), packed(g), "history", "the solid of a mesh"); if (!ns) same_or_fail(sm2, g, "other-mesh-changed", "the solid"); sm2 = g; }
            same_or_fail(old, got, "read-changed", "the mesh");
            break; }
        }
        if (opname == nullptr || (!done && oc == OK)) { if (edits) got = read(*me[k]); else got = old; if (!done && oc == OK) { mo[k] = got; continue; } }
        if (oc == OOM && kind != 33 && kind != 24 && kind != 25 && kind != 27 && kind != 16 && kind != 17) {       // nothing that was there is damaged
            if (got.v.size() < old.v.size() || got.t.size() < old.t.size()) fail("lost", "%s out of memory lost vertices or triangles", opname);
            for (size_t i = 0; i < old.v.size(); i++) if (!same_pt(old.v[i], got.v[i])) fail("lost", "%s out of memory moved vertex %zu", opname, i);
            for (size_t i = 0; i < old.t.size(); i++) { if (!old.live[i] && got.live[i]) fail("lost", "%s out of memory revived triangle %zu", opname, i); if (old.live[i] && got.live[i] && !same_tri(old.t[i], got.t[i])) fail("lost", "%s out of memory changed triangle %zu", opname, i); }
            probe("edit interrupted");
        }
        mo[k] = got;
        check_others(k);
        getters(*me[k], mo[k], r.next());
        if (chance(1, 4)) derived(w, (int)draw(NS));
    }
    for (int i = 0; i < NS; i++) { derived(w, i); log("mesh %d: %zu vertices, %d of %zu triangles live", i, mo[i].v.size(), mo[i].nlive(), mo[i].t.size()); }
    if (chance(1, 8)) kernel_history();
    if (edits > 2) nontrivial();
    signature(sg);
    must("destroy", [&] { for (int i = 0; i < NS; i++) delete me[i]; delete face; delete solid; delete sm[0]; delete sm[1]; });
    opsim::end_world(w);
}
static Register reg({ "C11", run, 24000, 600000,
    "seeded search: drawn sequences of edits over three meshes (plus a Face and a Solid made from them), some with allocation failures; after every edit all meshes are compared with a reference model of vertices, triangles and deletion marks, and drawn derived results (measurements, STL, OBJ, NURBS, drawing, tessellation, boolean split) with what the live triangles define. Non-trivial: more than two edits",
    "Mesh, MeshKernelLinkedTriangles, MeshUtil, MeshTessellate, MeshMeasurements, MeshBoolean, Face, Solid, STLFile, OBJFile, NurbsUtil, Renderer", "disk, allocator (fault injection)", "edges of code under test", 0 });
