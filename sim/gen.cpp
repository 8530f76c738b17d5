#include "gen.h"
#include <cerrno>
#include <climits>
#include <clocale>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <locale.h>

#include "MeshFactory.h"

using namespace sim;
namespace gen {

Point3 P(const V3& v) { return Point3(v[0], v[1], v[2]); }
V3 V(const Point3& p) { return V3{ { p._x, p._y, p._z } }; }

// number conversion that no locale can influence
static locale_t cloc() { static locale_t l = newlocale(LC_ALL_MASK, "C", (locale_t)0); return l; }
static double to_d(const char* s, char** e) { return strtod_l(s, e, cloc()); }
static std::string fmt_d(double d, int digits) { locale_t o = uselocale(cloc()); char b[64]; snprintf(b, sizeof b, "%.*g", digits, d); uselocale(o); return b; }

// ---------------------------------------------------------------- meshes
MeshM read_mesh(const Mesh& m)
{
    MeshM r;
    must("read mesh", [&] {
        int nv = m.nb_vertices(), nt = m.nb_triangles();
        { Quiet q; r.v.reserve(nv); r.t.reserve(nt); }
        for (int i = 0; i < nv; i++) { Point3 p; m.get_vertex(i, p); r.v.push_back(V3{ { p._x, p._y, p._z } }); }
        for (int i = 0; i < nt; i++) {
            if (m.is_triangle_unlinked(i)) continue;
            int a, b, c; m.get_triangle_vertices(i, a, b, c);
            if (a < 0 || b < 0 || c < 0 || a >= nv || b >= nv || c >= nv) fail("invalid-mesh", "triangle %d refers to vertices %d %d %d of %d", i, a, b, c, nv);
            r.t.push_back(T3{ { a, b, c } });
        }
        r.color = m.get_color();
    });
    return r;
}
uint64_t hash_mesh(const MeshM& m)
{
    uint64_t h = hash_bytes(m.v.data(), m.v.size() * sizeof(V3));
    return hash_bytes(m.t.data(), m.t.size() * sizeof(T3), h + m.v.size());
}
std::string describe(const MeshM& m)
{
    char b[120]; snprintf(b, sizeof b, "%zu vertices, %zu triangles, color %d, #%016llx", m.v.size(), m.t.size(), m.color, (unsigned long long)hash_mesh(m));
    return b;
}
bool same_mesh(const MeshM& a, const MeshM& b)
{
    return a.v.size() == b.v.size() && a.t == b.t && !(a.v.size() && memcmp(a.v.data(), b.v.data(), a.v.size() * sizeof(V3)));
}
double gen_coord(Rng& r, int cls, double maxabs)
{
    switch (cls) {
    case 0: return (double)(int)r.below(21) - 10;
    case 1: return (r.unit() - 0.5) * 20;
    case 2: return (r.unit() - 0.5) * 2 * maxabs;
    case 3: return (r.unit() - 0.5) * 1e-4;
    case 4: { static const double s[] = { 0., -0., 1., -1., 0.1, 1e-7, 123456.7, 999999.5, 1234567.89, 16777217., 0.3, 1e5, 100000.5, 99999.95, -2.5e-10, 33554433. };
        double d = s[r.below(sizeof s / sizeof *s)]; return fabs(d) > maxabs ? maxabs : d; }
    case 6: { double d = std::ldexp(r.unit() - 0.5, (int)r.below(500) - 250); return fabs(d) > maxabs ? 1 / d : d; }   // any magnitude
    default: return std::ldexp(r.unit() - 0.5, (int)r.below(40) - 20);
    }
}
void gen_mesh(Mesh& m, const MeshOpt& o, const char* name)
{
    int kind = (int)draw(8);
    uint64_t bulk = 0; int nt = 0, nv = 0, cls = 0;
    switch (kind) {
    default: // a triangle soup or an indexed mesh
        nt = (int)draw(o.max_tri + 1);
        if (o.big && chance(1, 12)) nt = (int)draw(900);
        if (o.big && chance(1, 80)) { nt = 2000 + (int)draw(12000); probe("big mesh"); }
        if (o.big && chance(1, 500)) { nt = 65530 + (int)draw(500); probe("mesh of more than 65535 triangles"); }
        if (o.big && chance(1, 12)) { nt = (1 << (int)draw(13)) * (1 + (int)draw(3)) + (int)draw(3) - 1; probe("mesh of a block-sized number of triangles"); }
        cls = o.simple_coords ? (int)draw(2) : (int)draw(o.wide ? 7 : 6);
        bulk = draw(1u << 30);
        break;
    case 6: case 7: break;
    }
    int color = -1;
    if (o.colors && chance(1, 3)) color = (int)draw(1 << 24);
    Rng r(bulk);
    if (kind < 6) {
        bool soup = kind < 3;
        nv = nt ? (soup ? 3 * nt : 3 + (int)draw(nt + 2)) : (int)draw(3);
        must("build mesh", [&] {
            if (soup)
                for (int i = 0; i < nt; i++) {
                    Point3 p[3];
                    for (int k = 0; k < 3; k++) { p[k]._x = gen_coord(r, cls, o.maxabs); p[k]._y = gen_coord(r, cls, o.maxabs); p[k]._z = gen_coord(r, cls, o.maxabs); }
                    m.add_triangle(p[0], p[1], p[2]);
                }
            else {
                for (int i = 0; i < nv; i++) { double x = gen_coord(r, cls, o.maxabs), y = gen_coord(r, cls, o.maxabs), z = gen_coord(r, cls, o.maxabs); m.add_vertex(x, y, z); }
                if (nv) for (int i = 0; i < nt; i++) { int a = (int)r.below(nv), b = (int)r.below(nv), c = (int)r.below(nv); m.add_triangle(a, b, c); }
            }
        });
        int nl = m.nb_triangles();
        if (nl && chance(1, 2)) {   // delete some
            int del = 1 + (int)draw(3), mod = 2 + (int)draw(7);
            must("delete triangles", [&] {
                for (int i = 0; i < del; i++) m.unlink_triangle((int)r.below(nl));
                if (mod > 5) for (int i = 0; i < nl; i++) if (r.below(mod) == 0) m.unlink_triangle(i);
            });
            probe("mesh with deleted triangles");
        }
        if (nl && chance(1, 6)) must("flip triangles", [&] { for (int i = 0; i < 3; i++) m.flip_triangle((int)r.below(nl)); });
    } else {
        int f = (int)draw(8), seg = 1 + (int)draw(3);
        double sz = 0.5 + (double)draw(8);
        must("factory mesh", [&] {
            switch (f) {
            case 0: MeshFactory::create_box(sz, 1., 2., m); break;
            case 1: MeshFactory::create_tetrahedron(sz, m); break;
            case 2: MeshFactory::create_octahedron(sz, m); break;
            case 3: MeshFactory::create_icosahedron(sz, m); break;
            case 4: MeshFactory::create_sphere_uv(sz, seg, m); break;
            case 5: MeshFactory::create_torus(sz + 2., 1., seg, m); break;
            case 6: MeshFactory::create_dodecahedron(sz, m); break;
            default: MeshFactory::create_cylinder(sz, 1., seg, m); break;
            }
        });
    }
    if (color != -1) must("set color", [&] { m.set_color(color); });
    if (name) log("%s = %s", name, describe(read_mesh(m)).c_str());
}

// ---------------------------------------------------------------- images
ImageM read_image(const Image& im)
{
    ImageM m; m.w = im.width(); m.h = im.height(); m.p = im.planes();
    if (m.w < 0 || m.h < 0 || m.p < 0) fail("invalid-image", "image of size %d x %d x %d", m.w, m.h, m.p);
    m.px.resize((size_t)m.w * m.h * m.p);
    must("read image", [&] {
        for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) for (int p = 0; p < m.p; p++) m.px[((size_t)y * m.w + x) * m.p + p] = (char)im(x, y, p);
    });
    return m;
}
void gen_image(Image& im, int planes, bool big)
{
    static const int pl[] = { 3, 1, 4 };
    if (!planes) planes = pl[draw(3)];
    int w = 1 + (int)draw(17), h = 1 + (int)draw(9);
    if (big && chance(1, 10)) { w = 1 + (int)draw(300); h = 1 + (int)draw(120); }
    if (big && chance(1, 60)) { w = 200 + (int)draw(600); h = 50 + (int)draw(200); probe("big image"); }
    if (big && chance(1, 200)) { static const int edge[] = { 255, 256, 4096, 8192, 32767, 65535 }; w = edge[draw(6)] + (int)draw(4); h = 1 + (int)draw(3); if (draw(2)) std::swap(w, h); probe("image of extreme size"); }
    if (big && chance(1, 60)) { if (draw(2)) w = 0; else h = 0; probe("image without pixels"); }
    uint64_t bulk = draw(1u << 30);
    Rng r(bulk);
    must("build image", [&] {
        im.resize(w, h, planes);
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int p = 0; p < planes; p++) im(x, y, p) = (unsigned char)r.next();
    });
    log("image = %d x %d x %d, bulk %llu", w, h, planes, (unsigned long long)bulk);
}

// ---------------------------------------------------------------- nurbs
CurveM read_curve(const NurbsCurve& c)
{
    CurveM m;
    m.deg = c.degree(); m.k = c.knots(); m.w = c.weights();
    for (auto& p : c.points()) m.p.push_back(V(p));
    return m;
}
SurfM read_surf(const NurbsSurface& s)
{
    SurfM m;
    m.du = s.degree_u(); m.dv = s.degree_v(); m.nu = s.nb_points_u(); m.nv = s.nb_points_v(); m.cu = s.is_closed_u(); m.cv = s.is_closed_v();
    m.ku = s.knots_u(); m.kv = s.knots_v(); m.w = s.weights();
    for (auto& p : s.points()) m.p.push_back(V(p));
    return m;
}
template <class T> static bool eqv(const std::vector<T>& a, const std::vector<T>& b) { return a.size() == b.size() && !(a.size() && memcmp(a.data(), b.data(), a.size() * sizeof(T))); }
bool same_curve(const CurveM& a, const CurveM& b) { return a.deg == b.deg && eqv(a.k, b.k) && eqv(a.w, b.w) && eqv(a.p, b.p); }
bool same_surf(const SurfM& a, const SurfM& b)
{
    return a.du == b.du && a.dv == b.dv && a.nu == b.nu && a.nv == b.nv && a.cu == b.cu && a.cv == b.cv && eqv(a.ku, b.ku) && eqv(a.kv, b.kv) && eqv(a.w, b.w) && eqv(a.p, b.p);
}
template <class T> static uint64_t hv(const std::vector<T>& a, uint64_t h) { return hash_bytes(a.data(), a.size() * sizeof(T), h + a.size()); }
uint64_t hash_curve(const CurveM& c) { return hv(c.p, hv(c.w, hv(c.k, 7 + c.deg))); }
uint64_t hash_surf(const SurfM& s)
{
    int d[6] = { s.du, s.dv, s.nu, s.nv, s.cu, s.cv };
    return hv(s.p, hv(s.w, hv(s.kv, hv(s.ku, hash_bytes(d, sizeof d)))));
}
std::vector<double> gen_knots(int deg, int n, int kind, Rng& r)
{
    std::vector<double> k(deg + 1, 0.);
    int interior = n - deg - 1;
    double x = 0;
    for (int i = 0; i < interior;) {
        x += kind == 0 ? 1. : 0.25 + r.unit();
        int mult = (kind == 2 && deg >= 2 && r.below(3) == 0) ? 2 : 1;
        for (int j = 0; j < mult && i < interior; j++, i++) k.push_back(x);
    }
    x += kind == 0 ? 1. : 0.25 + r.unit();
    for (int i = 0; i <= deg; i++) k.push_back(x);
    return k;
}
void gen_curve(NurbsCurve& c, int maxdeg, int maxpts)
{
    int deg = 1 + (int)draw(maxdeg), n = deg + 1 + (int)draw(maxpts - maxdeg);
    int kk = (int)draw(3), wk = (int)draw(2), closed = (int)draw(4) == 3;
    Rng r(draw(1u << 30));
    std::vector<double> k = gen_knots(deg, n, kk, r), w; std::vector<Point3> p;
    for (int i = 0; i < n; i++) { w.push_back(wk ? 0.3 + r.unit() * 2 : 1.); double x = gen_coord(r, 1, 10), y = gen_coord(r, 1, 10), z = gen_coord(r, 1, 10); p.push_back(Point3(x, y, z)); }
    if (closed) p.back() = p.front();
    must("build curve", [&] {
        c.clear(); c.set_degree(deg); c.set_points(p);
        if (kk == 0) c.set_uniform(); else c.set_knots(k);
        if (wk) c.set_weights(w); else c.set_equals_weights();
    });
    log("curve deg %d, %d points, knots kind %d, %s%s, #%016llx", deg, n, kk, wk ? "rational" : "equal weights", closed ? ", closed" : "", (unsigned long long)hash_curve(read_curve(c)));
}
void gen_surf(NurbsSurface& s, int maxdeg, int maxpts)
{
    int du = 1 + (int)draw(maxdeg), dv = 1 + (int)draw(maxdeg), nu = du + 1 + (int)draw(maxpts - maxdeg + 1), nv = dv + 1 + (int)draw(maxpts - maxdeg + 1);
    int kk = (int)draw(3), wk = (int)draw(2);
    bool cu = draw(4) == 3, cv = draw(4) == 3;
    Rng r(draw(1u << 30));
    std::vector<double> ku = gen_knots(du, nu, kk, r), kv = gen_knots(dv, nv, kk, r), w; std::vector<Point3> p;
    for (int i = 0; i < nu * nv; i++) { w.push_back(wk ? 0.3 + r.unit() * 2 : 1.); double x = gen_coord(r, 1, 10), y = gen_coord(r, 1, 10), z = gen_coord(r, 1, 10); p.push_back(Point3(x, y, z)); }
    must("build surface", [&] {
        s.clear(); s.set_degree(du, dv); s.set_points(p, nu, nv);
        if (kk == 0) { s.set_uniform_u(); s.set_uniform_v(); } else { s.set_knots_u(ku); s.set_knots_v(kv); }
        if (wk) s.set_weights(w); else s.set_equals_weights();
        s.set_closed_u(cu); s.set_closed_v(cv);
    });
    log("surface deg %d x %d, %d x %d points, knots kind %d, %s, closed %d %d, #%016llx", du, dv, nu, nv, kk, wk ? "rational" : "equal weights", cu, cv, (unsigned long long)hash_surf(read_surf(s)));
}

// ---------------------------------------------------------------- STL
static uint32_t rd32(const std::string& b, size_t o) { return (uint8_t)b[o] | (uint8_t)b[o + 1] << 8 | (uint8_t)b[o + 2] << 16 | (uint32_t)(uint8_t)b[o + 3] << 24; }
static uint16_t rd16(const std::string& b, size_t o) { return (uint16_t)((uint8_t)b[o] | (uint8_t)b[o + 1] << 8); }
static void wr32(std::string& b, uint32_t v) { for (int i = 0; i < 4; i++) b += (char)(v >> (8 * i)); }
static void wr16(std::string& b, uint16_t v) { b += (char)v; b += (char)(v >> 8); }
#define WHY(...) do { char bb_[300]; snprintf(bb_, sizeof bb_, __VA_ARGS__); why = bb_; return false; } while (0)

bool stl_decode(const std::string& b, StlM& m, bool exact, std::string& why)
{
    m.t.clear();
    if (b.size() < 84) WHY("file of %zu bytes has no STL header", b.size());
    uint64_t n = rd32(b, 80);
    if (n > 0x7fffffff) WHY("facet count %llu", (unsigned long long)n);
    if (b.size() < 84 + 50 * n) WHY("file of %zu bytes is too short for %llu facets", b.size(), (unsigned long long)n);
    if (exact && b.size() != 84 + 50 * n) WHY("file has %zu bytes but %llu facets need %llu", b.size(), (unsigned long long)n, (unsigned long long)(84 + 50 * n));
    m.t.resize(n);
    for (size_t i = 0; i < n; i++) for (int v = 0; v < 3; v++) for (int c = 0; c < 3; c++) m.t[i][v][c] = rd32(b, 84 + 50 * i + 12 + v * 12 + c * 4);
    return true;
}
std::string stl_encode(const StlM& m, int variant, uint64_t seed)
{
    Rng r(seed); std::string b;
    for (int i = 0; i < 80; i++) b += variant == 0 ? '\0' : variant == 1 ? (char)r.next() : "binary STL made elsewhere       "[i % 32];
    wr32(b, (uint32_t)m.t.size());
    for (auto& t : m.t) {
        for (int i = 0; i < 3; i++) { float f = variant ? (float)(r.unit() * 2 - 1) : 0.f; uint32_t u; memcpy(&u, &f, 4); wr32(b, u); }
        for (auto& v : t) for (auto c : v) wr32(b, c);
        wr16(b, variant ? (uint16_t)r.next() : 0);
    }
    return b;
}
static uint32_t fbits(double d) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; }
StlM stl_of(const MeshM& m)
{
    StlM s; s.t.resize(m.t.size());
    for (size_t i = 0; i < m.t.size(); i++) for (int k = 0; k < 3; k++) for (int c = 0; c < 3; c++) s.t[i][k][c] = fbits(m.v[m.t[i][k]][c]);
    return s;
}
bool mesh_is_stl(const MeshM& m, const StlM& s, std::string& why)
{
    if (m.t.size() != s.t.size()) WHY("%zu triangles instead of %zu", m.t.size(), s.t.size());
    for (size_t i = 0; i < m.t.size(); i++) for (int k = 0; k < 3; k++) for (int c = 0; c < 3; c++) {
        float f; memcpy(&f, &s.t[i][k][c], 4);
        double d = m.v[m.t[i][k]][c];
        if (std::isnan(f) ? !std::isnan(d) : !(d == (double)f)) WHY("triangle %zu corner %d: coordinate %d is %.17g instead of %.17g", i, k, c, d, (double)f);
    }
    return true;
}

// ---------------------------------------------------------------- OBJ
bool obj_parse(const std::string& b, ObjM& m, std::string& why)
{
    m.r.clear();
    size_t pos = 0; int ln = 0;
    if (!b.empty() && b.back() != '\n') WHY("the last line is not terminated");
    while (pos < b.size()) {
        size_t e = b.find('\n', pos); if (e == std::string::npos) e = b.size();
        std::string l = b.substr(pos, e - pos); size_t lb = pos; pos = e + 1; ln++;
        while (!l.empty() && (l.back() == '\r' || l.back() == ' ')) l.pop_back();
        if (l.empty() || l[0] == '#') continue;
        ObjRec r; r.begin = lb; r.end = e;
        if (l.size() < 2 || l[1] != ' ' || !strchr("vfl", l[0])) {
            if (l == "l") { r.kind = 'l'; m.r.push_back(r); continue; }
            if (!l.compare(0, 2, "o ") || !l.compare(0, 2, "g ") || !l.compare(0, 3, "vn ") || !l.compare(0, 2, "s ")) continue;
            WHY("line %d is not a record: '%.60s'", ln, l.c_str());
        }
        r.kind = l[0];
        const char* s = l.c_str() + 1; char* q;
        for (;;) {
            while (*s == ' ') s++;
            if (!*s) break;
            if (r.kind == 'v') {
                if (!strchr("+-.0123456789", *s)) WHY("line %d: bad number in '%.60s'", ln, l.c_str());
                r.x.push_back(to_d(s, &q));
            } else r.i.push_back(strtol(s, &q, 10));
            if (q == s || (*q && *q != ' ')) WHY("line %d: bad number in '%.60s'", ln, l.c_str());
            s = q;
        }
        if (r.kind == 'v' && r.x.size() != 3 && r.x.size() != 4 && r.x.size() != 6) WHY("line %d: vertex with %zu numbers", ln, r.x.size());
        if (r.kind == 'f' && r.i.size() != 3) WHY("line %d: face with %zu corners", ln, r.i.size());
        m.r.push_back(r);
    }
    return true;
}
bool close6(double f, double real)
{
    if (f == real) return true;
    if (std::isnan(real)) return std::isnan(f);
    return std::fabs(f - real) <= 5.0001e-6 * std::fabs(real) || (std::fabs(real) < 1e-300 && std::fabs(f) < 1e-299);
}
bool obj_is_mesh(const ObjM& o, const MeshM& m, std::string& why)
{
    size_t iv = 0, it = 0;
    for (auto& r : o.r) {
        if (r.kind == 'v') {
            if (iv >= m.v.size()) WHY("more than %zu vertices", m.v.size());
            for (int c = 0; c < 3; c++) if (!close6(r.x[c], m.v[iv][c])) WHY("vertex %zu coordinate %d is %.9g instead of %.9g", iv, c, r.x[c], m.v[iv][c]);
            if (m.color != -1 && r.x.size() == 6) {
                double e[3] = { ((m.color >> 16) & 255) / 255., ((m.color >> 8) & 255) / 255., (m.color & 255) / 255. };
                for (int c = 0; c < 3; c++) if (std::fabs(r.x[3 + c] - e[c]) > 1e-4) WHY("vertex %zu colour component %d is %g instead of %g", iv, c, r.x[3 + c], e[c]);
            } else if (m.color != -1) WHY("vertex %zu lost its colour", iv);
            iv++;
        } else if (r.kind == 'f') {
            if (it >= m.t.size()) WHY("more than %zu faces", m.t.size());
            for (int c = 0; c < 3; c++) if (r.i[c] != m.t[it][c] + 1) WHY("face %zu corner %d is %ld instead of %d", it, c, r.i[c], m.t[it][c] + 1);
            it++;
        } else WHY("unexpected line element");
    }
    if (iv != m.v.size() || it != m.t.size()) WHY("%zu vertices and %zu faces instead of %zu and %zu", iv, it, m.v.size(), m.t.size());
    return true;
}
bool mesh_is_obj_exact(const MeshM& g, const ObjM& o, std::string& why)
{
    size_t iv = 0, it = 0;
    for (auto& r : o.r) {
        if (r.kind == 'v') {
            if (iv >= g.v.size()) WHY("only %zu vertices", g.v.size());
            for (int c = 0; c < 3; c++) { double a = g.v[iv][c], b = r.x[c]; if (!(a == b || std::fabs(a - b) <= 1e-13 * std::fabs(b))) WHY("vertex %zu coordinate %d is %.17g instead of %.17g", iv, c, a, b); }
            iv++;
        } else if (r.kind == 'f') {
            for (size_t f = 2; f < r.i.size(); f++) {        // polygons are fans
                if (it >= g.t.size()) WHY("only %zu triangles", g.t.size());
                for (int c = 0; c < 3; c++) { long i = r.i[c ? f - 2 + c : 0]; if (g.t[it][c] + 1 != i) WHY("triangle %zu corner %d is %d instead of %ld", it, c, g.t[it][c] + 1, i); }
                it++;
            }
        }
    }
    if (iv != g.v.size() || it != g.t.size()) WHY("%zu vertices and %zu triangles instead of %zu and %zu", g.v.size(), g.t.size(), iv, it);
    return true;
}

// the records of a file that need not come from a writer; false: a line is neither a clean record nor something else
bool obj_read(const std::string& b, ObjM& m)
{
    m.r.clear(); long nv = 0;
    for (size_t pos = 0; pos < b.size();) {
        size_t e = b.find('\n', pos); if (e == std::string::npos) e = b.size();
        std::vector<std::string> t(1);
        for (size_t i = pos; i < e; i++) { unsigned char c = b[i]; if (c == 0 || c > 126 || (c < 32 && !isspace(c))) return false; if (isspace(c)) { if (!t.back().empty()) t.emplace_back(); } else t.back() += (char)c; }
        pos = e + 1; if (t.back().empty()) t.pop_back();
        if (t.empty() || (t[0] != "v" && t[0] != "f")) continue;
        if (t.size() < 4) return false;
        ObjRec r; r.kind = t[0][0]; r.begin = r.end = 0;
        if (r.kind == 'v') {
            for (size_t i = 1; i < t.size(); i++) {
                for (char c : t[i]) if (!strchr("+-.0123456789eE", c)) return false;
                char* q; double x = to_d(t[i].c_str(), &q); if (*q || q == t[i].c_str()) return false;
                if (std::fabs(x) > 1e300 || (x != 0 && std::fabs(x) < 1e-300)) return false;
                if (x == 0 && t[i].find_first_of("123456789") < t[i].find_first_of("eE")) return false;
                r.x.push_back(x);
            }
            nv++;
        } else for (size_t i = 1; i < t.size(); i++) {
            const char* s = t[i].c_str(); char* q; if (t[i].size() > 30) return false;
            if (!isdigit((unsigned char)*s) && (*s != '-' || !isdigit((unsigned char)s[1]))) return false;
            long x = strtol(s, &q, 10); if (x < 0) x += nv + 1;
            if (x < 1 || x > nv) return false;
            if (*q == '/') { q++; if (*q == '/') q++; if (!isdigit((unsigned char)*q)) return false; while (isdigit((unsigned char)*q)) q++; if (*q == '/' && q[-1] != '/') { q++; if (!isdigit((unsigned char)*q)) return false; while (isdigit((unsigned char)*q)) q++; } }
            if (*q) return false;
            r.i.push_back(x);
        }
        m.r.push_back(r);
    }
    return true;
}

// ---------------------------------------------------------------- BMP
bool bmp_decode(const std::string& b, ImageM& m, bool strict, std::string& why)
{
    if (b.size() < 54) WHY("file of %zu bytes has no BMP header", b.size());
    if (b[0] != 'B' || b[1] != 'M') WHY("no BMP magic");
    uint32_t fs = rd32(b, 2), off = rd32(b, 10);
    int w = (int)rd32(b, 18), h = (int)rd32(b, 22), bpp = rd16(b, 28);
    if (bpp != 8 && bpp != 24 && bpp != 32) WHY("%d bits per pixel", bpp);
    bool topdown = !strict && h < 0 && h > -0x7fffffff;      // rows stored from the top
    if (topdown) h = -h;
    if (w < 0 || h < 0) WHY("size %d x %d", w, h);
    int p = bpp / 8;
    uint64_t stride = ((uint64_t)w * p + 3) / 4 * 4, data = strict ? (bpp == 8 ? 54 + 1024 : 54) : off;
    if (!strict && rd32(b, 30) != 0) WHY("the pixels are compressed");
    if (!strict && (off < 54 || off > 0x7fffffff)) WHY("pixel data at %u", off);
    if (h && stride > (b.size() < data ? 0 : (b.size() - data)) / h) WHY("file of %zu bytes is too short for %d x %d x %d", b.size(), w, h, p);
    if (strict) {
        if (off != data) WHY("pixel data offset %u instead of %llu", off, (unsigned long long)data);
        if (rd32(b, 14) != 40 || rd16(b, 26) != 1 || rd32(b, 30) != 0) WHY("bad info header");
        if (fs != b.size() || b.size() != data + stride * h) WHY("file has %zu bytes, header says %u, pixels need %llu", b.size(), fs, (unsigned long long)(data + stride * h));
        if (bpp == 8) for (int i = 0; i < 256; i++) for (int c = 0; c < 3; c++) if ((uint8_t)b[54 + 4 * i + c] != i) WHY("palette entry %d is not grey", i);
    }
    uint8_t lut[256]; for (int i = 0; i < 256; i++) lut[i] = (uint8_t)i;
    if (p == 1 && !strict) {
        uint64_t head = rd32(b, 14), n = rd32(b, 46); if (head < 40 || 14 + head > off) WHY("an info header of %llu bytes", (unsigned long long)head);
        if (n == 0 || n > 256) n = 256;
        n = std::min<uint64_t>(n, (off - 14 - head) / 4);
        for (uint64_t i = 0; i < n; i++) { size_t a = 14 + head + 4 * i; if (b[a] != b[a + 1] || b[a] != b[a + 2]) WHY("colour %llu of the palette is not grey", (unsigned long long)i); lut[i] = (uint8_t)b[a]; }
    }
    m.w = w; m.h = h; m.p = p; m.px.assign((size_t)w * h * p, '\0');
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
        size_t s = data + stride * (topdown ? y : h - 1 - y) + (size_t)x * p, d = ((size_t)y * w + x) * p;
        if (p == 1) m.px[d] = (char)lut[(uint8_t)b[s]];
        else { m.px[d] = b[s + 2]; m.px[d + 1] = b[s + 1]; m.px[d + 2] = b[s]; if (p == 4) m.px[d + 3] = b[s + 3]; }
    }
    return true;
}
std::string bmp_encode(const ImageM& m, int variant, uint64_t seed, const std::vector<std::array<uint8_t, 3>>* palette)
{
    Rng r(seed); std::string b = "BM";
    uint32_t stride = (m.w * m.p + 3) / 4 * 4, lut = m.p == 1 ? palette ? 4 * (uint32_t)palette->size() : 1024 : 0, gap = 0, head = 40;
    if (variant & 4) { static const uint32_t heads[] = { 108, 124, 56, 52 }; head = heads[r.below(4)]; }     // later versions of the header
    if (variant & 8) gap = 1 + (uint32_t)r.below(200);                                                      // something else before the pixels
    uint32_t data = 14 + head + lut + gap;
    wr32(b, data + stride * m.h); wr32(b, 0); wr32(b, data);
    wr32(b, head); wr32(b, m.w); wr32(b, variant & 16 ? -m.h : m.h);    // 16: rows from the top
     wr16(b, 1); wr16(b, m.p * 8); wr32(b, 0);
    wr32(b, variant & 1 ? 0 : stride * m.h); wr32(b, variant & 1 ? 0 : 2834); wr32(b, variant & 1 ? 0 : 2834); wr32(b, palette && palette->size() < 256 ? (uint32_t)palette->size() : 0); wr32(b, 0);
    for (uint32_t i = 40; i < head; i++) b += (char)r.next();
    if (m.p == 1 && palette) for (auto& c : *palette) { b += (char)c[0]; b += (char)c[1]; b += (char)c[2]; b += variant & 2 ? (char)r.next() : '\0'; }
    else if (m.p == 1) for (int i = 0; i < 256; i++) { b += (char)i; b += (char)i; b += (char)i; b += '\0'; }
    for (uint32_t i = 0; i < gap; i++) b += (char)r.next();
    for (int k = m.h - 1; k >= 0; k--) {
        int y = variant & 16 ? m.h - 1 - k : k;
        for (int x = 0; x < m.w; x++) {
            const char* s = &m.px[((size_t)y * m.w + x) * m.p];
            if (m.p == 1) b += s[0]; else { b += s[2]; b += s[1]; b += s[0]; if (m.p == 4) b += s[3]; }
        }
        for (uint32_t k = m.w * m.p; k < stride; k++) b += variant & 2 ? (char)r.next() : '\0';
    }
    return b;
}
bool same_image(const ImageM& a, const ImageM& b, bool ia, std::string& why)
{
    if (a.w != b.w || a.h != b.h || a.p != b.p) WHY("size %d x %d x %d instead of %d x %d x %d", a.w, a.h, a.p, b.w, b.h, b.p);
    for (size_t i = 0; i < a.px.size(); i++) {
        if (ia && a.p == 4 && i % 4 == 3) continue;
        if (a.px[i] != b.px[i]) WHY("pixel %zu,%zu plane %zu is %d instead of %d", i / a.p % a.w, i / a.p / a.w, i % a.p, (uint8_t)a.px[i], (uint8_t)b.px[i]);
    }
    return true;
}

// ---------------------------------------------------------------- STEP
static bool step_ent(const std::string& a, size_t& p, std::string& out) { (void)a; (void)p; (void)out; return false; }
bool step_has_end(const std::string& b)
{
    size_t e = b.find_last_not_of(" \r\n\t");
    static const char E[] = "END-ISO-10303-21;";
    size_t n = sizeof E - 1;
    return e != std::string::npos && e + 1 >= n && !b.compare(e + 1 - n, n, E);
}
namespace {
struct Lst { bool atom; std::string s; std::vector<Lst> l; };
// parses "( ... )" into nested lists; atoms are everything between separators
bool parse_list(const std::string& t, size_t& p, Lst& o)
{
    if (p >= t.size() || t[p] != '(') return false;
    p++; o.atom = false;
    for (;;) {
        while (p < t.size() && isspace((unsigned char)t[p])) p++;
        if (p >= t.size()) return false;
        if (t[p] == ')') { p++; return true; }
        if (t[p] == ',') { p++; continue; }
        if (t[p] == '(') { Lst c; if (!parse_list(t, p, c)) return false; o.l.push_back(c); continue; }
        Lst c; c.atom = true;
        if (t[p] == '\'') { size_t e = t.find('\'', p + 1); if (e == std::string::npos) return false; c.s = t.substr(p, e + 1 - p); p = e + 1; }
        else { size_t e = p; while (e < t.size() && !strchr(",()", t[e]) && !isspace((unsigned char)t[e])) e++; c.s = t.substr(p, e - p); p = e; }
        o.l.push_back(c);
    }
}
}
bool step_parse(const std::string& b, StepM& m, std::string& why)
{
    m.s.clear(); m.entities = 0;
    (void)step_ent;
    auto count = [&](const char* w) { size_t n = 0, p = 0, l = strlen(w); while ((p = b.find(w, p)) != std::string::npos) { if (p == 0 || b[p - 1] == '\n') n++; p += l; } return n; };
    if (b.compare(0, 13, "ISO-10303-21;")) WHY("no start marker");
    if (count("ISO-10303-21;") != 1) WHY("more than one document in the file");
    if (count("HEADER;") != 1 || count("DATA;") != 1 || count("ENDSEC;") != 2) WHY("header, data or section end markers: %zu %zu %zu", count("HEADER;"), count("DATA;"), count("ENDSEC;"));
    if (count("END-ISO-10303-21;") != 1 || !step_has_end(b)) WHY("no end marker at the end");
    size_t d = b.find("\nDATA;") + 6, e = b.rfind("ENDSEC;");
    std::map<long, std::string> ent; std::vector<long> order;
    size_t p = d;
    while (p < e) {
        while (p < e && isspace((unsigned char)b[p])) p++;
        if (p >= e) break;
        if (b[p] != '#') WHY("no entity at byte %zu: '%.30s'", p, b.c_str() + p);
        char* q; long id = strtol(b.c_str() + p + 1, &q, 10); size_t z = q - b.c_str();
        while (z < e && isspace((unsigned char)b[z])) z++;
        if (id <= 0 || z >= e || b[z] != '=') WHY("malformed entity at byte %zu: '%.30s'", p, b.c_str() + p);
        z++;
        size_t s = b.find(';', z);
        if (s == std::string::npos || s >= e) WHY("unterminated entity #%ld", id);
        std::string t = b.substr(z, s - z);
        if (t.find('=') != std::string::npos) WHY("unterminated entity #%ld", id);
        if (ent.count(id)) WHY("entity #%ld is defined twice", id);
        ent[id] = t; order.push_back(id);
        p = s + 1;
    }
    m.entities = (long)ent.size();
    for (auto& en : ent) {
        int depth = 0;
        for (char c : en.second) { if (c == '(') depth++; if (c == ')') depth--; }
        if (depth) WHY("unbalanced parentheses in #%ld", en.first);
        for (size_t k = en.second.find('#'); k != std::string::npos; k = en.second.find('#', k + 1)) {
            char* q; long r = strtol(en.second.c_str() + k + 1, &q, 10);
            if (!ent.count(r)) WHY("#%ld refers to #%ld which is not defined", en.first, r);
        }
    }
    auto num = [&](const Lst& l, double& x) { char* q; if (!l.atom || l.s.empty()) return false; x = to_d(l.s.c_str(), &q); return *q == 0; };
    long nfaces = 0;
    std::map<long, int> surf_used;
    for (long id : order) {
        const std::string& t = ent[id];
        size_t bs = t.find("B_SPLINE_SURFACE(");
        if (t.find("ADVANCED_FACE") != std::string::npos) {
            nfaces++;
            size_t k = t.find('#'); if (k == std::string::npos) WHY("face #%ld without surface", id);
            long r = strtol(t.c_str() + k + 1, nullptr, 10);
            if (ent[r].find("B_SPLINE_SURFACE(") == std::string::npos) WHY("face #%ld refers to #%ld which is not a surface", id, r);
            if (surf_used[r]++) WHY("surface #%ld used by two faces", r);
        }
        static const char* chain[][2] = { { "CLOSED_SHELL", "ADVANCED_FACE" }, { "MANIFOLD_SOLID_BREP", "CLOSED_SHELL" }, { "ADVANCED_BREP_SHAPE_REPRESENTATION", "MANIFOLD_SOLID_BREP" } };
        for (auto& c : chain) if (!t.compare(t.find_first_not_of(" \r\n"), strlen(c[0]), c[0])) {
            size_t k = t.find('#'); if (k == std::string::npos) WHY("#%ld has no reference", id);
            for (; k != std::string::npos; k = t.find('#', k + 1)) { long r = strtol(t.c_str() + k + 1, nullptr, 10); if (ent[r].find(c[1]) == std::string::npos) WHY("#%ld (%s) refers to #%ld which is not a %s", id, c[0], r, c[1]); }
        }
        if (bs == std::string::npos) continue;
        StepSurf s; size_t pp = bs + 16; Lst l;
        if (!parse_list(t, pp, l) || l.l.size() < 3 || l.l[2].atom) WHY("malformed surface #%ld", id);
        double x;
        if (!num(l.l[0], x)) WHY("surface #%ld degree", id); s.du = (int)x;
        if (!num(l.l[1], x)) WHY("surface #%ld degree", id); s.dv = (int)x;
        s.cu = l.l.size() > 4 && l.l[4].s == ".T."; s.cv = l.l.size() > 5 && l.l[5].s == ".T.";
        s.nv = (int)l.l[2].l.size(); s.nu = s.nv ? (int)l.l[2].l[0].l.size() : 0;
        for (auto& row : l.l[2].l) {
            if ((int)row.l.size() != s.nu) WHY("surface #%ld: rows of different length", id);
            for (auto& a : row.l) {
                if (a.s.empty() || a.s[0] != '#') WHY("surface #%ld: control point is not a reference", id);
                long r = strtol(a.s.c_str() + 1, nullptr, 10);
                const std::string& ct = ent[r]; size_t cp = ct.find("CARTESIAN_POINT(");
                if (cp == std::string::npos) WHY("surface #%ld: #%ld is not a point", id, r);
                cp += 15; Lst cl; V3 v;
                if (!parse_list(ct, cp, cl) || cl.l.size() != 2 || cl.l[1].l.size() != 3) WHY("malformed point #%ld: %.60s", r, ct.c_str());
                for (int k = 0; k < 3; k++) if (!num(cl.l[1].l[k], v[k])) WHY("malformed number in point #%ld: %.60s", r, ct.c_str());
                s.p.push_back(v);
            }
        }
        size_t kp = t.find("B_SPLINE_SURFACE_WITH_KNOTS(");
        if (kp == std::string::npos) WHY("surface #%ld has no knots", id);
        kp += 27; Lst kl;
        if (!parse_list(t, kp, kl) || kl.l.size() < 4) WHY("malformed knots of #%ld", id);
        s.mu = s.mv = 0;
        for (auto& a : kl.l[0].l) { if (!num(a, x)) WHY("knot multiplicity of #%ld", id); s.mu += (long)x; }
        for (auto& a : kl.l[1].l) { if (!num(a, x)) WHY("knot multiplicity of #%ld", id); s.mv += (long)x; }
        if (kl.l[0].l.size() != kl.l[2].l.size() || kl.l[1].l.size() != kl.l[3].l.size()) WHY("surface #%ld: %zu/%zu knots with %zu/%zu multiplicities", id, kl.l[2].l.size(), kl.l[3].l.size(), kl.l[0].l.size(), kl.l[1].l.size());
        for (int dir = 0; dir < 2; dir++) for (size_t a = 0; a < kl.l[2 + dir].l.size(); a++) {
            double kx, mx; if (!num(kl.l[2 + dir].l[a], kx) || !num(kl.l[dir].l[a], mx)) WHY("malformed knot of #%ld", id);
            for (int c = 0; c < (int)mx; c++) (dir ? s.kv : s.ku).push_back(kx);
        }
        size_t wp = t.find("RATIONAL_B_SPLINE_SURFACE(");
        if (wp == std::string::npos) WHY("surface #%ld has no weights", id);
        wp += 25; Lst wl;
        if (!parse_list(t, wp, wl) || wl.l.size() != 1) WHY("malformed weights of #%ld", id);
        for (auto& row : wl.l[0].l) for (auto& a : row.l) { if (!num(a, x)) WHY("malformed weight of #%ld", id); s.w.push_back(x); }
        m.s.push_back(s);
    }
    if (nfaces != (long)m.s.size()) WHY("%ld faces for %zu surfaces", nfaces, m.s.size());
    return true;
}
bool step_is(const StepM& m, const std::vector<SurfM>& s, std::string& why)
{
    if (m.s.size() != s.size()) WHY("%zu surfaces instead of %zu", m.s.size(), s.size());
    for (size_t i = 0; i < s.size(); i++) {
        const StepSurf& a = m.s[i]; const SurfM& b = s[i];
        if (a.du != b.du || a.dv != b.dv || a.nu != b.nu || a.nv != b.nv) WHY("surface %zu: degree %d x %d with %d x %d points instead of %d x %d with %d x %d", i, a.du, a.dv, a.nu, a.nv, b.du, b.dv, b.nu, b.nv);
        if (a.cu != b.cu || a.cv != b.cv) WHY("surface %zu: closed flags %d %d instead of %d %d", i, a.cu, a.cv, b.cu, b.cv);
        if (a.mu != (long)b.ku.size() || a.mv != (long)b.kv.size()) WHY("surface %zu: %ld x %ld knots instead of %zu x %zu", i, a.mu, a.mv, b.ku.size(), b.kv.size());
        for (int dir = 0; dir < 2; dir++) { auto& x = dir ? a.kv : a.ku; auto& y = dir ? b.kv : b.ku; for (size_t k = 0; k < y.size(); k++) if (!close6(x[k], y[k])) WHY("surface %zu: knot %zu is %g instead of %g", i, k, x[k], y[k]); }
        if (a.p.size() != b.p.size() || a.w.size() != b.w.size()) WHY("surface %zu: %zu points and %zu weights instead of %zu and %zu", i, a.p.size(), a.w.size(), b.p.size(), b.w.size());
        for (size_t k = 0; k < b.p.size(); k++) {
            for (int c = 0; c < 3; c++) if (!close6(a.p[k][c], b.p[k][c])) WHY("surface %zu point %zu coordinate %d is %g instead of %g", i, k, c, a.p[k][c], b.p[k][c]);
            if (!close6(a.w[k], b.w[k])) WHY("surface %zu weight %zu is %g instead of %g", i, k, a.w[k], b.w[k]);
        }
    }
    return true;
}

// ---------------------------------------------------------------- disk plans
IoPlan gen_io(unsigned kinds, int64_t expect)
{
    IoPlan p;
    bool hard = (kinds & (IO_WFAULT | IO_RFAULT)) && chance(3, 4);
    if (kinds & IO_BENIGN) {
        unsigned b = (unsigned)draw(4);
        p.short_w = p.short_r = b & 1; p.eintr_w = p.eintr_r = b & 2;
        if (b & 1) { static const unsigned mc[] = { 0, 1, 3, 17, 512, 5000 }; p.maxchunk = mc[draw(6)]; }
        if (b) p.seed = draw(1u << 30);
        if (p.maxchunk && p.maxchunk < 20 && expect > 200000) p.maxchunk = 4000;
    }
    if (!hard) return p;
    static const int we[] = { ENOSPC, EIO, ENOSPC, EDQUOT };
    static const int oe[] = { ENOENT, EACCES, EMFILE, ENOSPC };
    auto pos = [&]() -> int64_t {
        switch (draw(6)) {
        case 0: return (int64_t)draw(expect + 2);
        case 1: return expect - (int64_t)draw(4 < expect ? 4 : expect + 1);   // the very end
        case 2: return (int64_t)draw(100);                                     // the header
        case 3: { static const int64_t bnd[] = { 0, 1, 1023, 1024, 4096, 8190, 8191, 8192, 16382, 65536 }; int64_t v = bnd[draw(10)]; return v <= expect ? v : expect / 2; }
        default: return (int64_t)draw(expect + 1);
        }
    };
    unsigned k;
    if ((kinds & IO_WFAULT) && !((kinds & IO_RFAULT) && chance(1, 2))) {
        k = (unsigned)draw(8);
        if (k == 0) { p.open_fail = 1; p.open_errno = oe[draw(4)]; }
        else if (k == 1) { p.close_fail = 1; p.close_lose = (unsigned)draw(60); }
        else { p.werr_byte = pos(); if (p.werr_byte < 0) p.werr_byte = 0; p.werr_errno = we[draw(4)]; p.werr_persistent = draw(3) != 2; }
    } else if (kinds & IO_RFAULT) {
        k = (unsigned)draw(8);
        if (k == 0) { p.open_fail = 1; p.open_errno = oe[draw(4)]; }
        else if (k <= 3) { p.reof_byte = pos(); if (p.reof_byte < 0) p.reof_byte = 0; }
        else if (k == 4 && chance(1, 2)) { p.seek_fail = 1 + (int)draw(4); }
        else { p.rerr_byte = pos(); if (p.rerr_byte < 0) p.rerr_byte = 0; p.rerr_errno = EIO; p.rerr_persistent = draw(3) != 2; }
    }
    return p;
}
std::string describe(const IoPlan& p)
{
    char b[256]; std::string s;
    if (p.short_w || p.short_r) { snprintf(b, sizeof b, " short(max %u)", p.maxchunk); s += b; }
    if (p.eintr_w || p.eintr_r) s += " eintr";
    if (p.open_fail) { snprintf(b, sizeof b, " open %d fails errno %d", p.open_fail, p.open_errno); s += b; }
    if (p.werr_byte >= 0) { snprintf(b, sizeof b, " write error %d after byte %lld%s", p.werr_errno, (long long)p.werr_byte, p.werr_persistent ? "" : " once"); s += b; }
    if (p.close_fail) { snprintf(b, sizeof b, " close fails losing %u", p.close_lose); s += b; }
    if (p.rerr_byte >= 0) { snprintf(b, sizeof b, " read error after byte %lld%s", (long long)p.rerr_byte, p.rerr_persistent ? "" : " once"); s += b; }
    if (p.reof_byte >= 0) { snprintf(b, sizeof b, " end of file at byte %lld", (long long)p.reof_byte); s += b; }
    if (p.seek_fail) { snprintf(b, sizeof b, " seek %d fails", p.seek_fail); s += b; }
    return s.empty() ? " healthy disk" : s;
}
}
