#include "opsim.h"
#include <algorithm>
#include <cmath>
using namespace sim;
using namespace gen;
using opsim::World;
typedef long double LD;

// ---------------------------------------------------------------- reference evaluation (Cox - de Boor basis functions)
struct P4 { LD x, y, z, w; };
static int span_of(const std::vector<double>& k, int deg, LD t)
{
    int n = (int)k.size() - deg - 1, s = -1;
    for (int i = deg; i < n; i++) if (k[i] < k[i + 1]) { s = i; if (t < k[i + 1]) break; }
    return s;
}
static std::vector<LD> basis(const std::vector<double>& k, int deg, int s, LD t)
{
    std::vector<LD> N(deg + 1, 0); N[0] = 1;
    for (int d = 1; d <= deg; d++) {
        std::vector<LD> M(deg + 1, 0);
        for (int i = 0; i <= d; i++) {              // function number s - d + i
            int a = s - d + i; LD v = 0;
            if (i > 0 && k[a + d] > k[a]) v += (t - k[a]) / ((LD)k[a + d] - k[a]) * N[i - 1];
            if (i < d && k[a + d + 1] > k[a + 1]) v += (k[a + d + 1] - t) / ((LD)k[a + d + 1] - k[a + 1]) * N[i];
            M[i] = v;
        }
        N = M;
    }
    return N;
}
static V3 eval(const CurveM& c, LD t)
{
    int s = span_of(c.k, c.deg, t); std::vector<LD> N = basis(c.k, c.deg, s, t); LD r[3] = { 0, 0, 0 }, w = 0;
    for (int i = 0; i <= c.deg; i++) { int a = s - c.deg + i; LD b = N[i] * c.w[a]; w += b; for (int j = 0; j < 3; j++) r[j] += b * c.p[a][j]; }
    return { (double)(r[0] / w), (double)(r[1] / w), (double)(r[2] / w) };
}
static V3 eval(const SurfM& c, LD u, LD v)
{
    int su = span_of(c.ku, c.du, u), sv = span_of(c.kv, c.dv, v); std::vector<LD> A = basis(c.ku, c.du, su, u), B = basis(c.kv, c.dv, sv, v); LD r[3] = { 0, 0, 0 }, w = 0;
    for (int i = 0; i <= c.du; i++) for (int j = 0; j <= c.dv; j++) { int a = su - c.du + i + c.nu * (sv - c.dv + j); LD b = A[i] * B[j] * c.w[a]; w += b; for (int z = 0; z < 3; z++) r[z] += b * c.p[a][z]; }
    return { (double)(r[0] / w), (double)(r[1] / w), (double)(r[2] / w) };
}
static double size_of(const std::vector<V3>& p) { double s = 1e-3; for (auto& x : p) for (double y : x) s = std::max(s, std::fabs(y)); return s; }
static int mult(const std::vector<double>& k, double u) { int n = 0; for (double x : k) n += x == u; return n; }
static void knots_ok(const std::vector<double>& k, const char* what, const char* op)
{
    if (k.empty() || k.front() != 0 || k.back() != 1) fail("counts", "%s after %s: knots do not span 0 to 1", what, op);
    for (size_t i = 1; i < k.size(); i++) if (k[i] < k[i - 1]) fail("counts", "%s after %s: knots are not in order", what, op);
}
static void counts(const CurveM& c, const char* op)
{
    if (c.p.size() != c.w.size() || c.k.size() != c.p.size() + c.deg + 1) fail("counts", "curve after %s: degree %d, %zu points, %zu weights, %zu knots", op, c.deg, c.p.size(), c.w.size(), c.k.size());
    knots_ok(c.k, "curve", op);
}
static void counts(const SurfM& s, const char* op)
{
    if ((int)s.p.size() != s.nu * s.nv || s.p.size() != s.w.size() || (int)s.ku.size() != s.nu + s.du + 1 || (int)s.kv.size() != s.nv + s.dv + 1) fail("counts", "surface after %s: degrees %d %d, %d x %d points, really %zu, %zu weights, %zu and %zu knots", op, s.du, s.dv, s.nu, s.nv, s.p.size(), s.w.size(), s.ku.size(), s.kv.size());
    knots_ok(s.ku, "surface, u", op); knots_ok(s.kv, "surface, v", op);
}
static bool same_multiset_plus(const std::vector<double>& old, const std::vector<double>& now, const std::vector<double>& added)
{
    std::vector<double> w = old; w.insert(w.end(), added.begin(), added.end()); std::sort(w.begin(), w.end());
    if (w.size() != now.size()) return false;
    for (size_t i = 0; i < w.size(); i++) if (!(std::fabs(w[i] - now[i]) <= 1e-12)) return false;
    return true;
}
static std::vector<double> distinct(std::vector<double> k) { k.erase(std::unique(k.begin(), k.end()), k.end()); return k; }
static void compare(const V3& want, const Point3& got, double tol, const char* cls, const char* op, double u, double v)
{
    V3 g = V(got); for (int i = 0; i < 3; i++) if (!(std::fabs(want[i] - g[i]) <= tol)) fail(cls, "after %s the point at (%g,%g) is (%.12g,%.12g,%.12g) instead of (%.12g,%.12g,%.12g)", op, u, v, g[0], g[1], g[2], want[0], want[1], want[2]);
}
static std::vector<double> params(const std::vector<double>& k, Rng& r, int extra)
{
    std::vector<double> t = distinct(k), o = t;
    for (size_t i = 1; i < t.size(); i++) o.push_back(t[i - 1] + (t[i] - t[i - 1]) * (r.below(2) ? 0.5 : r.unit()));
    for (int i = 0; i < extra; i++) o.push_back(r.unit());
    if (o.size() > 24) { for (size_t i = o.size() - 1; i > 0; i--) std::swap(o[i], o[r.below(i + 1)]); o.resize(24); o.push_back(0); o.push_back(1); }
    return o;
}
// a parameter that may be inserted: inside, not yet of multiplicity deg
static bool draw_param(const std::vector<double>& k, int deg, double& u)
{
    for (int tries = 0; tries < 8; tries++) {
        std::vector<double> d = distinct(k);
        switch (draw(6)) {
        case 0: u = 0.5; break;
        case 1: u = (1 + draw(63)) / 64.; break;
        case 2: u = (1 + draw(999999)) / 1000000.; break;
        case 3: u = d[draw(d.size())]; break;
        case 4: { double a = d[draw(d.size() - 1)]; u = a + 1e-4 * (1 + draw(5)); break; }
        default: u = d[draw(d.size())]; if (u > 0 && u < 1) u += (draw(2) ? 1 : -1) * 1e-5; break;
        }
        if (u > 0 && u < 1 && mult(k, u) < deg) return true;
    }
    return false;
}

// ---------------------------------------------------------------- objects
struct CObj { NurbsCurve* o; CurveM ref, cur; double size; };
struct SObj { NurbsSurface* o; SurfM ref, cur; double size; };
struct TObj { NurbsSolid* o; std::vector<SObj> s; };
// what a transform does is read off from four points; that it does the same to every point of an object is what is checked
struct Affine { LD o[3], m[3][3];
    V3 operator()(const V3& p) const { V3 r; for (int i = 0; i < 3; i++) r[i] = (double)(o[i] + m[0][i] * p[0] + m[1][i] * p[1] + m[2][i] * p[2]); return r; } };
static Affine affine_of(const Transform& t)
{
    Affine a; Point3 p[4] = { Point3(0, 0, 0), Point3(1, 0, 0), Point3(0, 1, 0), Point3(0, 0, 1) };
    must("Transform::apply", [&] { for (auto& q : p) t.apply(q); });
    V3 z = V(p[0]); for (int i = 0; i < 3; i++) a.o[i] = z[i];
    for (int k = 0; k < 3; k++) { V3 q = V(p[k + 1]); for (int i = 0; i < 3; i++) a.m[k][i] = (LD)q[i] - z[i]; }
    return a;
}
template<class F> static void with_transform(Rng& r, F f)
{
    auto pt = [&] { return Point3(r.unit() * 10 - 5, r.unit() * 10 - 5, r.unit() * 10 - 5); };
    Point3 ax = pt(); double l = std::sqrt(ax.x() * ax.x() + ax.y() * ax.y() + ax.z() * ax.z()) + 1e-9; ax = Point3(ax.x() / l, ax.y() / l, ax.z() / l);
    auto sc = [&] { double s = 0.5 + 1.5 * r.unit(); return r.below(4) ? s : -s; };
    switch (r.below(6)) {
    case 0: { Translation t(pt()); f(t, "a translation"); break; }
    case 1: { double a = sc(), b = sc(), c = sc(); Scale t(a, b, c); f(t, "a scale"); break; }
    case 2: { RotationEulerAngles t(r.unit() * 360, r.unit() * 360, r.unit() * 360); f(t, "Euler angles"); break; }
    case 3: { RotationQuaternion t; t.from_angle_axis(r.unit() * 360, ax); f(t, "a quaternion"); break; }
    case 4: { RotationMatrix t; t.from_angle_axis(r.unit() * 360, ax); f(t, "a rotation matrix"); break; }
    default: { RotationAngleAxis t(r.unit() * 360, ax); f(t, "a rotation around an axis"); break; }
    }
}
static void check_curve(CObj& c, const char* op, uint64_t seed)
{
    c.size = std::max(c.size, size_of(c.ref.p));
    Rng r(seed); std::vector<double> t = params(c.cur.k, r, 6); double tol = 1e-8 * c.size;
    std::vector<Point3> got(t.size());
    must("NurbsCurve::evaluate", [&] { for (size_t i = 0; i < t.size(); i++) c.o->evaluate(t[i], got[i]); });
    for (size_t i = 0; i < t.size(); i++) compare(eval(c.ref, t[i]), got[i], tol, "shape", op, t[i], 0);
}
static void check_surf(SObj& s, const char* op, uint64_t seed)
{
    s.size = std::max(s.size, size_of(s.ref.p));
    Rng r(seed); std::vector<double> a = params(s.cur.ku, r, 3), b = params(s.cur.kv, r, 3); double tol = 1e-8 * s.size;
    std::vector<std::pair<double, double>> t; for (int i = 0; i < 40; i++) t.push_back({ a[i < (int)a.size() ? i : r.below(a.size())], b[i < (int)b.size() && i % 2 ? i : r.below(b.size())] });
    for (double u : { 0., 1. }) for (double v : { 0., 1. }) t.push_back({ u, v });
    std::vector<Point3> got(t.size());
    must("NurbsSurface::evaluate", [&] { for (size_t i = 0; i < t.size(); i++) s.o->evaluate(t[i].first, t[i].second, got[i]); });
    for (size_t i = 0; i < t.size(); i++) compare(eval(s.ref, t[i].first, t[i].second), got[i], tol, "shape", op, t[i].first, t[i].second);
}
static std::vector<CObj> C; static std::vector<SObj> S; static std::vector<TObj> T;
static void check_solid(TObj& t, const char* op, uint64_t seed)
{
    if (t.o->surfaces().size() != t.s.size()) fail("solid", "the solid has %zu surfaces instead of %zu after %s", t.o->surfaces().size(), t.s.size(), op);
    for (size_t i = 0; i < t.s.size(); i++) {
        SObj& s = t.s[i]; s.o = &t.o->surfaces()[i]; SurfM now = read_surf(*s.o); counts(now, op);
        if (now.ku != s.cur.ku || now.kv != s.cur.kv || now.w != s.cur.w || now.du != s.cur.du || now.dv != s.cur.dv || now.nu != s.cur.nu || now.cu != s.cur.cu || now.cv != s.cur.cv) fail("solid", "surface %zu of a solid has other knots, weights or degrees after %s", i, op);
        s.cur = now; check_surf(s, op, seed + i);
    }
}
static void others(const void* but, const char* op)
{
    for (auto& c : C) if (c.o != but && !same_curve(read_curve(*c.o), c.cur)) fail("other-changed", "%s of another object changed a curve", op);
    for (auto& s : S) if (s.o != but && !same_surf(read_surf(*s.o), s.cur)) fail("other-changed", "%s of another object changed a surface", op);
    for (auto& t : T) if (t.o != but) { if (t.o->surfaces().size() != t.s.size()) fail("other-changed", "%s of another object changed a solid", op);
        for (size_t i = 0; i < t.s.size(); i++) if (!same_surf(read_surf(t.o->surfaces()[i]), t.s[i].cur)) fail("other-changed", "%s of another object changed a solid", op); }
}
static bool few(const std::vector<double>& k, int deg) { for (double x : distinct(k)) if (x > 0 && x < 1 && mult(k, x) > deg) return false; return true; }

static void run()
{
    C.clear(); S.clear(); T.clear();
    int nc = (int)draw(3), ns = nc ? (int)draw(2) : 1, nt = draw(4) == 3 ? 1 + (int)draw(2) : 0;
    for (int i = 0; i < nc; i++) {
        CObj c; c.size = 0; must("NurbsCurve", [&] { c.o = new NurbsCurve; });
        if (chance(1, 5)) { double rad = 1 + draw(20); must("create_circle", [&] { NurbsFactory::create_circle(rad, *c.o); }); log("circle of radius %g", rad); }
        else gen_curve(*c.o, 3, 10);
        c.ref = c.cur = read_curve(*c.o); C.push_back(c);
    }
    for (int i = 0; i < ns; i++) {
        SObj s; s.size = 0; must("NurbsSurface", [&] { s.o = new NurbsSurface; });
        int f = (int)draw(10); double rad = 1 + draw(9);
        if (f == 1) { must("create_sphere", [&] { NurbsFactory::create_sphere(rad, *s.o); }); log("sphere"); }
        else if (f == 2) { must("create_torus", [&] { NurbsFactory::create_torus(rad + 2, rad / 2, *s.o); }); log("torus"); }
        else if (f == 3) { must("create_disk", [&] { NurbsFactory::create_disk(rad, *s.o); }); log("disk"); }
        else gen_surf(*s.o, 3, 6);
        s.ref = s.cur = read_surf(*s.o); S.push_back(s);
    }
    for (int i = 0; i < nt; i++) {
        TObj t; int f = (int)draw(4); double rad = 1 + draw(9);
        must("make solid", [&] { t.o = new NurbsSolid; if (f == 1) NurbsFactory::create_box(rad, rad + 1, 2, *t.o); else if (f == 2) NurbsFactory::create_cylinder(rad, 4, *t.o); else if (f == 3) NurbsFactory::create_torus(rad + 2, rad / 2, *t.o); });
        for (auto& x : t.o->surfaces()) { SObj s; s.size = 0; s.ref = s.cur = read_surf(x); s.o = nullptr; t.s.push_back(s); }
        log("solid of %zu surfaces", t.s.size()); T.push_back(t);
    }
    for (auto& c : C) { counts(c.cur, "construction"); check_curve(c, "construction", 1); }
    for (auto& s : S) { counts(s.cur, "construction"); check_surf(s, "construction", 1); }
    int nops = 1 + (int)draw(24); uint64_t sg = 5; unsigned done = 0;
    for (int i = 0; i < nops; i++) {
        bool oom = chance(1, 5); int64_t nth = oom ? 1 + (int64_t)draw(chance(1, 2) ? 60 : 6) : 0, many = oom && draw(2) ? 1 << 30 : 1;
        uint64_t seed = draw(1u << 20); size_t who = draw(C.size() + S.size() + T.size());
        if (who < C.size()) {
            CObj& c = C[who]; int kind = (int)draw(10);
            if (kind >= 8) {                        // the points of a curve are moved by its user
                Rng r(seed); CurveM now;
                with_transform(r, [&](const Transform& t, const char* name) { Affine a = affine_of(t); log("%d: curve %zu: %s", i, who, name);
                    must("Transform::apply_all", [&] { t.apply_all(c.o->points()); }); for (auto& p : c.ref.p) p = a(p); });
                now = read_curve(*c.o); if (now.k != c.cur.k || now.w != c.cur.w || now.deg != c.cur.deg || now.p.size() != c.cur.p.size()) fail("counts", "moving the points of a curve changed its knots, weights or degree");
                c.cur = now; check_curve(c, "a transform", seed); others(c.o, "a transform"); done++; continue;
            }
            CurveM old = c.cur; bool ret = true; const char* op; double u = 0; Outcome oc;
            if (kind == 7) {                        // a copy goes its own way; copies never disturb each other
                if (C.size() >= 4) continue;
                CObj d = c; must("copy", [&] { d.o = seed & 1 ? new NurbsCurve(*c.o) : new NurbsCurve; if (!(seed & 1)) *d.o = *c.o; }); CurveM g = read_curve(*d.o);
                if (!same_curve(g, c.cur)) fail("copy", "a copied curve differs"); C.push_back(d); log("%d: curve %zu copied", i, who); continue;
            }
            if (kind < 5) {
                if (old.p.size() > 40 || !draw_param(old.k, old.deg, u)) continue;
                op = "insert_knot"; log("%d: curve %zu: insert_knot(%.9g)%s", i, who, u, oom ? " with allocations failing" : "");
                if (oom) alloc_fail(nth, many); oc = sut("NurbsCurve::insert_knot", [&] { c.o->insert_knot(u); });
            } else {
                if (old.p.size() > 40 || !few(old.k, old.deg)) continue;
                op = "degree_elevation"; log("%d: curve %zu of degree %d: degree_elevation%s", i, who, old.deg, oom ? " with allocations failing" : "");
                if (oom) alloc_fail(nth, many); oc = sut("NurbsCurve::degree_elevation", [&] { ret = c.o->degree_elevation(); });
            }
            if (oc == EXC || (oc == OOM && !oom)) fail("unexpected-exception", "%s threw", op);
            CurveM now = read_curve(*c.o); counts(now, op);
            if (oc == OOM && same_curve(now, old)) { probe("interrupted, old curve"); log("  out of memory"); }
            else {                                  // must be the new one, entirely
                if (oc == OOM) { probe("interrupted, new curve"); log("  out of memory"); }
                if (kind < 5) { if (now.deg != old.deg || !same_multiset_plus(old.k, now.k, { u })) fail("counts", "%s did not add exactly the knot", op); }
                else if (old.deg >= 3) { if (ret && oc == OK) { if (now.deg != old.deg + 1) fail("counts", "degree_elevation succeeded but the degree is %d", now.deg); } else if (!same_curve(now, old)) fail("mixture", "a refused degree_elevation changed the curve"); }
                else { if (oc == OK && !ret) fail("refused", "degree_elevation of a curve of degree %d is refused", old.deg); if (now.deg != old.deg + 1 || !same_multiset_plus(old.k, now.k, distinct(old.k))) fail("counts", "degree_elevation from %d gives degree %d and %zu knots from %zu", old.deg, now.deg, now.k.size(), old.k.size()); }
                done++;
            }
            c.cur = now; check_curve(c, op, seed); others(c.o, op);
            ops::mix(sg, now.deg * 1000 + now.p.size());
        } else if (who >= C.size() + S.size()) {
            size_t z = who - C.size() - S.size(); TObj& t = T[z]; int kind = (int)draw(5);
            if (kind == 0) { if (S.empty() || t.s.size() > 7) continue; SObj s = S[draw(S.size())]; must("NurbsSolid::add_surface", [&] { t.o->add_surface(*s.o); }); t.s.push_back(s); log("%d: solid %zu: a surface is added", i, z); }
            else if (kind == 1) {
                if (T.size() >= 3) continue;
                TObj d = t; must("copy", [&] { d.o = seed & 1 ? new NurbsSolid(*t.o) : new NurbsSolid; if (!(seed & 1)) *d.o = *t.o; }); T.push_back(d); log("%d: solid %zu copied", i, z);
                check_solid(T.back(), "copying", seed); others(T.back().o, "copying"); continue;
            } else { Rng r(seed); with_transform(r, [&](const Transform& x, const char* name) { Affine a = affine_of(x); log("%d: solid %zu: %s", i, z, name);
                must("NurbsSolid::apply_transform", [&] { t.o->apply_transform(x); }); for (auto& s : t.s) for (auto& p : s.ref.p) p = a(p); }); done++; }
            check_solid(t, "a transform", seed); others(t.o, "an edit"); ops::mix(sg, t.s.size());
        } else {
            size_t z = who - C.size(); SObj& s = S[z]; int kind = (int)draw(10);
            if (kind >= 8) {
                Rng r(seed);
                with_transform(r, [&](const Transform& t, const char* name) { Affine a = affine_of(t); log("%d: surface %zu: %s", i, z, name);
                    must("NurbsSurface::apply_transform", [&] { s.o->apply_transform(t); }); for (auto& p : s.ref.p) p = a(p); });
                SurfM now = read_surf(*s.o); if (now.ku != s.cur.ku || now.kv != s.cur.kv || now.w != s.cur.w || now.du != s.cur.du || now.dv != s.cur.dv || now.nu != s.cur.nu || now.cu != s.cur.cu || now.cv != s.cur.cv) fail("counts", "a transform changed knots, weights or degrees of a surface");
                s.cur = now; check_surf(s, "a transform", seed); others(s.o, "a transform"); done++; continue;
            }
            bool inu = draw(2); SurfM old = s.cur; bool ret = true; const char* op; double u = 0; Outcome oc;
            const std::vector<double>&ok = inu ? old.ku : old.kv; int od = inu ? old.du : old.dv;
            if (kind == 7) {
                if (S.size() >= 3) continue;
                SObj d = s; must("copy", [&] { d.o = seed & 1 ? new NurbsSurface(*s.o) : new NurbsSurface; if (!(seed & 1)) *d.o = *s.o; }); SurfM g = read_surf(*d.o);
                if (!same_surf(g, s.cur)) fail("copy", "a copied surface differs"); S.push_back(d); log("%d: surface %zu copied", i, z); continue;
            }
            if (old.p.size() > 150) continue;
            if (kind < 5) {
                if (!draw_param(ok, od, u)) continue;
                op = inu ? "insert_knot_u" : "insert_knot_v"; log("%d: surface %zu: %s(%.9g)%s", i, z, op, u, oom ? " with allocations failing" : "");
                if (oom) alloc_fail(nth, many); oc = sut(op, [&] { if (inu) s.o->insert_knot_u(u); else s.o->insert_knot_v(u); });
            } else {
                if (!few(ok, od)) continue;
                op = inu ? "degree_elevation_u" : "degree_elevation_v"; log("%d: surface %zu of degrees %d %d: %s%s", i, z, old.du, old.dv, op, oom ? " with allocations failing" : "");
                if (oom) alloc_fail(nth, many); oc = sut(op, [&] { ret = inu ? s.o->degree_elevation_u() : s.o->degree_elevation_v(); });
            }
            if (oc == EXC || (oc == OOM && !oom)) fail("unexpected-exception", "%s threw", op);
            SurfM now = read_surf(*s.o); counts(now, op);
            if (oc == OOM && same_surf(now, old)) { probe("interrupted, old surface"); log("  out of memory"); }
            else {
                const std::vector<double>&nk = inu ? now.ku : now.kv, &xk = inu ? now.kv : now.ku, &yk = inu ? old.kv : old.ku; int nd = inu ? now.du : now.dv;
                if (xk != yk || (inu ? now.dv != old.dv || now.nv != old.nv : now.du != old.du || now.nu != old.nu) || now.cu != old.cu || now.cv != old.cv) fail("mixture", "%s changed the other direction or the closed marks", op);
                if (kind < 5) { if (nd != od || !same_multiset_plus(ok, nk, { u })) fail("counts", "%s did not add exactly the knot", op); }
                else if (od >= 3) { if (ret && oc == OK) { if (nd != od + 1) fail("counts", "%s succeeded but the degree is %d", op, nd); } else if (!same_surf(now, old)) fail("mixture", "a refused %s changed the surface", op); }
                else { if (oc == OK && !ret) fail("refused", "%s of a surface of degree %d is refused", op, od); if (nd != od + 1 || !same_multiset_plus(ok, nk, distinct(ok))) fail("counts", "%s from %d gives degree %d and %zu knots from %zu", op, od, nd, nk.size(), ok.size()); }
                done++;
            }
            s.cur = now; check_surf(s, op, seed); others(s.o, op);
            ops::mix(sg, now.du * 100000 + now.dv * 10000 + now.p.size());
        }
    }
    for (auto& c : C) { check_curve(c, "all", 77); }
    for (auto& s : S) { check_surf(s, "all", 78); }
    for (auto& t : T) check_solid(t, "all", 79);
    if (done > 1) nontrivial();
    signature(sg);
    must("destroy", [&] { for (auto& c : C) delete c.o; for (auto& s : S) delete s.o; for (auto& t : T) delete t.o; });
    { std::vector<CObj> a; C.swap(a); std::vector<SObj> b; S.swap(b); std::vector<TObj> c; T.swap(c); }
}
static Register reg({ "C12", run, 28000, 800000,
    "seeded search: drawn sequences of transforms, knot insertions (up to multiplicity = degree, also next to and on existing knots) and degree elevations in both directions over drawn and factory-made rational curves and surfaces and copies of them, some with allocation failures; after every step counts and knots are checked and points compared with a reference evaluation of the original. Non-trivial: at least two refinements",
    "NurbsCurve, NurbsSurface, NurbsSolid, NurbsFactory, Transform", "allocator (fault injection)", "edges of code under test", 0 });
