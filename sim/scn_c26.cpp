#include "opsim.h"
#include "RendererCamera.h"
#include "MeshBoolean.h"
#include <functional>
using namespace sim;
using ops::R;
using ops::mix; using ops::mixd; using ops::mixp;

// A subject: an object with settings and questions.  Each function gets the values it uses from a seed.
template <class T> struct Subject {
    const char* name;
    std::function<T*()> make;
    struct Set { const char* name; std::function<void(T&, R&)> f; bool whole = false; };   // whole: only makes sense after those before it
    std::vector<Set> sets;                                   // all of them, in the order of a new object
    bool any_order;                                          // settings that do not build on each other
    std::vector<Set> other;                                  // anything else one may do with it
    std::function<uint64_t(const T&, R&)> ask;
    std::function<uint64_t(T&, R&)> ask_mutable;             // where the interface is not const
};
template <class T> static uint64_t ask(const Subject<T>& s, T& t, uint64_t seed)
{
    R r(seed); return s.ask ? s.ask(t, r) : s.ask_mutable(t, r);
}
static uint64_t sg;
// sets everything: the result must not depend on what was there before
template <class T> static void play(const Subject<T>& s)
{
    T *used = nullptr, *fresh = nullptr;
    must("construct", [&] { used = s.make(); });
    int n = 1 + (int)draw(10); std::string h;
    for (int i = 0; i < n; i++) {
        size_t all = s.sets.size() + s.other.size() + 1, k = draw(all); uint64_t seed = draw(1u << 20);
        bool oom = chance(1, 6); int64_t nth = 1 + (int64_t)draw(6);
        if (oom) alloc_fail(nth, 1);
        const char* nm = k < s.sets.size() ? s.sets[k].name : k < s.sets.size() + s.other.size() ? s.other[k - s.sets.size()].name : "ask";
        // asking is only sensible when everything is set
        Outcome o = OK;
        if (k < s.sets.size()) o = sut(nm, [&] { R r(seed); s.sets[k].f(*used, r); });
        else if (k < s.sets.size() + s.other.size()) o = sut(nm, [&] { R r(seed); s.other[k - s.sets.size()].f(*used, r); });
        else { for (auto& q : s.sets) if (o == OK) o = sut(q.name, [&] { R r(seed); q.f(*used, r); }); if (o == OK) o = sut("ask", [&] { ask(s, *used, seed); }); }
        alloc_fail(0, 0);
        if (o == EXC) fail("unexpected-exception", "%s of a %s threw an exception that is not bad_alloc", nm, s.name);
        if (o == OOM) probe("setting out of memory");
        h += std::string(i ? ", " : "") + nm + (o == OOM ? " (out of memory)" : "");
        ops::mix(sg, k * 2 + (o == OOM));
    }
    // the last settings
    std::vector<size_t> order(s.sets.size()); for (size_t i = 0; i < order.size(); i++) order[i] = i;
    if (s.any_order) for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[draw(i)]);
    uint64_t fin = draw(1u << 20), q1 = draw(1u << 20), q2 = draw(1u << 20);
    log("%s: %s; then everything is set (%llu)", s.name, h.c_str(), (unsigned long long)fin);
    must("construct", [&] { fresh = s.make(); });
    must("set everything", [&] { for (size_t k : order) { R r(fin * 31 + k); s.sets[k].f(*used, r); } });
    // some of them again, with questions in between; where they build on each other, also those that follow
    std::vector<uint64_t> last; for (size_t k = 0; k < s.sets.size(); k++) last.push_back(fin * 31 + k);
    for (int i = s.sets.empty() ? 0 : (int)draw(4); i > 0; i--) {
        size_t k = draw(s.sets.size()), e = s.any_order ? k + 1 : s.sets.size(); uint64_t seed = draw(1u << 20);
        if (!s.any_order && k == 0 && e > 1 && draw(2)) k = 1;
        if (s.sets[k].whole) k = 0;
        for (; k < e; k++) {
            if (draw(2)) { must("ask", [&] { ask(s, *used, seed); }); h += ", asked"; }
            last[k] = seed * 31 + k; h += std::string(", ") + s.sets[k].name + " again";
            must(s.sets[k].name, [&] { R r(last[k]); s.sets[k].f(*used, r); });
        }
        probe("some settings again");
    }
    log("%s: in the end: %s", s.name, h.c_str());
    must("set everything", [&] { for (size_t k = 0; k < s.sets.size(); k++) { R r(last[k]); s.sets[k].f(*fresh, r); } });
    uint64_t a = 0, b = 0, c = 0, d = 0, e = 0;
    must("ask", [&] { a = ask(s, *fresh, q1); });
    must("ask", [&] { b = ask(s, *used, q1); ask(s, *used, q2); c = ask(s, *used, q1); });
    if (a != b) fail("remembers-earlier-settings", "a %s on which everything was set anew (%s) does not behave like a new one with these settings", s.name, h.c_str());
    if (b != c) fail("asking-changes", "asking a %s changed its answers", s.name);
    if constexpr (std::is_copy_constructible<T>::value && std::is_copy_assignable<T>::value) {
        T* cp = nullptr; must("copy", [&] { cp = new T(*used); d = ask(s, *cp, q1); });
        if (d != a) fail("copy-differs", "a copy of a %s does not behave like it", s.name);
        // change the copy, then the original is the same, and assign
        must("set everything", [&] { for (auto& x : s.sets) { R r(q2); x.f(*cp, r); } });
        must("ask", [&] { e = ask(s, *used, q1); });
        if (e != a) fail("copy-shares", "setting a copy of a %s changed the original", s.name);
        must("assign", [&] { *cp = *used; d = ask(s, *cp, q1); T& self = *used; *used = self; e = ask(s, *used, q1); });
        if (d != a) fail("copy-differs", "a %s assigned from another does not behave like it", s.name);
        if (e != a) fail("copy-differs", "a %s assigned to itself does not behave as before", s.name);
        must("destroy", [&] { delete cp; e = ask(s, *used, q1); });
        if (e != a) fail("copy-shares", "destroying a copy of a %s changed the original", s.name);
    }
    must("destroy", [&] { delete used; delete fresh; });
}
static void mix_transform(uint64_t& h, const Transform& t, R& r) { std::vector<Point3> v; for (int i = 0; i < 4; i++) { Point3 p = r.pt(); Point3 q = p; t.apply(q); mixp(h, q); v.push_back(p); } t.apply_all(v); for (auto& p : v) mixp(h, p); }
static Point3 axis(R& r) { if (r.below(2)) { int k = r.below(3); return Point3(k == 0, k == 1, k == 2); } Point3 a = r.gp(); if (a.norm() < 0.1) a = Point3(0, 1, 0); a.normalize(); return a; }

// angles and lengths that often come back
static double ang(R& r) { static const double a[] = { 0, 30, 90, 180, 210, -180, 360, 390, -30, 450, 57.29577951308232 }; return r.below(3) ? a[r.below(11)] : r.unit() * 720 - 360; }
static double len(R& r) { static const double a[] = { 0, 1, -1, 2, 1.0000001, 5 }; return r.below(3) ? a[r.below(6)] : r.unit() * 10 - 5; }
static void euler() { Subject<RotationEulerAngles> s{ "rotation by Euler angles", [] { return new RotationEulerAngles; }, { { "set angles", [](RotationEulerAngles& t, R& r) { double a = ang(r), b = ang(r); t.set_angles(a, b, ang(r)); } } }, true, {}, [](const RotationEulerAngles& t, R& r) { uint64_t h = 1; mix_transform(h, t, r); return h; }, nullptr }; play(s); }
static void quaternion()
{
    Subject<RotationQuaternion> s{ "rotation by quaternion", [] { return new RotationQuaternion; }, { { "set quaternion or axis", [](RotationQuaternion& t, R& r) {
        if (r.below(2)) { Point3 a = axis(r); t.from_angle_axis(ang(r), a); return; }
        double q[4], n = 0; for (auto& x : q) { x = r.unit() - 0.5; n += x * x; } for (auto& x : q) x /= std::sqrt(n); t.set_quaternion(q); } } }, true, {},
        [](const RotationQuaternion& t, R& r) { uint64_t h = 2; mix_transform(h, t, r); return h; }, nullptr };
    play(s);
}
static void matrix()
{
    Subject<RotationMatrix> s{ "rotation by matrix", [] { return new RotationMatrix; }, { { "set matrix or axis", [](RotationMatrix& t, R& r) {
        Point3 a = axis(r); if (r.below(2)) { t.from_angle_axis(ang(r), a); return; }
        double m[9]; RotationMatrix o; o.from_angle_axis(r.unit() * 360, a); o.get_matrix(m); t.set_matrix(m); for (auto& x : m) x = 7; } } }, true, {},
        [](const RotationMatrix& t, R& r) { uint64_t h = 3; mix_transform(h, t, r); double m[9]; t.get_matrix(m); for (auto x : m) mixd(h, x); for (auto& x : m) x = 5; return h; }, nullptr };
    play(s);
}
static void angleaxis()
{
    Subject<RotationAngleAxis> s{ "rotation by angle and axis", [] { return new RotationAngleAxis; }, { { "set angle and axis", [](RotationAngleAxis& t, R& r) { Point3 a = axis(r); double d = ang(r); if (r.below(2)) t.set_angle_axis(d, a); else t.from_angle_axis(d, a); } } }, true, {},
        [](const RotationAngleAxis& t, R& r) { uint64_t h = 4; mix_transform(h, t, r); return h; }, nullptr };
    play(s);
}
static void camera()
{
    Subject<RendererCamera> s{ "camera", [] { return new RendererCamera; }, {
        { "set origin", [](RendererCamera& c, R& r) { double a = len(r), b = len(r), d = len(r); c.set_origin(a, b, d - 20, r.below(2) ? 0 : len(r)); } },
        { "set angles", [](RendererCamera& c, R& r) { double a = ang(r), b = ang(r); c.set_angles(a, b, ang(r)); } },
        { "set screen", [](RendererCamera& c, R& r) { int w = 1 + r.below(r.below(2) ? 4 : 100), h = 1 + r.below(r.below(2) ? 4 : 100); c.set_screen(w, h, r.below(2) ? 40 : 10 + r.unit() * 100); } } }, true, {}, nullptr,
        [](RendererCamera& c, R& r) { uint64_t h = 5; for (int i = 0; i < 5; i++) { Point3 p = r.pt(); int x, y; double w; c.project(p, x, y, w); mix(h, x); mix(h, y); mixd(h, w); mixp(h, c.local_ref(p)); } return h; } };
    play(s);
}
static void segment()
{
    Subject<Segment3> s{ "segment", [] { return new Segment3; }, { { "set p1", [](Segment3& t, R& r) { t.set_p1(r.pt()); } }, { "set p2", [](Segment3& t, R& r) { t.set_p2(r.pt()); } } }, true, {},
        [](const Segment3& t, R& r) { uint64_t h = 6; mixp(h, t.p1()); mixp(h, t.p2()); mixd(h, t.norm()); mixd(h, t.norm_square()); Plane3 p(r.gp(), r.gp(), r.gp()); Point3 q; if (p.intersect_with(t, q)) mixp(h, q); return h; }, nullptr };
    play(s);
}
static void line()
{
    Subject<Line3> s{ "line", [] { return new Line3; }, { { "set p1", [](Line3& t, R& r) { t.set_p1(r.pt()); } }, { "set p2", [](Line3& t, R& r) { t.set_p2(r.pt()); } } }, true, {},
        [](const Line3& t, R&) { uint64_t h = 7; mixp(h, t.p1()); mixp(h, t.p2()); return h; }, nullptr };
    play(s);
}
static void triangle()
{
    Subject<Triangle3> s{ "triangle", [] { return new Triangle3; }, { { "set p1", [](Triangle3& t, R& r) { t.set_p1(r.gp()); } }, { "set p2", [](Triangle3& t, R& r) { t.set_p2(r.gp()); } }, { "set p3", [](Triangle3& t, R& r) { t.set_p3(r.gp()); } } }, true, {},
        [](const Triangle3& t, R& r) {
            uint64_t h = 8; mixp(h, t.p1()); mixp(h, t.p2()); mixp(h, t.p3()); mixd(h, t.surface()); mixp(h, t.normal()); mixp(h, t.orthogonal());
            Point3 a = r.gp(), b = r.gp(), c = r.gp(); Triangle3 o(a, b, c); Plane3 p(o); mix(h, t.cutted_by(p)); mix(h, t.contains(a)); mix(h, t.intersect_with(o)); Point3 q; if (t.intersect_with(Segment3(a, b), q)) mixp(h, q);
            BoundingBox3 bb(t); mix(h, bb.intersect_with(BoundingBox3(o))); return h; }, nullptr };
    play(s);
}
static void plane()
{
    Subject<Plane3> s{ "plane", [] { return new Plane3; }, { { "compute", [](Plane3& t, R& r) { Point3 a = r.gp(), b = r.gp(), c = r.gp(); if (r.below(2)) t.compute_using(a, b, c); else t.compute_using(Triangle3(a, b, c)); } } }, true, {},
        [](const Plane3& t, R& r) {
            uint64_t h = 9; double a, b, c, d; t.get(a, b, c, d); mixd(h, a); mixd(h, b); mixd(h, c); mixd(h, d); mixp(h, t.normal());
            Point3 p = r.gp(), q; mixd(h, t.distance_to(p)); t.project_point(p, q); mixp(h, q); Segment3 sg(r.gp(), p); if (t.intersect_with(sg, q)) mixp(h, q);
            Point3 e = r.gp(), f = r.gp(); Plane3 o(p, e, f); Line3 l; if (t.intersect_with(o, l)) { mixp(h, l.p1()); mixp(h, l.p2()); } return h; }, nullptr };
    play(s);
}
static void box()        // the box of some points, whatever the order and repetition
{
    Point3 p[6]; int n = 1 + (int)draw(6); R r(draw(1u << 20)); for (auto& q : p) q = r.gp();
    uint64_t h[2] = { 0, 0 }; Point3 pr[12]; for (auto& q : pr) q = r.gp();
    log("bounding box of %d points", n);
    for (int k = 0; k < 2; k++) {
        std::vector<int> o; for (int i = 0; i < n; i++) o.push_back(i);
        if (k) { for (int i = n; i > 1; i--) std::swap(o[i - 1], o[draw(i)]); int extra = (int)draw(4); for (int i = 0; i < extra; i++) o.push_back(o[draw(n)]); }
        must("bounding box", [&] { BoundingBox3 b; if (k && (sg & 1)) { b.add(Point3(1e5, 1e5, 1e5)); b = BoundingBox3(); } for (int i : o) { b.add(p[i]); BoundingBox3 c(b); c.add(Point3(99, 99, 99)); } for (int i = 0; i < 12; i += 3) { BoundingBox3 q(Triangle3(pr[i], pr[i + 1], pr[i + 2])); mix(h[k], b.intersect_with(q)); mix(h[k], q.intersect_with(b)); } });
    }
    if (h[0] != h[1]) fail("remembers-earlier-settings", "a bounding box depends on the order or repetition of its points");
}
static void quad()
{
    typedef QuadBezierTriangle Q;
    Subject<Q> s{ "quadratic patch", [] { return new Q; }, {
        { "set points", [](Q& q, R& r) { Point3 a = r.pt(), b = r.pt(); q.set_points(a, b, r.pt()); } },
        { "set control points", [](Q& q, R& r) { if (r.below(3) == 0) return; Point3 a = r.pt(), b = r.pt(); q.set_control_points(a, b, r.pt()); }, true },
        { "set weights", [](Q& q, R& r) { double w[6]; for (auto& x : w) x = 0.5 + r.unit(); q.set_weights(w[0], w[1], w[2], w[3], w[4], w[5]); } } }, false,
        { { "transform", [](Q& q, R& r) { q.apply_transform(Translation(r.pt())); } } },
        [](const Q& q, R& r) { uint64_t h = 10; for (int i = 0; i < 4; i++) { double a = r.unit(), b = r.unit() * (1 - a); mixp(h, q.eval(a, b)); } Mesh m; q.add_to_mesh(m, 1 + r.below(4)); mix(h, ops::hash_mesh(m)); return h; }, nullptr };
    play(s);
}
// knots, some of them several times, up to a jump
static std::vector<double> knots(int d, int n, R& r)
{
    std::vector<double> k = ops::knots_for(d, n, r); int from = d + 1, to = n - 1;
    for (int t = r.below(3); t > 0 && to >= from; t--) { int i = r.below(2) ? from : from + r.below(to - from + 1), m = r.below(2) ? d + 1 : 1 + r.below(d + 1); for (int j = i + 1; j < i + m && j <= to; j++) k[j] = k[i]; }
    return k;
}
static void curve()
{
    typedef NurbsCurve C;
    struct V { int d, n; std::vector<Point3> p; std::vector<double> k, w; };
    // one setting at a time from one shape: degree, points, knots, weights fit each other when all are set
    int d = 1 + (int)draw(3), n = d + 1 + (int)draw(6); bool uni = draw(2), eq = draw(2);
    Subject<C> s{ "curve", [] { return new C; }, {
        { "set degree", [=](C& c, R&) { c.set_degree(d); } },
        { "set points", [=](C& c, R& r) { std::vector<Point3> p; for (int i = 0; i < n; i++) p.push_back(r.pt()); c.set_points(p); } },
        { "set knots", [=](C& c, R& r) { if (uni) c.set_uniform(); else c.set_knots(knots(d, n, r)); } },
        { "set weights", [=](C& c, R& r) { if (eq) { c.set_equals_weights(); return; } std::vector<double> w; for (int i = 0; i < n; i++) w.push_back(0.5 + r.unit()); c.set_weights(w); } } }, false,
        { { "become another curve", [](C& c, R& r) { ops::Args g; memset(&g, 0, sizeof g); g.seed = r.next() & 0xFFFFF; ops::build_curve(c, g, false); if (ops::ok_curve(c) && r.below(2)) c.insert_knot(0.3 + 0.4 * r.unit()); if (r.below(2)) c.degree_elevation(); } },
          { "clear", [](C& c, R&) { c.clear(); } }, { "become a circle", [](C& c, R&) { NurbsFactory::create_circle(2., c); } } },
        [](const C& c, R& r) { uint64_t h = ops::hash_curve(c); mix(h, c.is_closed()); for (int i = 0; i < 6; i++) { Point3 p; c.evaluate(i < 2 ? c.knots()[r.below((int)c.knots().size())] : i > 2 ? r.unit() : 1., p); mixp(h, p); } std::vector<Point3> v; c.to_polyline(v); mix(h, ops::hash_poly(v)); C e(c); e.insert_knot(0.01 + 0.9 * r.unit()); e.degree_elevation(); mix(h, ops::hash_curve(e)); size_t a = (size_t)r.below((int)c.knots().size() - 1); Point3 p; c.evaluate(0.5 * (c.knots()[a] + c.knots()[a + 1]), p); mixp(h, p); return h; }, nullptr };
    play(s);
}
static void surface()
{
    typedef NurbsSurface C;
    int du = 1 + (int)draw(3), dv = 1 + (int)draw(3), nu = du + 1 + (int)draw(3), nv = dv + 1 + (int)draw(3); bool un = draw(2), eq = draw(2);
    Subject<C> s{ "surface", [] { return new C; }, {
        { "set degrees", [=](C& c, R&) { c.set_degree(du, dv); } },
        { "set points", [=](C& c, R& r) { std::vector<Point3> p; for (int i = 0; i < nu * nv; i++) p.push_back(r.pt()); c.set_points(p, nu, nv); } },
        { "set knots u", [=](C& c, R& r) { if (un) c.set_uniform_u(); else c.set_knots_u(knots(du, nu, r)); } },
        { "set knots v", [=](C& c, R& r) { if (un) c.set_uniform_v(); else c.set_knots_v(knots(dv, nv, r)); } },
        { "set weights", [=](C& c, R& r) { if (eq) { c.set_equals_weights(); return; } std::vector<double> w; for (int i = 0; i < nu * nv; i++) w.push_back(0.5 + r.unit()); c.set_weights(w); } },
        { "set closed", [=](C& c, R& r) { c.set_closed_u(r.below(2)); c.set_closed_v(r.below(2)); } } }, false,
        { { "become another surface", [](C& c, R& r) { ops::Args g; memset(&g, 0, sizeof g); g.seed = r.next() & 0xFFFFF; ops::build_surf(c, g, false); if (r.below(2)) c.insert_knot_u(0.3 + 0.4 * r.unit()); if (r.below(2)) c.degree_elevation_v(); } },
          { "clear", [](C& c, R&) { c.clear(); } }, { "become a sphere", [](C& c, R&) { NurbsFactory::create_sphere(2., c); } }, { "move", [](C& c, R& r) { c.apply_transform(Translation(r.pt())); } } },
        [](const C& c, R& r) { uint64_t h = ops::hash_surf(c); for (int i = 0; i < 6; i++) { Point3 p; double u = i == 0 ? c.knots_u()[r.below((int)c.knots_u().size())] : r.unit(); c.evaluate(u, i < 2 ? c.knots_v()[r.below((int)c.knots_v().size())] : i ? r.unit() : 1., p); mixp(h, p); } Mesh m; NurbsUtil::to_mesh(c, m, 2); mix(h, ops::hash_mesh(m)); C e(c); e.insert_knot_u(0.01 + 0.9 * r.unit()); e.degree_elevation_v(); mix(h, ops::hash_surf(e)); return h; }, nullptr };
    play(s);
}
struct Drawer {      // a renderer and its buffer; lights only add up, so they are set once
    std::vector<int> b; Renderer r; Drawer() : b(40 * 30, 0x55), r(b.data(), 40, 30) { r.add_ambient_light(0x808080, 0.6); r.add_diffuse_light(0xC0C0C0, 0.7, Point3(0.2, 0.1, 1.)); }
    void scene(R& q) { for (int i = 0; i < 4; i++) { Point3 a = q.pt(), c = q.pt(); r.draw_triangle_1color(a, c, q.pt(), 0x101010 * (i + 1), true); r.draw_line(a, q.pt(), 0x00FF00 + i); r.draw_pixel(q.pt(), 0xFF0000 + i); } Mesh m; MeshFactory::create_box(1 + q.unit(), 2., 1., m); r.draw_mesh(m, q.below(2), 0x445566); }
};
static void renderer()
{
    Subject<Drawer> s{ "renderer", [] { return new Drawer; }, {
        { "set camera", [](Drawer& d, R& r) { double o = len(r), y = r.below(2) ? 10 : r.unit() * 30; d.r.set_camera(o, -o, -20, r.below(3), y, r.unit() * 20, 5, 20 + r.unit() * 40); } },
        { "set background", [](Drawer& d, R& r) { d.r.set_background((int)(r.next() & 0xFFFFFF)); } },
        { "clear", [](Drawer& d, R&) { d.r.clear(); } } }, false,
        { { "draw", [](Drawer& d, R& r) { d.scene(r); } }, { "clear and draw", [](Drawer& d, R& r) { d.r.clear(); d.scene(r); } } }, nullptr,
        [](Drawer& d, R& r) { d.r.clear(); d.scene(r); uint64_t h = 12; for (int v : d.b) mix(h, (uint32_t)v); return h; } };
    play(s);
}
// helpers without settings: used again and again, also after they ran out of memory
struct Helpers { MeshTessellate t; MeshBoolean b; NurbsExtrude e; NurbsRevolve v; NurbsRuled u; };
static uint64_t work(Helpers& w, R& r)
{
    uint64_t h = 13; ops::Args g; memset(&g, 0, sizeof g); NurbsCurve c; g.seed = r.next() & 0xFFFFF;
    int k = r.below(5);
    if (k == 0) { Mesh a, b; ops::build_mesh(a, g); w.t.compute(a, r.below(5), b); return ops::hash_mesh(b); }
    if (k == 1) { Mesh a, b, o[4]; ops::general_mesh(a, r, 1 + r.below(5)); ops::general_mesh(b, r, 1 + r.below(5)); w.b.split_meshes(a, b, o[0], o[1], o[2], o[3]); for (auto& m : o) mix(h, ops::hash_mesh(m)); return h; }
    ops::build_curve(c, g); NurbsSurface s; 
    if (k == 2) w.e.extrude(c, r.pt(), s); else if (k == 3) w.v.revolve(c, s); else { g.seed = r.next() & 0xFFFFF; NurbsCurve d(c); for (auto& p : d.points()) p = r.pt(); w.u.create_ruled(c, d, s); }
    return ops::hash_surf(s);
}
static void helpers()
{
    Subject<Helpers> s{ "tessellator, splitter, extruder, revolver or ruler", [] { return new Helpers; }, {}, true, { { "work", [](Helpers& w, R& r) { work(w, r); } } }, nullptr, [](Helpers& w, R& r) { uint64_t h = 0; for (int i = 0; i < 3; i++) mix(h, work(w, r)); return h; } };
    play(s);
}
// meshes inside faces and solids belong to them alone
static void faces()
{
    uint64_t h0 = 0, h1 = 0, h2 = 0, h3 = 0; ops::Args g; memset(&g, 0, sizeof g); g.seed = draw(1u << 20); unsigned mask = (unsigned)draw(16);
    log("faces and solids, %u", mask);
    must("faces and solids", [&] {
        Mesh b; ops::build_mesh(b, g); Mesh m(b); h0 = ops::hash_mesh(m);   // copies have no deleted triangles
        Face f(m), f2(f), f3; f3 = f2; Solid s(f.mesh()), s2(s), s3; s3 = s; s.add_face(f); Solid s4(s); s4 = s; Face& ff = f; f = ff; Solid& ss = s; s = ss;
        Mesh* all[] = { &f.mesh(), &f2.mesh(), &f3.mesh(), &s.mesh(), &s2.mesh(), &s3.mesh(), &s4.mesh() };
        int i = 0; for (Mesh* x : all) if (ops::hash_mesh(*x) != h0) h1 |= 1u << i++;
        // change some, the others stay
        for (i = 0; i < 7; i++) if (mask >> (i & 3) & 1 && i < 4) { all[i]->add_vertex(Point3(1, 2, 3)); all[i]->set_color(i); all[i]->apply_transform(Translation(Point3(1, 1, 1))); }
        for (i = 0; i < 7; i++) { bool changed = ops::hash_mesh(*all[i]) != h0; if (changed != (i < 4 && (mask >> i & 1))) h2 |= 1u << i; }
        if (ops::hash_mesh(m) != h0) h3 = 1;
    });
    if (h1) fail("copy-differs", "a face or solid made of a mesh does not have its mesh");
    if (h2 || h3) fail("copy-shares", "changing the mesh of a face or solid changed another one (%llx)", (unsigned long long)h2);
}
static void run()
{
    sg = 5; 
    static void (*const all[])() = { euler, quaternion, matrix, angleaxis, camera, segment, line, triangle, plane, box, quad, curve, surface, renderer, helpers, faces };
    int n = 1 + (int)draw(4);
    for (int i = 0; i < n; i++) { size_t k = draw(16); mix(sg, k + 100); all[k](); }
    nontrivial(); signature(sg);
}
static Register reg({ "C26", run, 40000, 800000,
    "seeded search: an object with settings (rotations, camera, renderer, primitives, patches, curves, surfaces, helpers) gets a drawn history of settings, questions, uses and failed allocations; then everything is set and its answers are compared bit for bit with those of a new object, of copies and of itself asked again. Every run is non-trivial",
    "Transform, Geometry, RendererCamera, Renderer, QuadBezierTriangle, NurbsCurve, NurbsSurface, Face, Solid, MeshTessellate, MeshBoolean, NurbsExtrude, NurbsRevolve, NurbsRuled", "allocator (fault injection)", "edges of code under test", 0 });
