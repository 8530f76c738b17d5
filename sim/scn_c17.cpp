#include "opsim.h"
#include <algorithm>
#include <cmath>
using namespace sim;
using namespace gen;
using ops::R;

static const int BG = 0x7F010203;                  // solo background, never an element's colour
struct Cam { double ox, oy, oz, ahead, yaw, pitch, roll, zoom; double m[3][3]; };
struct Lights { int amb; double f; bool diffuse; int dif; double df; Point3 dir; V3 d; };
enum Type { TRI, TRI2, MESH, MESHE, PIX, LINE, POLY };
static const char* const tname[] = { "triangle", "two-faced triangle", "mesh", "mesh with edges", "point", "line", "polyline" };
struct Elem {
    Type t; int color; std::vector<V3> p;          // world positions; meshes: three per triangle
    std::vector<std::array<double, 3>> s;           // screen x, y, w of each position
    Mesh* m = nullptr; bool owncolor = false; int drop = -1;
    std::vector<int> img; std::vector<char> mask;   // drawn alone
    double wlo, whi;
};
static bool huge(const std::array<double, 3>* s, int n) { for (int i = 0; i < n; i++) if (!(std::fabs(s[i][0]) < 5e8 && std::fabs(s[i][1]) < 5e8)) return true; return false; }    // beyond the range of the coordinates of the screen
struct Frame {                                     // a renderer with its pixels between guard zones
    int w, h; std::vector<int> buf; Renderer* r; Cam cam; Lights li; int bg;
    std::vector<Elem*> todo; size_t done = 0; int nframe = 0; double deep = 1;
};
enum { GUARD = 4096, GV = 0x5EADBEEF };
static int* pix(Frame& f) { return f.buf.data() + GUARD; }
static void guards(const Frame& f, const char* op)
{
    for (int i = 0; i < GUARD; i++) if (f.buf[i] != GV || f.buf[f.buf.size() - 1 - i] != GV) fail("outside", "%s wrote outside of the image of %d x %d, %s", op, f.w, f.h, f.buf[i] != GV ? "before it" : "behind it");
}
static void set_up(Renderer& r, const Cam& c, const Lights& l)
{
    r.set_camera(c.ox, c.oy, c.oz, c.ahead, c.yaw, c.pitch, c.roll, c.zoom);
    r.add_ambient_light(l.amb, l.f); if (l.diffuse) r.add_diffuse_light(l.dif, l.df, l.dir);
}
// world position of screen position (x, y) at depth z
static V3 unproject(const Cam& c, int w, int h, double x, double y, double z)
{
    double l[3] = { (x - w / 2) * z / c.zoom, (y - h / 2) * z / c.zoom, z - c.ahead }; V3 r = { c.ox, c.oy, c.oz };
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i] += c.m[j][i] * l[j];      // inverse of a rotation
    return r;
}
static void project(const Cam& c, int w, int h, const V3& p, std::array<double, 3>& s)
{
    double d[3] = { p[0] - c.ox, p[1] - c.oy, p[2] - c.oz }, l[3] = { 0, 0, c.ahead };
    for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) l[j] += c.m[j][i] * d[i];
    s = { l[0] * c.zoom / l[2] + w / 2, l[1] * c.zoom / l[2] + h / 2, 1 / l[2] };
}
static Cam draw_cam(bool simple)
{
    Cam c; memset(&c, 0, sizeof c); c.zoom = 20 + (double)draw(8) * 20; c.ahead = simple ? 0 : draw(10); 
    if (!simple) { c.ox = draw(20) - 10.; c.oy = draw(20) - 10.; c.oz = draw(20) - 10.; c.yaw = draw(360) - 180.; c.pitch = draw(360) - 180.; c.roll = draw(360) - 180.; if (draw(2)) { c.yaw /= 57; c.pitch /= 57; c.roll /= 57; } }
    must("Transform::apply", [&] { RotationEulerAngles r; r.set_angles(c.yaw, c.pitch, c.roll); for (int i = 0; i < 3; i++) { Point3 p(i == 0, i == 1, i == 2); r.apply(p); c.m[0][i] = p.x(); c.m[1][i] = p.y(); c.m[2][i] = p.z(); } });
    return c;
}
static void draw_one(Renderer& r, const Elem& e, int part = -1)
{
    switch (e.t) {
    case TRI: r.draw_triangle_1color(P(e.p[0]), P(e.p[1]), P(e.p[2]), e.color); break;
    case TRI2: r.draw_triangle_1color(P(e.p[0]), P(e.p[1]), P(e.p[2]), e.color, true); break;
    case MESH: case MESHE:
        if (part >= 0) { r.draw_triangle_1color(P(e.p[3 * part]), P(e.p[3 * part + 1]), P(e.p[3 * part + 2]), e.color); break; }
        if (e.owncolor) r.draw_mesh(*e.m, e.t == MESHE); else r.draw_mesh(*e.m, e.t == MESHE, e.color); break;
    case PIX: r.draw_pixel(P(e.p[0]), e.color); break;
    case LINE: r.draw_line(P(e.p[0]), P(e.p[1]), e.color); break;
    default: { std::vector<Point3> v; for (auto& q : e.p) v.push_back(P(q)); r.draw_polyline(v, e.color); break; }
    }
}
static double cross2(const std::array<double, 3>& a, const std::array<double, 3>& b, const std::array<double, 3>& c) { return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]); }
// signed distance to the border, positive inside, for counter-clockwise s
static double inside(const std::array<double, 3>* s, double area, double x, double y)
{
    double d = 1e300; for (int i = 0; i < 3; i++) { auto &a = s[i], &b = s[(i + 1) % 3]; double ex = b[0] - a[0], ey = b[1] - a[1], l = std::hypot(ex, ey); if (l < 1e-9) return -1e300; double v = (ex * (y - a[1]) - ey * (x - a[0])) / l; d = std::min(d, area > 0 ? v : -v); }
    return d;
}
static bool far_out(const std::array<double, 3>* s, double x, double y, double m)     // certainly outside
{
    double lx = 1e300, hx = -1e300, ly = 1e300, hy = -1e300; for (int i = 0; i < 3; i++) { lx = std::min(lx, s[i][0]); hx = std::max(hx, s[i][0]); ly = std::min(ly, s[i][1]); hy = std::max(hy, s[i][1]); }
    if (x < lx - m || x > hx + m || y < ly - m || y > hy + m) return true;
    if (huge(s, 3)) return false;
    double a = cross2(s[0], s[1], s[2]); return inside(s, a, x, y) < -m && std::fabs(a) > 1e-9;
}
static void solo(Elem& e, const Frame& f)
{
    std::vector<int> b(f.w * f.h + 2 * GUARD, GV);
    must("draw alone", [&] { Renderer r(b.data() + GUARD, f.w, f.h); r.set_background(BG); r.clear(); set_up(r, f.cam, f.li); draw_one(r, e); });
    for (int i = 0; i < GUARD; i++) if (b[i] != GV || b[b.size() - 1 - i] != GV) fail("outside", "drawing a %s wrote outside of the image", tname[e.t]);
    e.img.assign(b.begin() + GUARD, b.end() - GUARD); e.mask.assign(e.img.size(), 0);
    for (size_t i = 0; i < e.img.size(); i++) e.mask[i] = e.img[i] != BG;
    // where it must be and where it cannot be
    int n = (int)e.p.size() / 3;
    for (int y = 0; y < f.h; y++) for (int x = 0; x < f.w; x++) {
        bool has = e.mask[x + y * f.w];
        if (e.t == PIX) { double d = std::max(std::fabs(x - e.s[0][0]), std::fabs(y - e.s[0][1])); if (has && d > 1.01) fail("coverage", "a point at (%g,%g) is drawn at (%d,%d)", e.s[0][0], e.s[0][1], x, y); continue; }
        if (e.t == LINE || e.t == POLY) { if (!has) continue; bool near = false; for (size_t i = 1; i < e.s.size(); i++) { if (huge(&e.s[i - 1], 2)) { auto &a = e.s[i - 1], &b = e.s[i]; if (x > std::min(a[0], b[0]) - 2.5 && x < std::max(a[0], b[0]) + 2.5 && y > std::min(a[1], b[1]) - 2.5 && y < std::max(a[1], b[1]) + 2.5) near = true; continue; } double ax = e.s[i - 1][0], ay = e.s[i - 1][1], ex = e.s[i][0] - ax, ey = e.s[i][1] - ay, l2 = ex * ex + ey * ey, t = l2 > 0 ? ((x - ax) * ex + (y - ay) * ey) / l2 : 0; t = std::max(0., std::min(1., t)); if (std::hypot(ax + t * ex - x, ay + t * ey - y) < 2.5) near = true; } if (!near) fail("coverage", "a line is drawn at (%d,%d) away from it", x, y); continue; }
        bool may = false, need = false;
        for (int k = 0; k < n; k++) {
            if (k == e.drop) continue;
            auto* s = &e.s[3 * k]; double a = cross2(s[0], s[1], s[2]), per = 0; for (int i = 0; i < 3; i++) per += std::hypot(s[i][0] - s[(i + 1) % 3][0], s[i][1] - s[(i + 1) % 3][1]);
            bool two = e.t == TRI2;
            if (!two && a < -(per + 4) && !huge(s, 3)) continue;                      // seen from behind
            if (!far_out(s, x, y, 2.5)) may = true;
            if (!huge(s, 3) && (two ? std::fabs(a) : a) > per + 4 && inside(s, a, x, y) > 2.5) need = true;
        }
        if (e.t == MESHE && may) continue;
        if (has && !may) fail("coverage", "a %s is drawn at (%d,%d) where it is not: (%g,%g) (%g,%g) (%g,%g)", tname[e.t], x, y, e.s[0][0], e.s[0][1], e.s[1][0], e.s[1][1], e.s[2][0], e.s[2][1]);
        if (!has && need) fail("coverage", "a %s is not drawn at (%d,%d) inside of it, image of %d x %d", tname[e.t], x, y, f.w, f.h);
    }
    // points and lines are there
    auto close = [&](double X, double Y, double m) { for (int y = std::max(0, (int)(Y - m)); y <= std::min(f.h - 1, (int)(Y + m + 1)); y++) for (int x = std::max(0, (int)(X - m)); x <= std::min(f.w - 1, (int)(X + m + 1)); x++) if (e.mask[x + y * f.w] && std::fabs(x - X) <= m && std::fabs(y - Y) <= m) return true; return false; };
    auto in = [&](double X, double Y, double m) { return X >= m && Y >= m && X <= f.w - 1 - m && Y <= f.h - 1 - m; };
    if (e.t == PIX && in(e.s[0][0], e.s[0][1], 1.01)) { probe("point inside"); if (!close(e.s[0][0], e.s[0][1], 1.01)) fail("coverage", "a point at (%g,%g) is not drawn, image of %d x %d", e.s[0][0], e.s[0][1], f.w, f.h); }
    if (e.t == LINE || e.t == POLY) for (size_t i = 1; i < e.s.size(); i++) {
        double ax = e.s[i - 1][0], ay = e.s[i - 1][1], ex = e.s[i][0] - ax, ey = e.s[i][1] - ay, l = std::hypot(ex, ey); if (l < 4 || huge(&e.s[i - 1], 2)) continue;
        double tf = 0, tl = l - 2.5; auto clip = [&](double a, double d, double m) { if (std::fabs(d) < 1e-9) return; double u = -a / d * l, v = (m - a) / d * l; tf = std::max(tf, std::floor(std::min(u, v))); tl = std::min(tl, std::max(u, v)); }; clip(ax, ex, f.w); clip(ay, ey, f.h);
        for (double t = tf; t < tl; t += 1) { double X = ax + ex * t / l, Y = ay + ey * t / l; if (in(X, Y, 2.6) && !close(X, Y, 2.6)) fail("coverage", "a line from (%g,%g) to (%g,%g) is not drawn at (%g,%g)", ax, ay, e.s[i][0], e.s[i][1], X, Y); }
    }
    // colour: lit by the sum of the lights, a light adds its part of the colour times how much the face is turned to it
    std::vector<std::array<int, 3>> want;
    for (int k = 0; k < std::max(n, 1); k++) {
        if (n && k == e.drop) continue;
        double g = 0; std::array<int, 3> c; 
        if (n) { const V3 &a = e.p[3 * k], &b = e.p[3 * k + 1], &d = e.p[3 * k + 2]; double u[3], v[3], q[3], l = 0; for (int i = 0; i < 3; i++) { u[i] = b[i] - a[i]; v[i] = d[i] - a[i]; } for (int i = 0; i < 3; i++) { q[i] = u[(i + 1) % 3] * v[(i + 2) % 3] - u[(i + 2) % 3] * v[(i + 1) % 3]; l += q[i] * q[i]; } if (l > 0) g = (q[0] * f.li.d[0] + q[1] * f.li.d[1] + q[2] * f.li.d[2]) / std::sqrt(l); g = std::max(0., g); }
        for (int i = 0; i < 3; i++) { double base = (e.color >> (16 - 8 * i)) & 255, am = f.li.f * ((f.li.amb >> (16 - 8 * i)) & 255) / 256., di = f.li.diffuse ? f.li.df * ((f.li.dif >> (16 - 8 * i)) & 255) / 256. * g : 0; c[i] = n && (e.t == TRI || e.t == TRI2 || e.t == MESH || e.t == MESHE) ? (int)std::min(255., base * (am + di) + .5) : (int)base; }
        want.push_back(c);
    }
    bool face = e.t == TRI || e.t == TRI2 || e.t == MESH || e.t == MESHE;
    for (int v : e.img) if (v != BG) {
        bool ok = e.t == MESHE && v == 0; for (auto& c : want) { bool m = true; for (int i = 0; i < 3; i++) if (std::abs(((v >> (16 - 8 * i)) & 255) - c[i]) > (face ? 2 : 0)) m = false; if (m && !(v & 0xFF000000)) ok = true; }
        if (!ok) fail("colour", "a %s of colour %06x is drawn as %06x", tname[e.t], e.color, v);
    }
    if (e.t == TRI || e.t == TRI2 || e.t == MESH) { int c = BG; for (int v : e.img) if (v != BG) { if (e.t != MESH && c != BG && c != v) fail("colour", "a triangle has two colours"); c = v; } }
}
static Elem* make_elem(const Frame& f, Type t, int idx, double z0, double z1, R& r, bool general)
{
    Elem* e = new Elem; e->t = t; e->color = general ? 0x101010 + idx * 0x030504 : (draw(3) ? 0x181818 : 0xB0B0B0) + idx * 0x0503;
    int style = (int)draw(8); double W = f.w, H = f.h, cx = r.unit() * W, cy = r.unit() * H, ext = 3 + r.unit() * std::max(W, H) * 0.6;
    if (style == 5) { cx = r.below(2) ? -0.3 * W : 1.3 * W; ext = W; }
    if (style == 6) { cy = r.below(2) ? -0.3 * H : 1.3 * H; ext = H; }
    if (style == 7) { ext = 2 * W + 2 * H; if (r.below(2)) { static const double far[] = { 5, 60, 900, 2e4, 1e5, 1e8, 1e13 }; ext *= far[r.below(7)]; if (r.below(2)) { cx = r.unit() * W; cy = r.unit() * H; } if (r.below(3) == 0) (r.below(2) ? cx : cy) += (r.below(2) ? 1.01 : -1.01) * ext; probe("reaches far out of the screen"); } }
    if (style == 4 && r.below(4) == 0) { cx = -3 * W; ext = W; }
    auto pt = [&](double x, double y) { double z = z0 + (z1 - z0) * r.unit(); V3 p = unproject(f.cam, f.w, f.h, x, y, z); std::array<double, 3> s; project(f.cam, f.w, f.h, p, s); e->p.push_back(p); e->s.push_back(s); };
    auto any = [&] { double x = cx + (r.unit() - 0.5) * 2 * ext, y = cy + (r.unit() - 0.5) * 2 * ext; if (r.below(3) == 0) { x = std::floor(x); y = std::floor(y); } if (r.below(24) == 0) x = r.below(2) ? 0 : W - 1; if (r.below(24) == 0) y = r.below(2) ? 0 : H - 1; pt(x, y); };
    auto orient = [&](size_t k) { if (cross2(e->s[3 * k], e->s[3 * k + 1], e->s[3 * k + 2]) < 0 && r.below(6)) { std::swap(e->s[3 * k], e->s[3 * k + 1]); std::swap(e->p[3 * k], e->p[3 * k + 1]); } };
    switch (t) {
    case TRI: case TRI2: for (int i = 0; i < 3; i++) any(); orient(0); break;
    case MESH: case MESHE: { int n = 1 + r.below(r.below(8) ? 6 : 70); for (int k = 0; k < n; k++) { for (int i = 0; i < 3; i++) any(); orient(k); } break; }
    case PIX: any(); break;
    case LINE: any(); any(); break;
    default: { int n = r.below(6); for (int i = 0; i < n; i++) any(); break; }
    }
    e->wlo = 1 / z1; e->whi = 1 / z0;
    if (t == MESH || t == MESHE) {
        e->owncolor = r.below(2); int n = (int)e->p.size() / 3; if (n > 1 && r.below(3) == 0) e->drop = r.below(n);
        must("make mesh", [&] { e->m = new Mesh; for (int k = 0; k < n; k++) e->m->add_triangle(P(e->p[3 * k]), P(e->p[3 * k + 1]), P(e->p[3 * k + 2])); if (e->drop >= 0) e->m->unlink_triangle(e->drop); e->m->set_color(e->owncolor ? e->color : (int)(r.next() & 0xFFFFFF)); });
    }
    return e;
}
// bounds of 1/z of the plane of a triangle around a pixel
static void wrange(const std::array<double, 3>* s, double x, double y, double& lo, double& hi)
{
    double a = cross2(s[0], s[1], s[2]), mn = std::min({ s[0][2], s[1][2], s[2][2] }), mx = std::max({ s[0][2], s[1][2], s[2][2] });
    lo = mn; hi = mx;
    if (std::fabs(a) < 4 || huge(s, 3)) return;
    double gx = ((s[1][2] - s[0][2]) * (s[2][1] - s[0][1]) - (s[2][2] - s[0][2]) * (s[1][1] - s[0][1])) / a, gy = ((s[2][2] - s[0][2]) * (s[1][0] - s[0][0]) - (s[1][2] - s[0][2]) * (s[2][0] - s[0][0])) / a;
    double w = s[0][2] + gx * (x - s[0][0]) + gy * (y - s[0][1]), m = 3 * (std::fabs(gx) + std::fabs(gy));
    lo = std::max(mn, std::min(mx, w - m)); hi = std::min(mx, std::max(mn, w + m));
}
static void check_frame(Frame& f, std::vector<Elem*>& el, bool general, const char* op)
{
    guards(f, op); int* b = pix(f);
    for (int y = 0; y < f.h; y++) for (int x = 0; x < f.w; x++) {
        int i = x + y * f.w, c = b[i]; const Elem* best = nullptr; 
        if (!general) {
            for (auto e : el) if (e->mask[i] && (!best || e->wlo > best->wlo)) best = e;
            int want = best ? best->img[i] : f.bg;
            if (c != want) fail("frame", "frame %d, pixel (%d,%d) is %06x instead of %06x: %s", f.nframe, x, y, c, want, best ? "not the nearest element" : "nothing is there");
            continue;
        }
        bool any = false, ok = false; double need = -1;
        struct Cand { int color; double lo, hi; }; std::vector<Cand> cs;
        for (auto e : el) if (e->mask[i]) {
            any = true; double lo = e->s[0][2], hi = e->s[0][2];
            if (e->t != PIX) wrange(e->s.data(), x, y, lo, hi);
            cs.push_back({ e->img[i], lo, hi }); need = std::max(need, lo);
        }
        if (!any) { if (c != f.bg) fail("frame", "frame %d, pixel (%d,%d) is %06x although nothing is there", f.nframe, x, y, c); continue; }
        for (auto& k : cs) if (k.color == c && k.hi + 1e-6 / f.deep >= need * (1 - 1e-6)) ok = true;
        if (!ok) fail("frame", "frame %d, pixel (%d,%d) is %06x, which is not the nearest there", f.nframe, x, y, c);
    }
}
static void run()
{
    bool general = draw(2); int nfr = 1 + (int)draw(3); uint64_t sg = general; unsigned drawn = 0;
    std::vector<Frame> fr(nfr); std::vector<std::vector<Elem*>> el(nfr); std::vector<Elem*> all;
    for (int k = 0; k < nfr; k++) {
        Frame& f = fr[k]; f.w = 1 + (int)draw(chance(1, 6) ? 6 : 80); f.h = 1 + (int)draw(chance(1, 6) ? 6 : 60); if (chance(1, 16)) { int longer = 100 + (int)draw(900), side = 1 + (int)draw(5); f.w = draw(2) ? longer : side; f.h = f.w == longer ? side : longer; probe("very wide or high image"); }
        f.buf.assign(f.w * f.h + 2 * GUARD, GV); f.r = nullptr;
        bool oom = chance(1, 12); int64_t nth = 1 + (int64_t)draw(3);
        for (int i = 0; i < f.w * f.h; i++) pix(f)[i] = 0x0ABCDEF0;
        for (int t = 0; t < 2; t++) {
            if (oom && !t) alloc_fail(nth, 1);
            Outcome o = sut("Renderer", [&] { f.r = new Renderer(pix(f), f.w, f.h); }); if (o == OK) break;
            if (o != OOM || t || !oom) fail("unexpected-exception", "Renderer construction failed"); log("renderer %d: out of memory", k);
        }
        Lights l; l.amb = draw(4) ? 0xFFFFFF : 0xD0C0F0; l.f = 256. / 255; l.diffuse = draw(3) == 0; l.dif = draw(2) ? 0x202020 : 0x60A0E0; l.df = 0.5; R lr(draw(1u << 16)); V3 d = { lr.unit() - .5, lr.unit() - .5, lr.unit() - .5 }; double dl = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]) + 1e-12; for (int i = 0; i < 3; i++) l.d[i] = d[i] / dl; l.dir = P(l.d); f.li = l;
        must("lights", [&] { f.r->add_ambient_light(l.amb, l.f); }); if (l.diffuse) for (int t = 0; t < 2; t++) { if (oom && !t) alloc_fail(nth, 1); Outcome o = sut("Renderer::add_diffuse_light", [&] { f.r->add_diffuse_light(l.dif, l.df, l.dir); }); if (o == OK) break; if (o != OOM || t || !oom) fail("unexpected-exception", "add_diffuse_light failed"); log("light %d: out of memory", k); }
        guards(f, "construction"); log("renderer %d: %d x %d, %s", k, f.w, f.h, general ? "crossing depths" : "depth slabs");
    }
    int frames = 1 + (int)draw(3); std::vector<int> lastbg(nfr, 0);
    for (int q = 0; q < frames; q++) {
        for (int k = 0; k < nfr; k++) {
            Frame& f = fr[k]; f.nframe = q; f.cam = draw_cam(draw(4) == 0);
            f.bg = (int)draw(0xFFFFFF);
            el[k].clear();
            bool many = chance(1, 12); int n = 1 + (int)draw(many ? 40 : 12); std::vector<double> z; static const double deeps[] = { 1, 1, 1, 1, 0.05, 100, 1e4, 1e6 }; f.deep = deeps[draw(8)]; if (f.deep != 1) probe("scene very near or far"); double zz = (1.5 + draw(10) * 0.3) * f.deep; for (int i = 0; i < n; i++) { z.push_back(zz); zz *= many ? 1.06 + draw(5) * 0.01 : 1.12 + draw(5) * 0.05; }
            R r(draw(1u << 30)); for (int i = n - 1; i > 0; i--) std::swap(z[i], z[r.below(i + 1)]);
            for (int i = 0; i < n; i++) {
                Type t = general ? (draw(8) == 7 ? PIX : draw(4) == 3 ? TRI2 : TRI) : (Type)draw(f.deep > 1 ? 3 : 7); if (!general && f.deep > 1 && draw(4) == 0) t = PIX;      // lines are drawn a fixed step nearer than they are
                Elem* e = make_elem(f, t, i, general ? 1.5 * f.deep : z[i], general ? (1.5 + r.unit() * 40) * f.deep : z[i] * 1.04, r, general);
                solo(*e, f); el[k].push_back(e); all.push_back(e);
            }
            f.todo = el[k]; for (int i = n - 1; i > 0; i--) std::swap(f.todo[i], f.todo[draw(i + 1)]);
            f.done = 0;
            std::string s; for (auto e : f.todo) { s += " "; s += tname[e->t]; } log("frame %d of renderer %d:%s", q, k, s.c_str());
        }
        // set up and draw, renderers and parts of meshes interleaved
        for (int k = 0; k < nfr; k++) { Frame& f = fr[k]; bool fresh = q == 0 && draw(4) == 1; if (fresh) { f.bg = 0; probe("first frame of a new renderer"); } bool same = !fresh && q > 0 && draw(3) == 0; if (same) { f.bg = lastbg[k]; probe("cleared with the same background"); } lastbg[k] = f.bg; must("start frame", [&] { if (!fresh) { if (!same) f.r->set_background(f.bg); f.r->clear(); } f.r->set_camera(f.cam.ox, f.cam.oy, f.cam.oz, f.cam.ahead, f.cam.yaw, f.cam.pitch, f.cam.roll, f.cam.zoom); }); }
        struct Part { int k; Elem* e; int part; };
        std::vector<std::vector<Part>> open(nfr);
        for (;;) {
            std::vector<int> ready; for (int k = 0; k < nfr; k++) if (fr[k].done < fr[k].todo.size() || !open[k].empty()) ready.push_back(k);
            if (ready.empty()) break;
            int k = ready[draw(ready.size())]; Frame& f = fr[k]; 
            bool started = f.done < f.todo.size() && (open[k].empty() || draw(2));
            if (started) {
                Elem* e = f.todo[f.done++];
                if (e->t == MESH && draw(3) == 0) { for (int i = 0; i < (int)e->p.size() / 3; i++) if (i != e->drop) open[k].push_back({ k, e, i }); continue; }
                must(tname[e->t], [&] { draw_one(*f.r, *e); }); guards(f, tname[e->t]);
                if (draw(6) == 0) { must(tname[e->t], [&] { draw_one(*f.r, *e); }); probe("drawn twice"); }
                ops::mix(sg, k * 16 + e->t);
            } else { size_t j = draw(open[k].size()); Part p = open[k][j]; open[k].erase(open[k].begin() + j); must("triangle of a mesh", [&] { draw_one(*f.r, *p.e, p.part); }); guards(f, "triangle of a mesh"); probe("mesh drawn in parts"); ops::mix(sg, k * 16 + 9); }
            drawn++;
        }
        for (int k = 0; k < nfr; k++) { check_frame(fr[k], el[k], general, "drawing"); }
        for (auto e : all) { must("~Mesh", [&] { delete e->m; }); delete e; } all.clear();
    }
    if (drawn > 3) nontrivial();
    signature(sg);
    must("~Renderer", [&] { for (auto& f : fr) delete f.r; });
}
static Register reg({ "C17", run, 28000, 500000,
    "seeded search: one to three renderers over images between guard zones, several frames each; drawn scenes of triangles, two-faced triangles, meshes, points and lines inside, across and outside of the image are drawn in drawn orders, interleaved between renderers and (meshes) by triangles; every frame is compared pixel by pixel with the nearest of the elements covering it. Half of the scenes have disjoint depths (exact), half crossing depths (nearest beyond the rounding of corners to pixels). Non-trivial: more than three elements drawn",
    "Renderer, RendererCamera, RendererLight, Transform, Mesh", "allocator (fault injection)", "edges of code under test", 0 });
