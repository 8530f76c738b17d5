// Well-formed files made by the harness, as other programs would write them.
#pragma once
#include "fileobj.h"
#include <cstring>

struct WellFormed {
    Kind kind; std::string bytes;
    gen::StlM stl; gen::ObjM obj; gen::ImageM img;
    bool trailing = false;               // bytes after the last record: may be refused
};

inline std::string fmt_num(double d, int style)
{
    char b[64];
    switch (style) {
    default: snprintf(b, sizeof b, "%.17g", d); break;
    case 1: snprintf(b, sizeof b, "%.6f", d); break;
    case 2: snprintf(b, sizeof b, "%.9e", d); break;
    case 3: snprintf(b, sizeof b, "%d", (int)d); break;
    }
    return b;
}

inline WellFormed gen_wellformed(Kind k, bool big)
{
    WellFormed w; w.kind = k;
    int n = (int)sim::draw(12);
    if (big && sim::chance(1, 8)) n = (int)sim::draw(400);
    bool huge = big && sim::chance(1, 300); if (huge) { n = 65530 + (int)sim::draw(20); sim::probe("file of more than 65535 records"); }
    int variant = (int)sim::draw(4), extra = (int)sim::draw(8), cls = (int)sim::draw(7);
    sim::Rng r(sim::draw(1u << 30));
    if (k == STL) {
        w.stl.t.resize(n);
        for (auto& t : w.stl.t) for (auto& v : t) for (auto& c : v) { float f = (float)gen::gen_coord(r, cls, 1e9); memcpy(&c, &f, 4); }
        w.bytes = gen::stl_encode(w.stl, variant % 3, r.next());
        if (extra == 7) { w.bytes += "some trailing bytes that are not a facet"; w.trailing = true; }
    } else if (k == OBJ) {
        int style = variant; bool crlf = extra & 1, noise = extra & 2, color = extra & 4, tabs = sim::chance(1, 8), longl = sim::chance(1, 8), poly = sim::chance(1, 5), slashes = sim::chance(1, 5), relative = sim::chance(1, 10);
        if (poly) sim::probe("OBJ with polygons"); if (slashes) sim::probe("OBJ with texture or normal indices"); if (relative) sim::probe("OBJ with relative indices");
        int longest = longl ? 1 << (int)sim::draw(17) : 0;
        std::string nl = crlf ? "\r\n" : "\n";
        int nv = 0, nf = 0, target_f = n;
        auto line = [&](const std::string& s) { size_t b = w.bytes.size(); w.bytes += s; size_t e = w.bytes.size(); w.bytes += nl; return std::make_pair(b, e); };
        auto vertex = [&] {
            gen::ObjRec rec; rec.kind = 'v'; std::string s = "v";
            for (int c = 0; c < 3; c++) { std::string t = fmt_num(gen::gen_coord(r, cls, cls == 6 && style != 3 ? 1e60 : 1e6), style); rec.x.push_back(atof(t.c_str())); s += (noise && r.below(9) == 0 ? "  " : tabs && r.below(2) ? "\t" : " ") + t; if (longl && r.below(40) == 0) s += std::string(r.below(longest), ' '); }
            if (color) s += " 0.5 0.25 1";
            if (noise && r.below(6) == 0) s += " ";
            if (tabs && r.below(6) == 0) s = (r.below(2) ? " " : "\t") + s;
            auto p = line(s); rec.begin = p.first; rec.end = p.second; w.obj.r.push_back(rec); nv++;
        };
        auto face = [&] {
            if (!nv) return;
            gen::ObjRec rec; rec.kind = 'f'; std::string s = "f";
            int corners = poly && r.below(3) ? 3 + (int)r.below(r.below(8) ? 3 : 40) : 3, st = slashes ? 1 + (int)r.below(3) : 0;
            for (int c = 0; c < corners; c++) {
                long i = 1 + (long)r.below(nv); rec.i.push_back(i); std::string a = std::to_string(relative && r.below(2) ? i - nv - 1 : i), b = std::to_string(1 + r.below(200));
                s += (tabs && r.below(2) ? "\t" : noise && r.below(9) == 0 ? "  " : " ") + a; if (st) s += st == 1 ? "/" + b : st == 2 ? "//" + b : "/" + b + "/" + a;
            }
            if (noise && r.below(6) == 0) s += " ";
            auto p = line(s); rec.begin = p.first; rec.end = p.second; w.obj.r.push_back(rec); nf++;
        };
        if (noise) { line("# made elsewhere: v 1 2 3"); line("mtllib a.mtl"); line("o object"); }
        if (longl) { line("# " + std::string((size_t)longest, 'v')); line("g " + std::string(r.below(longest) + 1, ' ') + "v 1 2 3"); sim::probe("line of drawn length"); }
        bool mixed = r.below(2);
        int nvt = n ? 3 + (int)r.below(n + 3) : (int)r.below(4);
        if (!mixed) { for (int i = 0; i < nvt; i++) { vertex(); if (noise && r.below(5) == 0) { static const char* const j[] = { "", "# f 1 2 3", "vn 0 0 1", "vt 0.5 0.5", "g part", "   ", "#" }; line(j[r.below(7)]); } } if (noise) line(""); while (nf < target_f && nv) face(); }
        else while (nf < target_f) { for (int i = 0; i < 3; i++) vertex(); face(); if (noise && r.below(4) == 0) { static const char* const j[] = { "s off", "usemtl red", "", "l 1 2", "# c" }; line(j[r.below(5)]); } }
        if (r.below(4) == 0 && !w.bytes.empty()) w.bytes.resize(w.bytes.size() - nl.size());   // no newline at the end
    } else {
        static const int pl[] = { 3, 1, 4 };
        w.img.p = pl[extra % 3]; w.img.w = 1 + (int)r.below(n % 1000 + 6); w.img.h = 1 + (int)r.below(12);
        if (huge) { w.img.w = n; w.img.h = 1 + (int)r.below(2); if (extra & 4) std::swap(w.img.w, w.img.h); }
        if (sim::chance(1, 3)) variant |= (int)sim::draw(4) * 4;
        if (sim::chance(1, 12)) { variant |= 16; w.trailing = true; sim::probe("BMP with its rows from the top (may be refused)"); }
        w.img.px.resize((size_t)w.img.w * w.img.h * w.img.p);
        for (auto& c : w.img.px) c = (char)r.next();
        if (w.img.p == 1 && sim::chance(1, 3)) {    // a palette of its own
            std::vector<std::array<uint8_t, 3>> lut(r.below(2) ? 256 : 1 + r.below(256)); bool grey = !sim::chance(1, 4);
            for (auto& c : lut) { uint8_t v = (uint8_t)r.next(); c = { v, v, v }; if (!grey) c = { v, (uint8_t)r.next(), (uint8_t)r.next() }; }
            for (auto& c : w.img.px) c = (char)((uint8_t)c % lut.size());
            w.bytes = gen::bmp_encode(w.img, variant, r.next(), &lut);
            grey = true; for (auto& c : lut) if (c[0] != c[1] || c[0] != c[2]) grey = false;
            if (grey) for (auto& c : w.img.px) c = (char)lut[(uint8_t)c][0];
            else {                                  // may be refused; otherwise in colour
                gen::ImageM m; m.w = w.img.w; m.h = w.img.h; m.p = 3; for (auto& c : w.img.px) for (int k = 2; k >= 0; k--) m.px.push_back((char)lut[(uint8_t)c][k]);
                w.img = m; w.trailing = true;
            }
            sim::probe(grey ? "BMP with its own grey palette" : "BMP with a colour palette (may be refused)");
        } else w.bytes = gen::bmp_encode(w.img, variant, r.next());
    }
    sim::log("%s file: %zu bytes, %d records, variant %d/%d, #%016llx", kind_name[k], w.bytes.size(), n, variant, extra, (unsigned long long)sim::hash_bytes(w.bytes.data(), w.bytes.size()));
    return w;
}
// the object holds exactly the file
inline bool holds(const FileObj& o, const WellFormed& w, std::string& why)
{
    if (o.kind == STL) return gen::mesh_is_stl(o.mm, w.stl, why);
    if (o.kind == OBJ) return gen::mesh_is_obj_exact(o.mm, w.obj, why);
    return gen::same_image(o.imm, w.img, false, why);
}
// the object holds the records of the first n bytes, give or take the record cut at n
inline bool holds_prefix(const gen::MeshM& m, const gen::ObjM& all, size_t n, std::string& why)
{
    gen::ObjM a, b; size_t v = 0, f = 0, corners = 0; char cut = 0;
    for (auto& r : all.r) { if (r.end <= n) { a.r.push_back(r); if (r.kind == 'v') v++; else f += r.i.size() - 2; } else { if (r.begin < n) cut = r.kind; corners = r.i.size(); break; } }
    if (gen::mesh_is_obj_exact(m, a, why)) return true;
    if (!cut) return false;
    gen::MeshM c = m;                    // one more record than the complete ones: the cut one
    if (cut == 'v' && c.v.size() == v + 1) { c.v.pop_back(); return gen::mesh_is_obj_exact(c, a, why); }
    if (cut == 'f' && c.t.size() > f && c.t.size() <= f + corners - 2) { c.t.resize(f); return gen::mesh_is_obj_exact(c, a, why); }
    return false;
}
