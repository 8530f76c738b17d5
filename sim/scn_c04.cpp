#include "wellformed.h"
using namespace sim;
using namespace gen;

static std::string damage(std::string b, Kind k)
{
    int n = 1 + (int)draw(3);
    for (int i = 0; i < n; i++) {
        size_t s = b.size();
        int what = (int)draw(11);
        auto off = [&]() -> size_t { return s ? (draw(2) ? draw(s) : draw(s < 100 ? s : 100)) : 0; };
        if (!s && what != 5 && what != 9) { b = std::string(draw(200), (char)draw(256)); continue; }
        switch (what) {
        case 0: { size_t o = off(); int bit = (int)draw(8); b[o] ^= 1 << bit; log("  flip bit %d of byte %zu", bit, o); break; }
        case 1: { size_t o = draw(s + 1); b.resize(o); log("  cut to %zu bytes", o); break; }
        case 2: { size_t o = off(), l = 1 + draw(600); for (size_t q = o; q < o + l && q < s; q++) b[q] = 0; log("  zero %zu bytes at %zu", l, o); break; }
        case 3: { size_t o = off(), f = off(), l = 1 + draw(512); std::string c = b.substr(f, l); for (size_t q = 0; q < c.size() && o + q < s; q++) b[o + q] = c[q]; log("  block of %zu from %zu written at %zu", l, f, o); break; }
        case 4: { size_t o = off(), l = 1 + draw(64); Rng r(draw(1u << 30)); for (size_t q = o; q < o + l && q < s; q++) b[q] = (char)r.next(); log("  %zu random bytes at %zu", l, o); break; }
        case 5: { size_t l = draw(2000); Rng r(draw(1u << 30)); int text = (int)draw(2); b.clear(); static const char al[] = "vf l\n\n 0123456789.-+e#/\r\t,"; for (size_t q = 0; q < l; q++) b += text ? al[r.below(sizeof al - 1)] : (char)r.next(); log("  foreign content, %zu bytes", l); break; }
        case 6: { // header fields with extreme values
            static const uint32_t ex[] = { 0, 1, 2, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffeu, 0x10000, 0x7fff, 0x8000, 0xffff, 0x40000000, 0x20000000, 0x55555555, 46341, 65536, 0x15555556, 100000000 };
            static const int bo[] = { 18, 22, 28, 10, 14, 2, 30, 34, 26, 46 };
            size_t o = k == STL ? 80 : bo[draw(10)]; uint32_t v = ex[draw(18)];
            if (draw(3) == 0) v = (uint32_t)draw(0xffffffff);
            if (k == BMP && o == 28) { static const uint32_t bpp[] = { 8, 24, 32, 0, 1, 4, 16, 64, 0xffff, 0x8008 }; v = bpp[draw(10)]; for (int q = 0; q < 2 && o + q < s; q++) b[o + q] = (char)(v >> 8 * q); }
            else for (int q = 0; q < 4 && o + q < s; q++) b[o + q] = (char)(v >> 8 * q);
            log("  field at %zu = %u", o, v); break; }
        case 7: { // a number in a text replaced
            static const char* const nums[] = { "0", "-1", "999999999999999999999", "1e999", "nan", "inf", "2147483647", "2147483648", "-2147483648", "1/2/3", "x", "", "1e-400", "0x10", "1,5", "4294967297", "--1", "." };
            size_t o = off(); while (o < s && !isdigit((unsigned char)b[o])) o++; size_t e = o; while (e < s && b[e] > ' ') e++;
            if (e > o) { const char* v = nums[draw(18)]; b.replace(o, e - o, v); log("  number at %zu = '%s'", o, v); } break; }
        case 8: { // a line lost, doubled or broken
            size_t o = b.find('\n', off()); if (o == std::string::npos) break; size_t e = b.find('\n', o + 1); if (e == std::string::npos) e = s;
            std::string l = b.substr(o, e - o); int q = (int)draw(3); if (q == 0) b.erase(o, e - o); else if (q == 1) b.insert(o, l); else { b.erase(o, 1); }
            log("  line at %zu %s", o, q == 0 ? "lost" : q == 1 ? "doubled" : "joined"); break; }
        case 9: { size_t l = 1 + draw(3000); Rng r(draw(1u << 20)); std::string j; for (size_t q = 0; q < l; q++) j += (char)r.next(); b += j; log("  %zu bytes appended", l); break; }
        default: { size_t o = off(), l = 1 + draw(90); b.erase(o, l); log("  %zu bytes lost at %zu", l, o); break; }
        }
        fired(F_DAMAGE);
    }
    return b;
}
static size_t v_lines(const std::string& b)   // lines that could be a vertex record
{
    size_t n = 0, p = 0;
    while (p < b.size()) { size_t e = b.find('\n', p); if (e == std::string::npos) e = b.size(); size_t q = p; while (q < e && isspace((unsigned char)b[q])) q++; if (q < e && b[q] == 'v') n++; p = e + 1; }
    return n;
}
static void run()
{
    Kind fk = (Kind)draw(3);
    WellFormed w = gen_wellformed(fk, true);
    std::string b = w.bytes;
    if (draw(8) == 7) { WellFormed w2 = gen_wellformed((Kind)draw(3), false); size_t c = draw(b.size() + 1), d = draw(w2.bytes.size() + 1); b = b.substr(0, c) + w2.bytes.substr(d); log("  spliced at %zu with the rest from %zu", c, d); fired(F_DAMAGE); }
    else b = damage(b, fk);
    Kind k = chance(1, 10) ? (Kind)draw(3) : fk;      // also a loader of another format
    std::string path = scratch_file("damaged.bin"), why;
    put_file(path, b);
    FileObj o(k);
    make_dirty(o);
    IoPlan p = draw(4) == 3 ? gen_io(IO_BENIGN | IO_RFAULT, (int64_t)b.size()) : IoPlan();
    uint64_t live0 = alloc_stats().live_bytes;
    step_budget(1000000 + 3000 * (uint64_t)b.size());
    alloc_limit(live0 + 64 * (uint64_t)b.size() + (4u << 20));
    disk.set(p);
    bool ok = o.load(path);
    bool hard = disk.hard_fault;
    disk.set(IoPlan());
    alloc_limit(0); step_budget(0);
    o.refresh();       // checks that the object is valid
    log("load %s of %zu bytes with%s -> %d in %llu steps: %s", kind_name[k], b.size(), describe(p).c_str(), ok, (unsigned long long)steps_last(), o.describe().c_str());
    if (ok && k == STL) {
        StlM s; if (!stl_decode(b, s, false, why)) fail("damaged-accepted", "STL accepted: %s", why.c_str());
        if (!mesh_is_stl(o.mm, s, why)) fail("damaged-accepted", "STL accepted but %s", why.c_str());
        probe("damaged STL accepted as what it contains");
    } else if (ok && k == BMP) {
        ImageM d; if (!bmp_decode(b, d, false, why)) fail("damaged-accepted", "BMP accepted: %s", why.c_str());
        if (o.imm.w != d.w || o.imm.h != d.h || o.imm.p != d.p) fail("damaged-accepted", "BMP accepted as %d x %d x %d but the file says %d x %d x %d", o.imm.w, o.imm.h, o.imm.p, d.w, d.h, d.p);
        if (!same_image(o.imm, d, false, why)) fail("damaged-accepted", "BMP accepted but %s", why.c_str());
        probe("damaged BMP accepted as what it contains");
    } else if (ok) {
        if (o.mm.v.size() > v_lines(b)) fail("damaged-accepted", "OBJ: %zu vertices from %zu vertex lines", o.mm.v.size(), v_lines(b));
        ObjM rd; if (!hard && obj_read(b, rd)) { if (!mesh_is_obj_exact(o.mm, rd, why)) fail("damaged-accepted", "OBJ accepted but %s", why.c_str()); probe("damaged OBJ accepted as what it contains"); }
        probe("damaged OBJ accepted");
    } else probe("refused");
    (void)hard;
    // the object is still good for use
    if (k != BMP) {
        switch (draw(4)) {
        case 0: must("clear", [&] { o.m.clear(); }); break;
        case 1: { Mesh c; must("append", [&] { c = o.m; c.add_mesh(o.m); }); if (!same_mesh(read_mesh(o.m), o.mm)) fail("unusable-object", "mesh changed by being copied"); break; }
        case 2: { bool s = false; must("save again", [&] { s = STLFile::save(scratch_file("again.stl"), o.m); }); break; }
        default: must("add", [&] { o.m.add_triangle(Point3(0, 0, 0), Point3(1, 0, 0), Point3(0, 1, 0)); }); if (read_mesh(o.m).t.size() != o.mm.t.size() + 1) fail("unusable-object", "mesh does not take a triangle after a load");
        }
    } else if (o.imm.px.size()) { bool s = false; must("save again", [&] { s = ImageIoBmp::write(scratch_file("again.bmp"), &o.im); }); if (!s) fail("unusable-object", "image cannot be saved after a load"); }
    nontrivial();
    signature(hash_bytes(b.data(), b.size()));
}
static Register reg({ "C04", run, 40000, 2500000,
    "seeded search: well-formed STL, OBJ and BMP files damaged in storage (bit flips, cuts, zeroed, misplaced, lost, repeated or random blocks, extreme header fields, replaced numbers, lost or joined lines, splices, foreign content), loaded into new or used objects, partly with read faults; steps bounded by 1e6 + 3000 per byte, memory by 4 MB + 64 per byte; accepted binary data compared with an independent decoder. Every run is non-trivial; distinct = distinct file contents",
    "STLFile::load, OBJFile::load, ImageIoBmp::read, Mesh, Image, libstdc++ streams", "disk (system calls of files)", "edges of code under test", 0 });
