#include <sstream>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include "gen.h"
#include "OBJFile.h"
#include "STLFile.h"
#include "ImageIoBmp.h"
#include "StepFile.h"
#include <clocale>
#include <cstdlib>
#include <cstring>
#include <locale>
#include <memory>
#include <sys/stat.h>
using namespace sim;
using namespace gen;

// ---------------------------------------------------------------- locales
struct Punct : std::numpunct<char> {
    char dp, ts; std::string g;
    Punct(char d, char t, const char* gr) : dp(d), ts(t), g(gr) {}
    char do_decimal_point() const override { return dp; }
    char do_thousands_sep() const override { return ts; }
    std::string do_grouping() const override { return g; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};
struct Loc { const char* name; std::locale l; bool conly; };
static std::vector<Loc>* locs;
static bool have_de;
namespace sim {
extern std::string base_scratch;
void scenario_warmup()
{
    std::string dir = base_scratch + "locale"; mkdir(dir.c_str(), 0700);
    std::string cmd = "localedef -i de_DE -f UTF-8 '" + dir + "/de_DE.UTF-8' >/dev/null 2>&1";
    if (system(cmd.c_str())) {}
    setenv("LOCPATH", dir.c_str(), 1);
    locs = new std::vector<Loc>;
    const std::locale& c = std::locale::classic();
    locs->push_back({ "classic", c, false });
    locs->push_back({ "decimal comma", std::locale(c, new Punct(',', '.', "")), false });
    locs->push_back({ "decimal comma, grouping", std::locale(c, new Punct(',', '.', "\3")), false });
    locs->push_back({ "grouping with comma", std::locale(c, new Punct('.', ',', "\3")), false });
    locs->push_back({ "grouping with space, by two", std::locale(c, new Punct(',', ' ', "\2")), false });
    locs->push_back({ "grouping of every digit", std::locale(c, new Punct('\'', '_', "\1")), false });
    try { std::locale de("de_DE.UTF-8"); locs->push_back({ "de_DE", de, false }); locs->push_back({ "de_DE (C library only)", c, true }); have_de = true; }
    catch (...) {}
    setlocale(LC_ALL, "C");
}
}
static void use(size_t i)
{
    Quiet q;
    Loc& l = (*locs)[i];
    if (l.conly) { std::locale::global(std::locale::classic()); setlocale(LC_ALL, "de_DE.UTF-8"); }
    else { std::locale::global(l.l); if (i != 6) setlocale(LC_ALL, "C"); }
}

// ---------------------------------------------------------------- script
struct Op { int kind; int file; int obj; std::vector<int> objs; std::string bytes; };
struct Pool { std::vector<std::unique_ptr<Mesh>> m; std::vector<std::unique_ptr<Image>> im; std::vector<std::unique_ptr<NurbsSurface>> s; std::vector<std::vector<Point3>> pl; };
static std::map<uint64_t, size_t> at_call, at_io;
static uint64_t calls, nios; static bool switching;
static unsigned switched;
static void apply(std::map<uint64_t, size_t>& m, uint64_t k)
{
    auto it = m.find(k);
    if (!switching || it == m.end()) return;
    use(it->second); switched++; fired(F_LOCALE);
}
static void point() { apply(at_call, calls++); }
static std::string fname(int f) { char b[32]; snprintf(b, sizeof b, "x%d.dat", f); return scratch_file(b); }
static std::string num(uint64_t v) { char b[40]; snprintf(b, sizeof b, "%016llx", (unsigned long long)v); return b; }

static void exec(const std::vector<Op>& ops, Pool& po, std::vector<std::string>& obs)
{
    for (auto& o : ops) {
        std::string path = fname(o.file), r;
        bool ok = false;
        switch (o.kind) {
        case 0: case 1: point(); must(o.kind ? "save OBJ" : "save STL", [&] { ok = o.kind ? OBJFile::save(path, *po.m[o.obj]) : STLFile::save(path, *po.m[o.obj]); }); r = "save " + std::to_string(ok); break;
        case 2: case 3: {
            if (o.kind == 2) {
                OBJWriter* w = nullptr; point(); must("OBJWriter", [&] { w = new OBJWriter; });
                point(); must("OBJWriter::open", [&] { w->open(path); ok = w->is_open(); });
                for (int k : o.objs) { point(); must("OBJWriter::write", [&] { if (k < (int)po.m.size()) w->write(*po.m[k]); else w->write(po.pl[(k - po.m.size()) % po.pl.size()]); }); }
                bool c = true; point(); if (o.obj & 1) must("OBJWriter::close", [&] { c = w->close(); });
                point(); must("~OBJWriter", [&] { delete w; });
                r = "objwriter " + std::to_string(ok) + std::to_string(c);
            } else {
                StepWriter* w = nullptr; point(); must("StepWriter", [&] { w = new StepWriter; });
                point(); must("StepWriter::open", [&] { w->open(path); ok = w->is_open(); });
                for (int k : o.objs) { point(); must("StepWriter::write", [&] { w->write(*po.s[k % po.s.size()]); }); }
                bool c = true; point(); if (o.obj & 1) must("StepWriter::close", [&] { c = w->close(); });
                point(); must("~StepWriter", [&] { delete w; });
                r = "stepwriter " + std::to_string(ok) + std::to_string(c);
            }
            break; }
        case 4: point(); must("save BMP", [&] { ok = ImageIoBmp::write(path, po.im[o.obj].get()); }); r = "save " + std::to_string(ok); break;
        case 5: case 6: case 7:
            if (!o.bytes.empty()) put_file(path, o.bytes);
            point();
            must("load", [&] { ok = o.kind == 5 ? STLFile::load(path, *po.m[o.obj]) : o.kind == 6 ? OBJFile::load(path, *po.m[o.obj]) : ImageIoBmp::read(path, po.im[o.obj].get()); });
            r = "load " + std::to_string(ok);
            if (o.kind == 7) { ImageM i = read_image(*po.im[o.obj]); r += " " + num(hash_bytes(i.px.data(), i.px.size(), i.w * 31 + i.h * 7 + i.p)); }
            else r += " " + num(hash_mesh(read_mesh(*po.m[o.obj])));
            break;
        }
        std::string b; if (get_file(path, b)) r += " file of " + std::to_string(b.size()) + " bytes " + num(hash_bytes(b.data(), b.size()));
        obs.push_back(r);
    }
}
static void fill(Pool& po, const std::vector<MeshM>& mm, const std::vector<ImageM>& ii)
{
    for (size_t k = 0; k < mm.size(); k++) must("make mesh", [&] { Mesh& m = *po.m[k]; m.clear(); m.set_color(mm[k].color); for (auto& v : mm[k].v) m.add_vertex(P(v)); for (auto& t : mm[k].t) m.add_triangle(t[0], t[1], t[2]); });
    for (size_t k = 0; k < ii.size(); k++) must("make image", [&] { po.im[k]->resize(ii[k].w, ii[k].h, ii[k].p); if (ii[k].px.size()) memcpy(po.im[k]->data(), ii[k].px.data(), ii[k].px.size()); });
}
static std::string obj_text(const MeshM& m, Rng& r)
{
    std::string s = "# text\n"; char b[200];
    for (auto& v : m.v) { const char* f[] = { "v %.17g %.17g %.17g\n", "v %g %g %g\n", "v  %.3f %.1f %.6f \n", "v %e %e %e\n" }; snprintf(b, sizeof b, f[r.below(4)], v[0], v[1], v[2]); if (strlen(b) < 190) s += b; else { snprintf(b, sizeof b, "v %g %g %g\n", v[0], v[1], v[2]); s += b; } }
    for (auto& t : m.t) { const char* f[] = { "f %d %d %d\n", "f %d// %d// %d//\n", "f %d/1 %d/1 %d/1\n", "f %d/1/1 %d/1/1 %d/1/1\n" }; snprintf(b, sizeof b, f[r.below(3) ? 0 : r.below(4)], t[0] + 1, t[1] + 1, t[2] + 1); s += b; }
    return s;
}
static void run()
{
    switching = false; use(0);
    Pool po; std::vector<MeshM> mm; std::vector<ImageM> ii;
    for (int k = 0; k < 3; k++) { Mesh* m = nullptr; must("Mesh", [&] { m = new Mesh; }); po.m.emplace_back(m); MeshOpt o; o.max_tri = k == 2 ? 1400 : 20; o.big = chance(1, 4); gen_mesh(*m, o, k ? nullptr : "mesh 0"); mm.push_back(read_mesh(*m)); }
    for (int k = 0; k < 2; k++) { Image* m = nullptr; must("Image", [&] { m = new Image; }); po.im.emplace_back(m); gen_image(*m, 0, chance(1, 4)); ii.push_back(read_image(*m)); }
    for (int k = 0; k < 2; k++) { NurbsSurface* m = nullptr; must("NurbsSurface", [&] { m = new NurbsSurface; }); po.s.emplace_back(m); gen_surf(*m, 3, chance(1, 6) ? 18 : 5); }
    for (int k = 0; k < 2; k++) { Rng r(draw(1u << 20)); std::vector<Point3> v; int n = (int)r.below(6) + 1, c = (int)r.below(6); for (int i = 0; i < n; i++) { double a = gen_coord(r, c, 1e6), b = gen_coord(r, c, 1e6); v.push_back(Point3(a, b, gen_coord(r, c, 1e6))); } po.pl.push_back(v); }
    std::vector<Op> ops; int nops = 1 + (int)draw(6); uint64_t sg = nops;
    for (int k = 0; k < nops; k++) {
        Op o; o.kind = (int)draw(8); o.file = k; o.obj = (int)draw(2); Rng r(draw(1u << 20));
        if (o.kind < 2 || o.kind == 5 || o.kind == 6) o.obj = (int)draw(3);
        if (o.kind == 2) { int n = (int)draw(5); for (int i = 0; i < n; i++) o.objs.push_back((int)draw(5)); }
        if (o.kind == 3) { int n = (int)draw(4); for (int i = 0; i < n; i++) o.objs.push_back((int)draw(2)); }
        if (o.kind >= 5) {
            int prev = -1, want = o.kind == 5 ? 0 : o.kind == 6 ? 1 : 4;
            for (auto& p : ops) if (p.kind == want || (want == 1 && p.kind == 2)) prev = p.file;
            if (prev >= 0 && draw(2)) { o.file = prev; }
            else if (o.kind == 5) { MeshM s; s = mm[o.obj]; for (auto& v : s.v) for (auto& c : v) if (!(c > -1e30 && c < 1e30)) c = 1; o.bytes = stl_encode(stl_of(s), 0, 1); }
            else if (o.kind == 6) o.bytes = obj_text(mm[r.below(3)], r);
            else o.bytes = bmp_encode(ii[o.obj], 0, 1);
        }
        ops.push_back(o); sg = sg * 31 + o.kind;
        static const char* const kn[] = { "save STL", "save OBJ", "OBJ writer", "STEP writer", "save BMP", "load STL", "load OBJ", "load BMP" };
        log("op %d: %s file %d object %d, %zu parts, %zu bytes given", k, kn[o.kind], o.file, o.obj, o.objs.size(), o.bytes.size());
    }
    std::vector<std::string> a, b; uint64_t ncalls = 40, nio = 200;
    disk.on_io = [] { apply(at_io, nios++); };
    // reference history: the classic locale throughout
    auto classic = [&] {
        calls = nios = 0; switching = false; disk.set(IoPlan()); exec(ops, po, a); ncalls = calls; nio = nios;
    };
    auto say = [&] { for (size_t k = 0; k < a.size(); k++) log("classic: %s", a[k].c_str()); };
    // the same in a process of its own, that never sees another locale
    auto apart = [&] {
        int pp[2]; if (pipe(pp)) return false;
        pid_t pid = fork(); if (pid < 0) { close(pp[0]); close(pp[1]); return false; }
        if (!pid) { close(pp[0]); if (dup2(open("/dev/null", O_WRONLY), 2) < 0) _exit(3); classic(); std::string s = std::to_string(ncalls) + "\n" + std::to_string(nio) + "\n"; for (auto& x : a) s += x + "\n"; for (size_t p = 0; p < s.size();) { ssize_t n = write(pp[1], s.data() + p, s.size() - p); if (n <= 0) _exit(3); p += n; } _exit(0); }
        close(pp[1]); std::string s; char buf[4096]; for (ssize_t n; (n = read(pp[0], buf, sizeof buf)) > 0;) s.append(buf, n);
        close(pp[0]); int st = 0; waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) return false;
        std::istringstream in(s); std::string l; in >> ncalls >> nio; std::getline(in, l); while (std::getline(in, l)) a.push_back(l);
        for (int k = 0; k < nops; k++) del_file(fname(k));
        return true;
    };
    auto again = [&] { for (int k = 0; k < nops; k++) del_file(fname(k)); fill(po, mm, ii); };
    // same history with locale switches
    auto other = [&] {
        at_call.clear(); at_io.clear();
        size_t start = draw(locs->size());
        int nsw = (int)draw(5);
        for (int k = 0; k < nsw; k++) {
            size_t l = draw(locs->size());
            if (draw(2)) { uint64_t p = draw(ncalls); at_call[p] = l; log("switch to %s before call %llu", (*locs)[l].name, (unsigned long long)p); }
            else { uint64_t p = draw(nio); at_io[p] = l; log("switch to %s in disk operation %llu", (*locs)[l].name, (unsigned long long)p); }
            sg = sg * 131 + l;
        }
        log("starts in locale %s", (*locs)[start].name);
        sg = sg * 17 + start;
        calls = nios = 0; switching = true; switched = 0; disk.set(IoPlan());
        if (start) { use(start); fired(F_LOCALE); switched++; }
        exec(ops, po, b);
        use(0); switching = false;
    };
    if (draw(3) == 2) { log("the history with switches comes first in its process"); probe("other locale first"); if (!apart()) { classic(); say(); again(); } else say(); other(); }
    else { classic(); say(); again(); other(); }
    disk.on_io = nullptr;
    for (size_t k = 0; k < a.size(); k++) if (a[k] != b[k]) fail("locale-dependent", "operation %zu of the history gave '%s' in the classic locale but '%s' with the locale switched", k, a[k].c_str(), b[k].c_str());
    if (switched) nontrivial();
    if (have_de) probe("real de_DE locale available");
    signature(sg);
}
static Register reg({ "C08", run, 16000, 600000,
    "seeded search: a drawn history of saves, multi-object OBJ and STEP documents and loads is executed in the classic locale and again with the global C++ and C locale switched at drawn points, between calls and inside calls at disk operations; return values, file bytes and loaded objects must be the same. Locales: decimal comma, several digit groupings, de_DE, C library only. Non-trivial: at least one switch took place",
    "STLFile, OBJFile, OBJWriter, StepWriter, ImageIoBmp, Mesh, Image, NurbsSurface, libstdc++ streams and locales", "disk (system calls of files), locale switches", "edges of code under test", 0 });
