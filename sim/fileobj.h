// A saveable object (STL mesh, OBJ mesh, BMP image) with its model, used by the file scenarios.
#pragma once
#include "gen.h"
#include "STLFile.h"
#include "OBJFile.h"
#include "ImageIoBmp.h"

enum Kind { STL, OBJ, BMP, NKIND };
static const char* const kind_name[] = { "STL", "OBJ", "BMP" };
static const char* const kind_file[] = { "f.stl", "f.obj", "f.bmp" };

struct FileObj {
    Kind kind; Mesh m; Image im; gen::MeshM mm; gen::ImageM imm;
    explicit FileObj(Kind k) : kind(k) {}
    void refresh() { if (kind == BMP) imm = gen::read_image(im); else mm = gen::read_mesh(m); }
    // draws a new object
    void make(bool big, int planes = 0)
    {
        if (kind == BMP) gen::gen_image(im, planes, big);
        else {
            gen::MeshOpt o; o.big = big; o.wide = true; o.maxabs = kind == STL ? 1e30 : sim::draw(2) ? 1e6 : 1e60;
            if (sim::draw(2) == 0) sim::must("clear mesh", [&] { m.clear(); m.set_color(-1); });
            else { sim::must("assign mesh", [&] { m = Mesh(); }); }
            gen::gen_mesh(m, o, nullptr);
        }
        refresh();
        sim::log("object: %s", describe().c_str());
    }
    std::string describe() const
    {
        if (kind != BMP) return std::string(kind_name[kind]) + " " + gen::describe(mm);
        char b[80]; snprintf(b, sizeof b, "BMP %d x %d x %d #%016llx", imm.w, imm.h, imm.p, (unsigned long long)sim::hash_bytes(imm.px.data(), imm.px.size()));
        return b;
    }
    bool save(const std::string& path, sim::Outcome* oc = nullptr)
    {
        bool r = false;
        auto f = [&] { r = kind == STL ? STLFile::save(path, m) : kind == OBJ ? OBJFile::save(path, m) : ImageIoBmp::write(path, &im); };
        std::string op = std::string("save ") + kind_name[kind];
        if (oc) *oc = sim::sut(op.c_str(), f); else sim::must(op.c_str(), f);
        return r;
    }
    bool load(const std::string& path, sim::Outcome* oc = nullptr)
    {
        bool r = false;
        auto f = [&] { r = kind == STL ? STLFile::load(path, m) : kind == OBJ ? OBJFile::load(path, m) : ImageIoBmp::read(path, &im); };
        std::string op = std::string("load ") + kind_name[kind];
        if (oc) *oc = sim::sut(op.c_str(), f); else sim::must(op.c_str(), f);
        return r;
    }
    // do these bytes decode to exactly this object?
    bool file_is(const std::string& b, std::string& why) const
    {
        if (kind == STL) {
            gen::StlM s; if (!gen::stl_decode(b, s, true, why)) return false;
            gen::StlM e = gen::stl_of(mm);
            if (s.t.size() != e.t.size()) { why = std::to_string(s.t.size()) + " facets instead of " + std::to_string(e.t.size()); return false; }
            for (size_t i = 0; i < s.t.size(); i++) if (s.t[i] != e.t[i]) { why = "facet " + std::to_string(i) + " differs"; return false; }
            return true;
        }
        if (kind == OBJ) { gen::ObjM o; return gen::obj_parse(b, o, why) && gen::obj_is_mesh(o, mm, why); }
        gen::ImageM d; return gen::bmp_decode(b, d, true, why) && gen::same_image(d, imm, true, why);
    }
};
// an object in use: not new
inline void make_dirty(FileObj& o) { if (sim::draw(3)) { sim::log("target used before:"); o.make(false); } }
