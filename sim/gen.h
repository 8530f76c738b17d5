// Workload generators, reference models and independent file codecs.
#pragma once
#include "core.h"
#include <array>
#include <string>
#include <vector>

#include "Mesh.h"
#include "Image.h"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "NurbsSolid.h"
#include "SmoothMesh.h"

namespace gen {
typedef std::array<double, 3> V3;
typedef std::array<int, 3> T3;
typedef std::array<uint32_t, 3> F3;      // float bits

// ---------------------------------------------------------------- meshes
struct MeshM { std::vector<V3> v; std::vector<T3> t; int color = -1; };
MeshM read_mesh(const Mesh& m);                        // through the public getters, live triangles only
std::string describe(const MeshM& m);
uint64_t hash_mesh(const MeshM& m);
bool same_mesh(const MeshM& a, const MeshM& b);        // bitwise, colour excluded
struct MeshOpt { int max_tri = 40; bool big = true; bool colors = true; double maxabs = 1e6; bool simple_coords = false; bool wide = false; /* any magnitude */ };
void gen_mesh(Mesh& m, const MeshOpt& o, const char* name = "mesh");   // draws and builds through the API (fault free)
double gen_coord(sim::Rng& r, int cls, double maxabs);
Point3 P(const V3& v);
V3 V(const Point3& p);

// ---------------------------------------------------------------- images
struct ImageM { int w = 0, h = 0, p = 0; std::string px; };
ImageM read_image(const Image& im);
void gen_image(Image& im, int planes /* 0: drawn from 1,3,4 */, bool big);

// ---------------------------------------------------------------- nurbs
struct CurveM { int deg; std::vector<double> k, w; std::vector<V3> p; };
struct SurfM { int du, dv, nu, nv; bool cu, cv; std::vector<double> ku, kv, w; std::vector<V3> p; };
CurveM read_curve(const NurbsCurve& c);
SurfM read_surf(const NurbsSurface& s);
bool same_curve(const CurveM& a, const CurveM& b);
bool same_surf(const SurfM& a, const SurfM& b);
uint64_t hash_curve(const CurveM& c);
uint64_t hash_surf(const SurfM& s);
std::vector<double> gen_knots(int deg, int n, int kind, sim::Rng& r);   // clamped, kind 0 uniform, 1 random, 2 with double interior knots
void gen_curve(NurbsCurve& c, int maxdeg = 3, int maxpts = 9);
void gen_surf(NurbsSurface& s, int maxdeg = 3, int maxpts = 5);

// ---------------------------------------------------------------- files
struct StlM { std::vector<std::array<F3, 3>> t; };
bool stl_decode(const std::string& b, StlM& m, bool exact_size, std::string& why);
std::string stl_encode(const StlM& m, int variant, uint64_t seed);
StlM stl_of(const MeshM& m);                           // what a file of m must hold
bool mesh_is_stl(const MeshM& m, const StlM& s, std::string& why);

struct ObjRec { char kind; std::vector<double> x; std::vector<long> i; size_t begin, end; };  // v, f, l; byte range of the line
struct ObjM { std::vector<ObjRec> r; };
bool obj_parse(const std::string& b, ObjM& m, std::string& why);     // strict: what a writer may produce
bool close6(double file, double real);                 // equal to six significant digits
bool obj_is_mesh(const ObjM& o, const MeshM& m, std::string& why);
bool mesh_is_obj_exact(const MeshM& got, const ObjM& o, std::string& why);

bool bmp_decode(const std::string& b, ImageM& m, bool strict, std::string& why);
std::string bmp_encode(const ImageM& m, int variant, uint64_t seed, const std::vector<std::array<uint8_t, 3>>* palette = nullptr);   // palette: blue, green, red of the values of m
bool obj_read(const std::string& b, ObjM& m);
bool same_image(const ImageM& a, const ImageM& b, bool ignore_alpha, std::string& why);

struct StepSurf { int du, dv, nu, nv; std::vector<V3> p; std::vector<double> w, ku, kv; long mu, mv; bool cu, cv; };
struct StepM { std::vector<StepSurf> s; long entities; };
bool step_parse(const std::string& b, StepM& m, std::string& why);
bool step_is(const StepM& m, const std::vector<SurfM>& s, std::string& why);
bool step_has_end(const std::string& b);

// ---------------------------------------------------------------- disk plans
enum { IO_BENIGN = 1, IO_WFAULT = 2, IO_RFAULT = 4 };
sim::IoPlan gen_io(unsigned kinds, int64_t expect_bytes);   // draws; kinds says which hard faults may be chosen
std::string describe(const sim::IoPlan& p);
}
