#include "wellformed.h"
using namespace sim;

static void run()
{
    uint64_t sg = 0;
    Kind k = (Kind)draw(3);
    FileObj o(k);
    int rounds = 1 + (int)draw(3);
    for (int r = 0; r < rounds; r++) {
        WellFormed w = gen_wellformed(k, true);
        std::string path = scratch_file(kind_file[k]), why;
        put_file(path, w.bytes);
        if (r == 0) make_dirty(o);
        size_t visible = w.bytes.size();
        bool cutfile = chance(1, 6);
        if (cutfile) {    // a file that really ends too early
            visible = draw(2) ? draw(visible + 1) : (visible > 60 ? visible - draw(60) : draw(visible + 1));
            put_file(path, w.bytes.substr(0, visible));
            log("file cut to %zu bytes", visible);
        }
        bool inflated = false;
        if (k == STL && !cutfile && !w.trailing && chance(1, 10)) {   // a file that announces more facets than it has
            uint32_t n = (uint32_t)w.stl.t.size() + (1u << draw(31)); inflated = true;
            std::string b = w.bytes; memcpy(&b[80], &n, 4); put_file(path, b);
            log("file of %zu facets announces %u", w.stl.t.size(), n);
        }
        size_t need = k == STL ? 84 + 50 * w.stl.t.size() : w.bytes.size();   // the file stops in the middle of a record
        bool stops = inflated || (k == STL && visible < need);
        bool missing = chance(1, 40);
        if (missing) del_file(path);
        IoPlan p = gen::gen_io(gen::IO_BENIGN | gen::IO_RFAULT, (int64_t)visible);
        disk.set(p);
        bool ok = o.load(path);
        bool hard = disk.hard_fault, leak = disk.opens > disk.closes;
        disk.set(IoPlan());
        o.refresh();
        log("load%s with%s -> %d, hard fault %d: %s", missing ? " of a missing file" : "", gen::describe(p).c_str(), ok, hard, o.describe().c_str());
        if (leak) fail("file-left-open", "%s load left a file open", kind_name[k]);
        if (missing) { if (ok) fail("false-success", "%s load of a missing file reported success", kind_name[k]); continue; }
        bool cut = visible < w.bytes.size();
        bool eff_short = cut || hard || inflated;
        if (!ok) {
            if (!eff_short && !w.trailing) fail("false-failure", "%s load of a well-formed file failed on a disk that only split or interrupted transfers", kind_name[k]);
        } else if (stops) fail("false-success", "%s load of a file that stops in the middle of a record reported success", kind_name[k]);
        else if (holds(o, w, why)) { if (hard) probe("fault overcome or harmless"); }
        else if (!eff_short) fail("loaded-wrong", "%s load reported success but the object is not what the file contains: %s", kind_name[k], why.c_str());
        else if (k != OBJ) fail("false-success", "%s load of a file that could not be read entirely reported success: %s", kind_name[k], why.c_str());
        else {
            bool good = holds_prefix(o.mm, w.obj, visible, why);
            if (!good && p.reof_byte >= 0 && hard) good = holds_prefix(o.mm, w.obj, (size_t)p.reof_byte, why);
            if (!good && p.rerr_byte >= 0 && hard) good = holds_prefix(o.mm, w.obj, (size_t)p.rerr_byte, why);
            if (!good) fail("false-success", "OBJ load of a file that could not be read entirely returned something else than its readable records: %s", why.c_str());
        }
        if (eff_short) { nontrivial(); probe(ok ? "incomplete file loaded (complete data or OBJ prefix)" : "incomplete file refused"); }
        if (p.short_r || p.eintr_r) nontrivial();
        sg = sg * 1000003 + ok * 2 + hard + w.bytes.size() * 7 + visible * 31 + p.short_r * 3 + p.eintr_r * 5 + (uint64_t)(p.reof_byte + p.rerr_byte);
        signature(sg);
    }
}
static Register reg({ "C02", run, 30000, 1800000,
    "seeded search: well-formed STL, OBJ and BMP files of a codec of the harness (header, attribute, padding, comment, line end, number format variants), whole or cut, loaded into new or used objects while the simulated disk injects open, read, seek faults, early end of file (at drawn byte positions, once or for ever), short and interrupted reads; the object is compared with the records of the file. Non-trivial: the file could not be read entirely or a transfer was split or interrupted",
    "STLFile::load, OBJFile::load, ImageIoBmp::read, Mesh, Image, libstdc++ streams", "disk (system calls of files)", "edges of code under test", 0 });
