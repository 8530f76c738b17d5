#include "fileobj.h"
using namespace sim;

static void run()
{
    Kind k = (Kind)draw(3);
    FileObj o(k);
    std::string path = scratch_file(kind_file[k]);
    uint64_t sg = k;
    int rounds = 1 + (int)draw(3);
    for (int r = 0; r < rounds; r++) {
        if (r == 0 || draw(2)) o.make(true);
        // unsupported images must be refused rather than stored wrongly
        if (k == BMP && chance(1, 12)) {
            int pl = (int)draw(2) ? 2 : 5 + (int)draw(4);
            Image im; must("build image", [&] { im.resize(3, 2, pl); });
            bool ok = true;
            std::string p2 = scratch_file("odd.bmp");
            must("save BMP", [&] { ok = ImageIoBmp::write(p2, &im); });
            log("save of an image with %d planes -> %d", pl, ok);
            if (ok) fail("unsupported-stored", "image with %d planes reported as saved", pl);
            probe("unsupported plane count");
        }
        if (r == 0 || draw(3) == 0) {
            disk.set(IoPlan());
            std::string p2 = scratch_file("healthy.out"), b, why;
            bool ok = o.save(p2);
            get_file(p2, b);
            log("healthy save -> %d, %zu bytes #%016llx", ok, b.size(), (unsigned long long)hash_bytes(b.data(), b.size()));
            if (!ok) fail("healthy-save-failed", "%s save fails on a healthy disk: %s", kind_name[k], o.describe().c_str());
            if (!o.file_is(b, why)) fail("saved-wrong", "%s file is not the object: %s (%s)", kind_name[k], why.c_str(), o.describe().c_str());
            if (disk.opens != disk.closes) fail("file-left-open", "%s save opened %llu and closed %llu files", kind_name[k], (unsigned long long)disk.opens, (unsigned long long)disk.closes);
        }
        // what is there before
        std::string prev; get_file(scratch_file("healthy.out"), prev);
        switch (draw(4)) {
        case 0: del_file(path); break;
        case 1: break;                                                   // whatever the last round left
        case 2: put_file(path, prev + "tail of an older, longer file\n0123456789"); break;
        default: { Rng g(draw(1u << 20)); std::string j; size_t n = g.below(2 * prev.size() + 300); for (size_t i = 0; i < n; i++) j += (char)g.next(); put_file(path, j); }
        }
        std::string tgt = path;
        if (chance(1, 25)) { tgt = scratch_file("nodir/x"); }
        IoPlan p = gen::gen_io(gen::IO_BENIGN | gen::IO_WFAULT, (int64_t)prev.size());
        disk.set(p);
        bool ok = o.save(tgt);
        bool hard = disk.hard_fault;
        IoPlan none; 
        std::string b, why; bool have = get_file(tgt, b);
        log("save to %s with%s -> %d, hard fault %d, %zu bytes #%016llx", tgt == path ? "file" : "missing directory", gen::describe(p).c_str(), ok, hard, b.size(), (unsigned long long)hash_bytes(b.data(), b.size()));
        if (disk.opens > disk.closes && tgt == path) fail("file-left-open", "%s save left a file open", kind_name[k]);
        disk.set(none);
        if (tgt != path) { if (ok) fail("false-success", "%s save into a missing directory reported success", kind_name[k]); continue; }
        if (ok && !have) fail("false-success", "%s save reported success but there is no file", kind_name[k]);
        if (ok && !o.file_is(b, why)) fail("false-success", "%s save reported success but the file is not the object: %s", kind_name[k], why.c_str());
        if (!ok && !hard) fail("false-failure", "%s save reported failure although the disk only split or interrupted transfers", kind_name[k]);
        if (hard) { nontrivial(); probe(ok ? "fault overcome" : "fault reported"); }
        if (p.short_w || p.eintr_w) nontrivial();
        sg = sg * 1000003 + (uint64_t)ok * 2 + hard + b.size() * 7 + p.short_w * 3 + p.eintr_w * 5;
        signature(sg);
    }
}
static Register reg({ "C01", run, 24000, 1500000,
    "seeded search: objects (meshes with deleted, flipped, coloured triangles; images of all plane counts) saved over absent, older, longer or garbage files while the simulated disk injects open, write (ENOSPC, EIO, EDQUOT, once or for ever, at drawn byte positions), close faults, short and interrupted writes; the file is decoded by an independent codec. A run is non-trivial when a disk fault, a short or an interrupted write was injected",
    "STLFile::save, OBJFile::save, OBJWriter, ImageIoBmp::write, Mesh, MeshFactory, Image, libstdc++ streams", "disk (system calls of files)", "edges of code under test", 0 });
