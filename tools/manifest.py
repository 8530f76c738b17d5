#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl and the scenarios present in sim/
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PURE = "a pure function of its arguments: no schedule, clock, I/O, fault or history can change the result, so a simulator has nothing to decide; "
NA = {
 "C18": PURE + "whether the value is the mathematical one is a question of numerical analysis. What history and faults can do to evaluation is covered by C12, C14 and C16",
 "C19": PURE + "the geometry of a new solid depends only on its dimensions. What reuse of the target and failed allocations can do to a factory is covered by C09 and C13",
 "C20": PURE + "whether two formulas agree is arithmetic. That reconfigured rotations carry nothing over is covered by C26",
 "C21": PURE + "predicates are straight-line arithmetic. That primitives whose corners are set again carry nothing over is covered by C26",
 "C22": PURE + "measurements read one mesh. That edit histories, deleted triangles and concurrent readers do not disturb them is covered by C11 and C14",
 "C23": PURE + "patch evaluation is arithmetic without state",
 "C24": PURE + "where one element lands is arithmetic. What drawing order, earlier frames and the image border do is covered by C17",
}
LV = "Seeded search over simulated runs: a clean batch is evidence over the histories, schedules and fault sequences explored, not proof. "
NOTE = {
 "C01": "Trusts the independent decoders in sim/gen.cpp and the disk seam (interposed open/write/close/... of libc) as a model of a failing disk.",
 "C02": "Trusts the independent encoders in sim/gen.cpp and the disk seam as a model of failing reads.",
 "C03": "Coordinates within the range of the format (STL: finite floats).",
 "C04": "Bounds used: steps and memory linear in the size of the file with generous factors.",
 "C05": "Crash model: the process dies between or inside system calls and the bytes handed to the kernel survive (prefix of the journal); no reordering by the kernel.",
 "C06": "Reference model of the writer: a list of objects per document.",
 "C07": "STEP files are parsed by a strict reader of the subset the writer produces.",
 "C08": "Locales: custom facets, a real de_DE locale built with localedef when available, and C-only setlocale.",
 "C09": "Allocation failures at every operator new of the code under test; stack exhaustion is not modelled.",
 "C10": "Counts live operator new blocks of code under test and open descriptors; memory kept by libc itself is outside.",
 "C11": "Reference model: vectors of vertices, triangles, live flags and colours.",
 "C12": "Shape compared at sampled parameters with a relative tolerance; knots in [0,1], positive weights; transforms are affine and not interrupted by lack of memory.",
 "C13": "Equality is bitwise through the public getters, colour of meshes excepted.",
 "C14": "Interleavings at the granularity of memory accesses seen by the thread instrumentation (sequentially consistent); weak memory effects are not simulated.",
 "C15": "Interleavings at the granularity of memory accesses seen by the thread instrumentation (sequentially consistent); weak memory effects are not simulated.",
 "C16": "Compared across two builds with different automatic-variable fill and many heap, stack and address layouts on one machine and compiler.",
 "C25": "Other objects are compared through hashes of everything their public getters give.",
 "C26": "Equality is bitwise; classes without a way to ask (CubicBezierTriangles, Face colour) are outside.",
 "C27": "Crash model as in C05; recovery is compared with the same good times in a process without history; every object is built anew first.",
 "C17": "Depth slabs kept disjoint so that the nearest element is unambiguous; masks of elements drawn alone are taken from the renderer itself.",
}
P = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in P:
    i = p["id"]
    if i in NA: na.append({"property": i, "reason": NA[i]}); continue
    if not os.path.exists(os.path.join(V, "sim", "scn_%s.cpp" % i.lower())): na.append({"property": i, "reason": "check not built yet"}); continue
    checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
        "technique": "deterministic simulation with fault injection (seeded schedules, faults and histories of the real code against a reference model)" ,
        "level": "exploration", "level_note": LV + NOTE[i]})
m = {"version": 1, "setup_cmd": "bin/setup", 
     "checks": checks, "not_applicable": na,
     "notes": "bin/check PROPERTY quick|thorough rebuilds from /repo/src (sources listed in its CMakeLists.txt) into /verif/build, keyed by content; bin/check PROPERTY quick --replay FILE replays a failure. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
