#include "thrsim.h"
using namespace sim;
using namespace thrsim;
static std::vector<std::vector<Args>> prog; static std::vector<uint64_t> wseed; static std::vector<std::string> dirs;
static void body(int k, Res& r)
{
    World w; null_world(w); threads::set_op("construct objects"); make_world(w, wseed[k], dirs[k].c_str());
    for (auto& g : prog[k]) {
        threads::set_op(name(g));
        uint64_t v = exec(w, g); put(r, v, g.op, RET);
        const Def& d = table()[g.op];
        if (d.out) put(r, hash_obj(w, d.out, g.o), g.op, OBJ);
        if (d.flags & IO) put(r, files_hash(dirs[k], 0, 4), g.op, FIL);
    }
    threads::set_op("read objects"); put(r, hash_world(w), 0, END);
    threads::set_op("destroy objects"); free_world(w);
}
static void run()
{
    table(); draw_locale();
    int n = 2 + (int)draw(2); uint64_t sg = n;
    const std::vector<int> any = select(Choice()), io = select({ IO, 0, -1 });
    for (int k = 0; k < n; k++) {
        wseed.push_back(draw(1u << 20)); dirs.push_back(tdir(k)); prog.push_back({});
        int like = k ? (int)draw(4) : 0;            // 0 own program, 1 the same one, 2, 3 same operations on other values
        if (like) {
            prog[k] = prog[0]; if (like == 1) wseed[k] = wseed[0];
            else for (auto& g : prog[k]) { Args q = g; draw_args(q); q.o = g.o; q.a = g.a; q.b = g.b; q.file = g.file; g = q; }
        } else if (draw(3) == 2) {                   // one operation, again and again
            Args g = draw_op(any); const Def& d = table()[g.op]; probe("one operation again and again");
            for (int t : { (int)d.in1, (int)d.in2, (int)d.out }) if (t) for (int o = 0; o < 2; o++) { std::vector<int> f; for (int i : select({ REBUILD, IO, t })) if (table()[i].in1 == K_NONE) f.push_back(i); if (f.empty()) continue; Args q = draw_op(f); q.o = o; prog[k].push_back(q); }
            int m = 1 + (int)draw(4);
            for (int i = 0; i < m; i++) { draw_args(g); g.a = 0; g.b = (int)draw(2); g.o = (int)draw(2); if (d.flags & DISTINCT) { distinct(g); } prog[k].push_back(g); }
        } else {
            for (int t = 1; t < K_N; t++) if (draw(2)) { std::vector<int> f; for (int i : select({ REBUILD, IO, t })) if (table()[i].in1 == K_NONE) f.push_back(i); if (f.empty()) continue; Args g = draw_op(f); g.o = 0; prog[k].push_back(g); }
            int m = 1 + (int)draw(5);
            for (int i = 0; i < m; i++) { Args g = draw_op(draw(4) == 3 ? io : any); if (draw(3)) { g.a = 0; if (!(table()[g.op].flags & DISTINCT)) g.o = 0; else distinct(g); } prog[k].push_back(g); }
            if (draw(4) == 3) { Args s = draw_op(select({ SAVE, 0, -1 })); s.a = 0; prog[k].push_back(s); const char* t = strchr(name(s), ' '); for (int l : select({ LOAD, 0, -1 })) if (strchr(table()[l].name, ' ') && !strcmp(strchr(table()[l].name, ' '), t)) { Args q = draw_op(std::vector<int>{ l }); q.file = s.file; prog[k].push_back(q); } }
        }
        for (auto& g : prog[k]) { log("thread %d: %s", k, show(g).c_str()); ops::mix(sg, g.op * 4 + k); }
    }
    Res* a = shared_results(n); Res* b = shared_results(n);
    for (int k = 0; k < n; k++) { disk.set(IoPlan()); alone(body, k, &a[k]); clean(dirs[k], 0, 6); }
    std::vector<std::function<void()>> bodies; for (int k = 0; k < n; k++) bodies.push_back([k, b] { body(k, b[k]); });
    draw_disk();
    threads::run(bodies);
    disk.set(IoPlan());
    compare(n, a, b);
    if (threads::switches() > (uint64_t)n) nontrivial();
    signature(sg);
}
static Register reg({ "C15", run, 20000, 300000,
    "seeded search: two or three threads, each with drawn programs of operations (creating, editing, converting, drawing, saving, loading) over objects and files of its own, run one at a time under a drawn scheduler that may switch at every memory access of the library, lock and disk call, preferring accesses to memory other threads know; each thread's returned values, objects and files must be those of its program run alone in a process of its own. Non-trivial: the threads were switched more often than needed",
    "all of src reached by the operations of sim/ops.h", "thread scheduler, locks (simulated), disk (short and interrupted transfers)", "memory accesses and edges of code under test", 0 });
