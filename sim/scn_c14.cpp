#include "thrsim.h"
using namespace sim;
using namespace thrsim;
static std::vector<std::vector<Args>> prog; static World shared;
static void body(int k, Res& r)
{
    for (auto& g : prog[k]) {
        threads::set_op(name(g));
        uint64_t v = exec(shared, g); put(r, v, g.op, RET);
        if (table()[g.op].flags & IO) put(r, files_hash(*shared.dir, 8 * k, 8 * k + 5), g.op, FIL);
    }
}
static void run()
{
    table(); draw_locale();
    uint64_t s = draw(1u << 20); null_world(shared); must("construct objects", [&] { make_world(shared, s, scratch().c_str()); });
    populate(shared, 3);
    const std::vector<int> any = select(Choice()), rd = select({ READ, 0, -1 });
    int h = (int)draw(6); for (int i = 0; i < h; i++) { Args g = draw_op(any); Result r = call_ok(shared, g); log("before: %s%s", show(g).c_str(), r.skipped() ? ": skipped" : ""); }
    uint64_t before = peek_all(shared);
    int n = 2 + (int)draw(2); uint64_t sg = n; bool real = false;
    for (int k = 0; k < n; k++) {
        prog.push_back({}); int m = 1 + (int)draw(4), like = k ? (int)draw(3) : 0;
        bool same = !like && draw(3) == 2; Args first; if (same) first = draw_op(rd);      // one operation, again and again
        for (int i = 0; i < m; i++) {
            Args g = same ? (draw_args(first), first) : like && i < (int)prog[0].size() ? prog[0][i] : draw_op(rd);
            if (like == 2) { Args q = g; draw_args(q); q.a = g.a; q.b = g.b; g = q; }
            if (draw(3)) g.a = (int)draw(2) % SLOTS;
            g.file = 8 * k + g.file % 3; prog[k].push_back(g);
        }
        for (auto& g : prog[k]) { log("thread %d: %s", k, show(g).c_str()); ops::mix(sg, g.op * 4 + k); }
    }
    clean(scratch(), 0, 40);
    Res* a = shared_results(n); Res* b = shared_results(n);
    for (int k = 0; k < n; k++) { disk.set(IoPlan()); alone(body, k, &a[k]); clean(scratch(), 8 * k, 8 * k + 5); for (int i = 0; i < a[k].n; i++) if (a[k].v[i] != SKIPPED) real = true; }
    std::vector<std::function<void()>> bodies; for (int k = 0; k < n; k++) bodies.push_back([k, b] { body(k, b[k]); });
    draw_disk();
    threads::run(bodies);
    disk.set(IoPlan());
    compare(n, a, b);
    if (peek_all(shared) != before) fail("changed", "operations that only read changed an object");
    if (real && threads::switches() > (uint64_t)n) nontrivial();
    signature(sg);
}
static Register reg({ "C14", run, 20000, 400000,
    "seeded search: a drawn history fills a world of objects; two or three threads run drawn read-only operations (evaluating, measuring, copying, converting, drawing, saving) on the same objects, one at a time under a drawn scheduler that may switch at every memory access of the library, lock and disk call, preferring accesses to memory other threads know; every returned value and file must be that of the thread run alone, and the objects unchanged. Non-trivial: an operation applied and the threads were switched more often than needed",
    "all of src reached by the read-only operations of sim/ops.h", "thread scheduler, locks (simulated), disk (short and interrupted transfers)", "memory accesses and edges of code under test", 0 });
