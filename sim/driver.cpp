// Search over seeds, gating, minimisation, replay, evidence.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "core.h"
#include "internal.h"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <locale>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {
static std::vector<Scenario>& all() { static std::vector<Scenario> v; return v; }
Register::Register(const Scenario& s) { all().push_back(s); }
void scenario_warmup() __attribute__((weak));

struct Shared {
    std::atomic<uint64_t> next, runs, nontriv, steps, distinct, draws, crashes_seen;
    std::atomic<uint64_t> faults[32];
    std::atomic<int> stop;
    std::atomic<int> nviol;
    std::atomic<int> nsamples;
};
enum { HT = 1 << 22, MAXV = 64, MAXS = 4, SAMPLE = 2400 };
struct Viol { uint64_t index; std::atomic<int> ready; };
static Shared* sh;
static std::atomic<uint64_t>* ht;
static Viol* viols;
static char (*samples)[SAMPLE];
static ProbeEnt* probes_sh; // per worker

static void* shm(size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return p; }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static bool ht_insert(uint64_t h)
{
    if (!h) h = 1;
    size_t i = h & (HT - 1);
    for (int k = 0; k < 64; k++, i = (i + 1) & (HT - 1)) {
        uint64_t e = ht[i].load();
        if (e == h) return false;
        if (e == 0) { uint64_t z = 0; if (ht[i].compare_exchange_strong(z, h)) return true; if (z == h) return false; }
    }
    return true;
}

static const Scenario* scn;
static uint64_t seed = 1;
std::string base_scratch;
static bool verbose = false;

static void rm_files(const std::string& d)
{
    DIR* dir = opendir(d.c_str());
    if (!dir) return;
    while (dirent* e = readdir(dir)) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        std::string p = d + e->d_name;
        if (e->d_type == DT_DIR) { rm_files(p + "/"); rmdir(p.c_str()); } else unlink(p.c_str());
    }
    closedir(dir);
}

// executes one run in a child process; slot holds the result
static void exec_run(Slot* s, uint64_t index, const std::vector<uint32_t>* tape, bool replay)
{
    s->state = 0; s->op[0] = 0; s->cls[0] = 0; s->msg[0] = 0; s->hash = 1469598103934665603ull; s->sig = 0; s->nontrivial = 0; s->steps = 0;
    memset(s->faults, 0, sizeof s->faults); memset(s->probes, 0, sizeof s->probes);
    s->tape_len = 0; s->tape_in = 0; s->log_len = 0; s->log[0] = 0; s->run_index = index; s->replay = replay;
    if (tape) { s->tape_in = (uint32_t)std::min<size_t>(tape->size(), TAPE_MAX); memcpy(s->tape, tape->data(), s->tape_in * 4); }
    uint64_t h = hash_bytes(scn->property, strlen(scn->property));
    s->seed_state = hash_bytes(&index, 8, hash_bytes(&seed, 8, h));
    s->state = S_RUNNING;
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
        slot = s;
        struct rlimit rl = { 20, 22 }; setrlimit(RLIMIT_CPU, &rl);
        rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
        rl = { 512u << 20, 512u << 20 }; setrlimit(RLIMIT_FSIZE, &rl);
        signal(SIGXCPU, SIG_DFL); alarm(100);
        if (!verbose) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); close(n); }
        core_child_init();
        scn->run();
        finish();
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (s->state == S_RUNNING) {
        if (WIFSIGNALED(st)) {
            int sg = WTERMSIG(st);
            snprintf(s->cls, sizeof s->cls, "%s", sg == SIGXCPU || sg == SIGALRM || sg == SIGKILL ? "hang" : "crash");
            snprintf(s->msg, sizeof s->msg, "killed by signal %d in %s", sg, s->op);
        } else {
            snprintf(s->cls, sizeof s->cls, "exit");
            snprintf(s->msg, sizeof s->msg, "process exited with %d in %s", WEXITSTATUS(st), s->op);
            if (WEXITSTATUS(st) == 72) { fprintf(stderr, "harness error in run %llu: %s\n", (unsigned long long)index, s->msg); exit(2); }
        }
        s->state = S_VIOLATION;
    }
}

static std::string make_scratch(int w)
{
    std::string d = base_scratch + "w" + std::to_string(w) + "/";
    mkdir(d.c_str(), 0700);
    return d;
}

static std::vector<std::string> known_cls, known_match;
static bool is_known(const Slot* s)
{
    for (size_t i = 0; i < known_cls.size(); i++)
        if (known_cls[i] == s->cls && strstr(s->msg, known_match[i].c_str())) return true;
    return false;
}

static void worker(int w, uint64_t runs, double deadline)
{
    scratch_dir = make_scratch(w);
    Slot* s = (Slot*)shm(sizeof(Slot));
    ProbeEnt* pr = probes_sh + w * NPROBE;
    while (!sh->stop.load()) {
        uint64_t i = sh->next.fetch_add(1);
        if (i >= runs) break;
        if (now() > deadline) break;
        exec_run(s, i, nullptr, false);
        rm_files(scratch_dir);
        sh->runs++;
        sh->steps += s->steps; sh->draws += s->tape_len;
        for (int k = 0; k < F_N; k++) sh->faults[k] += s->faults[k];
        for (int k = 0; k < NPROBE && s->probes[k].name[0]; k++)
            for (int q = 0; q < NPROBE; q++) {
                if (!pr[q].name[0]) memcpy(pr[q].name, s->probes[k].name, sizeof pr[q].name);
                if (!strcmp(pr[q].name, s->probes[k].name)) { pr[q].n += s->probes[k].n; break; }
            }
        if (s->nontrivial && s->state == S_DONE) {
            sh->nontriv++;
            uint64_t g = s->sig ? s->sig : s->hash;
            if (ht_insert(g)) sh->distinct++;
            if (s->log_len > 60) { int k = sh->nsamples.load(); if (k < MAXS && (k = sh->nsamples.fetch_add(1)) < MAXS) { snprintf(samples[k], SAMPLE, "run %llu\n%s", (unsigned long long)i, s->log); } }
        }
        if (s->state == S_VIOLATION) {
            int k = sh->nviol.fetch_add(1);
            if (k < MAXV) { viols[k].index = i; viols[k].ready = 1; }
            if (k >= 15 || (getenv("SIM_FIRST") && k >= 0)) sh->stop = 1;
        }
    }
    rm_files(scratch_dir);
    _exit(0);
}

static std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

static bool same(Slot* s, const std::string& cls) { return s->state == S_VIOLATION && cls == s->cls; }

static std::vector<uint32_t> minimise(Slot* s, uint64_t index, std::vector<uint32_t> t, const std::string& cls, double deadline, uint64_t& tried)
{
    tried = 0;
    auto ok = [&](const std::vector<uint32_t>& c, std::vector<uint32_t>& out) {
        tried++;
        rm_files(scratch_dir);
        exec_run(s, index, &c, true);
        if (!same(s, cls)) return false;
        out.assign(s->tape, s->tape + s->tape_len);      // normalised: values actually used
        while (!out.empty() && out.back() == 0) out.pop_back();
        return true;
    };
    std::vector<uint32_t> out;
    if (!ok(t, out)) return t;
    t = out;
    bool progress = true;
    while (progress && now() < deadline) {
        progress = false;
        for (size_t chunk = std::max<size_t>(1, t.size() / 2); chunk >= 1 && now() < deadline; chunk /= 2) {
            for (size_t i = 0; i < t.size() && now() < deadline;) {          // delete
                std::vector<uint32_t> c = t;
                c.erase(c.begin() + i, c.begin() + std::min(t.size(), i + chunk));
                if (ok(c, out) && (out.size() < t.size() || (out.size() == t.size() && out < t))) { t = out; progress = true; } else i += chunk;
            }
            for (size_t i = 0; i < t.size() && now() < deadline; i += chunk) {  // zero
                std::vector<uint32_t> c = t; bool any = false;
                for (size_t k = i; k < std::min(t.size(), i + chunk); k++) { if (c[k]) any = true; c[k] = 0; }
                if (any && ok(c, out) && (out.size() < t.size() || (out.size() == t.size() && out < t))) { t = out; progress = true; }
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < t.size() && now() < deadline; i++) {           // lower single values
            uint32_t lo = 0, hi = t[i];
            while (lo < hi && now() < deadline) {
                uint32_t mid = lo + (hi - lo) / 2;
                std::vector<uint32_t> c = t; c[i] = mid;
                if (ok(c, out) && (out.size() < t.size() || (out.size() == t.size() && out < t))) { t = out; progress = true; if (i >= t.size()) break; hi = std::min(mid, t[i]); }
                else lo = mid + 1;
            }
        }
    }
    return t;
}

static void write_replay(const std::string& path, const Slot* s, uint64_t index, const std::vector<uint32_t>& t, size_t orig, uint64_t tried)
{
    FILE* f = fopen(path.c_str(), "w");
    if (!f) { perror(path.c_str()); exit(2); }
    fprintf(f, "property %s\nseed %llu\nrun %llu\nclass %s\nmessage %s\nhash %016llx\noriginal_choices %zu\nminimisation_candidates %llu\nchoices %zu\n", scn->property, (unsigned long long)seed, (unsigned long long)index, s->cls, s->msg, (unsigned long long)s->hash, orig, (unsigned long long)tried, t.size());
    for (size_t i = 0; i < t.size(); i++) fprintf(f, "%u%c", t[i], i % 20 == 19 ? '\n' : ' ');
    fprintf(f, "\n--- events\n%s", s->log);
    fclose(f);
}

static bool read_replay(const char* path, std::string& prop, uint64_t& index, std::string& cls, uint64_t& hash, std::vector<uint32_t>& t)
{
    FILE* f = fopen(path, "r");
    if (!f) return false;
    char line[4096]; size_t n = 0; bool ok = false;
    while (fgets(line, sizeof line, f)) {
        unsigned long long v; char w[512];
        if (sscanf(line, "property %500s", w) == 1) prop = w;
        else if (sscanf(line, "seed %llu", &v) == 1) seed = v;
        else if (sscanf(line, "run %llu", &v) == 1) index = v;
        else if (sscanf(line, "class %500s", w) == 1) cls = w;
        else if (sscanf(line, "hash %llx", &v) == 1) hash = v;
        else if (sscanf(line, "choices %zu", &n) == 1) { ok = true; break; }
    }
    t.clear();
    for (size_t i = 0; i < n; i++) { unsigned v; if (fscanf(f, "%u", &v) != 1) { ok = false; break; } t.push_back(v); }
    fclose(f);
    return ok;
}

static void warmup()
{
    // statics of the C++ library that are set up on first use
    std::ostringstream o; o << 1.5 << " " << 3 << std::endl; std::istringstream i("1.5 3"); double d; int k; i >> d >> k;
    std::ofstream n("/dev/null"); n << d << k << std::endl;
    std::ifstream m("/dev/null"); std::string s; std::getline(m, s);
    if (scenario_warmup) scenario_warmup();
}

extern "C" int main_driver(int argc, char** argv)
{
    std::string prop, tier = "quick", evid, rdir = "replays", known, replay, hashes;
    uint64_t runs = 0; double seconds = 0; int workers = 8; long single = -1; double mintime = 25;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { if (i + 1 >= argc) { fprintf(stderr, "%s needs a value\n", a.c_str()); exit(2); } return argv[++i]; };
        if (a == "--property") prop = val(); else if (a == "--tier") tier = val(); else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--runs") runs = strtoull(val().c_str(), 0, 10); else if (a == "--seconds") seconds = atof(val().c_str());
        else if (a == "--evidence") evid = val(); else if (a == "--replays") rdir = val(); else if (a == "--known") known = val();
        else if (a == "--workers") workers = atoi(val().c_str()); else if (a == "--replay") replay = val(); else if (a == "--one") single = atol(val().c_str());
        else if (a == "--verbose") verbose = true; else if (a == "--hashes") hashes = val(); else if (a == "--min-seconds") mintime = atof(val().c_str());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); exit(2); }
    }
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        if (personality(pers | ADDR_NO_RANDOMIZE) != -1) { execv("/proc/self/exe", argv); }
    }
    double t0 = now();
    std::vector<uint32_t> tape; uint64_t rindex = 0, rhash = 0; std::string rcls;
    if (!replay.empty() && !read_replay(replay.c_str(), prop, rindex, rcls, rhash, tape)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
    for (auto& s : all()) if (prop == s.property) scn = &s;
    if (!scn) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 2; }

    // private scratch space
    for (const char* d : { "/dev/shm", "/tmp", "." }) {
        std::string t = std::string(d) + "/cadsim.XXXXXX"; std::vector<char> b(t.begin(), t.end()); b.push_back(0);
        if (mkdtemp(b.data())) { base_scratch = std::string(b.data()) + "/"; break; }
    }
    if (base_scratch.empty()) { fprintf(stderr, "no scratch directory\n"); return 2; }
    struct Clean { ~Clean() { if (!base_scratch.empty()) { rm_files(base_scratch); rmdir(base_scratch.c_str()); } } } clean;

    warmup();
    cov_max = cov_edges + 1;
    cov_map = (unsigned char*)shm(cov_max + 1);

    if (!replay.empty() || single >= 0) {
        Slot* s = (Slot*)shm(sizeof(Slot));
        scratch_dir = make_scratch(0);
        if (single >= 0) exec_run(s, single, nullptr, false); else exec_run(s, rindex, &tape, true);
        printf("%s", s->log);
        printf("result state=%d class=%s message=%s hash=%016llx steps=%llu choices=%u\n", s->state, s->cls, s->msg, (unsigned long long)s->hash, (unsigned long long)s->steps, s->tape_len);
        if (!replay.empty()) {
            bool okk = s->state == S_VIOLATION && rcls == s->cls && rhash == s->hash;
            printf("REPLAY %s\n", okk ? "reproduced" : "differs");
            if (s->state == S_VIOLATION) printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replay.c_str());
        }
        fflush(stdout);
        return s->state == S_VIOLATION ? 1 : 0;
    }
    if (!runs) runs = tier == "thorough" ? scn->thorough_runs : scn->quick_runs;
    if (!seconds) seconds = tier == "thorough" ? 3000 : 90;

    if (!hashes.empty()) {      // determinism check: print the hash of every run
        sh = (Shared*)shm(sizeof(Shared));
        uint64_t* hh = (uint64_t*)shm(runs * 8);
        for (int w = 0; w < workers; w++) if (fork() == 0) {
            scratch_dir = make_scratch(w); Slot* s = (Slot*)shm(sizeof(Slot));
            for (;;) { uint64_t i = sh->next.fetch_add(1); if (i >= runs) break; exec_run(s, i, nullptr, false); rm_files(scratch_dir); hh[i] = hash_bytes(&s->steps, 8, s->hash); }
            _exit(0);
        }
        while (wait(nullptr) > 0) {}
        FILE* f = fopen(hashes.c_str(), "w");
        for (uint64_t i = 0; i < runs; i++) fprintf(f, "%llu %016llx\n", (unsigned long long)i, (unsigned long long)hh[i]);
        fclose(f);
        return 0;
    }

    if (!known.empty()) {
        std::ifstream kf(known); std::string l;
        while (std::getline(kf, l)) {
            std::istringstream ss(l); std::string w, p, c; ss >> w >> p >> c;
            if (w != "known:" || p != "property=" + prop || c.compare(0, 6, "class=")) continue;
            std::string m; size_t q = l.find("match="); if (q != std::string::npos) m = l.substr(q + 6);
            known_cls.push_back(c.substr(6)); known_match.push_back(m);
        }
    }

    sh = (Shared*)shm(sizeof(Shared));
    ht = (std::atomic<uint64_t>*)shm(sizeof(std::atomic<uint64_t>) * HT);
    viols = (Viol*)shm(sizeof(Viol) * MAXV);
    samples = (char (*)[SAMPLE])shm(MAXS * SAMPLE);
    probes_sh = (ProbeEnt*)shm(sizeof(ProbeEnt) * NPROBE * workers);

    for (int w = 0; w < workers; w++) {
        pid_t p = fork();
        if (p < 0) { perror("fork"); return 2; }
        if (p == 0) worker(w, runs, t0 + seconds);
    }
    int st, bad = 0;
    while (wait(&st) > 0) if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = 1;
    double t1 = now();
    if (bad) { fprintf(stderr, "a worker failed\n"); return 2; }

    // violations, smallest run first
    std::vector<uint64_t> vi;
    for (int i = 0; i < std::min<int>(sh->nviol, MAXV); i++) if (viols[i].ready) vi.push_back(viols[i].index);
    std::sort(vi.begin(), vi.end());
    Slot* s = (Slot*)shm(sizeof(Slot));
    scratch_dir = make_scratch(0);
    int result = 0; std::string vline; int unrepro = 0; std::set<std::string> known_seen;
    for (uint64_t idx : vi) {
        rm_files(scratch_dir);
        exec_run(s, idx, nullptr, false);
        if (s->state != S_VIOLATION) { unrepro++; fprintf(stderr, "run %llu: violation not reproduced\n", (unsigned long long)idx); continue; }
        if (is_known(s)) { known_seen.insert(s->cls); continue; }
        std::string cls = s->cls; uint64_t h = s->hash;
        std::vector<uint32_t> t(s->tape, s->tape + s->tape_len);
        size_t orig = t.size();
        rm_files(scratch_dir);
        exec_run(s, idx, nullptr, false);
        if (!same(s, cls) || s->hash != h) { unrepro++; fprintf(stderr, "run %llu: second execution differs\n", (unsigned long long)idx); continue; }
        uint64_t tried;
        t = minimise(s, idx, t, cls, now() + mintime, tried);
        rm_files(scratch_dir);
        exec_run(s, idx, &t, true);
        if (!same(s, cls)) { unrepro++; fprintf(stderr, "run %llu: minimised run differs\n", (unsigned long long)idx); continue; }
        if (is_known(s)) { known_seen.insert(s->cls); continue; }
        mkdir(rdir.c_str(), 0755);
        char name[64]; snprintf(name, sizeof name, "/%s-%llu-%llu.replay", prop.c_str(), (unsigned long long)seed, (unsigned long long)idx);
        std::string rp = rdir + name;
        write_replay(rp, s, idx, t, orig, tried);
        // fresh process must reproduce it exactly
        unsetenv("SIM_NOASLR");
        std::string cmd = std::string("'") + argv[0] + "' --replay '" + rp + "' > '" + base_scratch + "replay.out' 2>/dev/null";
        int rc = system(cmd.c_str()); (void)rc;
        std::ifstream ro(base_scratch + "replay.out"); std::stringstream rs; rs << ro.rdbuf();
        if (rs.str().find("REPLAY reproduced") == std::string::npos) { unrepro++; fprintf(stderr, "run %llu: replay in a fresh process differs\n", (unsigned long long)idx); continue; }
        printf("violation of %s: %s\n  %s\n  seed %llu run %llu, %zu choices minimised to %zu (%llu candidates)\n--- events of the minimised run\n%.6000s---\n", prop.c_str(), s->cls, s->msg, (unsigned long long)seed, (unsigned long long)idx, orig, t.size(), (unsigned long long)tried, s->log);
        vline = "VIOLATION property=" + prop + " replay=" + rp;
        result = 1;
        break;
    }
    for (size_t i = 0; i < known_cls.size(); i++) printf("KNOWN-FINDING: property=%s %s %s%s\n", prop.c_str(), known_cls[i].c_str(), known_match[i].c_str(), known_seen.count(known_cls[i]) ? "" : " (not met in this run)");
    if (!result && unrepro) { fprintf(stderr, "%d violations could not be reproduced: simulator error\n", unrepro); result = 2; }

    uint64_t cov = 0; for (uint32_t i = 1; i < cov_max; i++) cov += cov_map[i];
    if (!evid.empty()) {
        FILE* f = fopen(evid.c_str(), "w");
        if (!f) { perror(evid.c_str()); return 2; }
        double w = t1 - t0; uint64_t R = sh->runs;
        fprintf(f, "{\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%llu,\"level\":\"exploration\",\"wall_s\":%.3f,\"violations\":%d,\n", prop.c_str(), tier.c_str(), (unsigned long long)seed, w, result == 1 ? 1 : 0);
        fprintf(f, "\"coverage\":{\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"nontrivial\":%llu,\n\"rule\":\"%s\",\n", (unsigned long long)R, (unsigned long long)sh->distinct.load(), (unsigned long long)sh->nontriv.load(), jesc(scn->rule).c_str());
        fprintf(f, "\"samples\":[");
        int ns = std::min<int>(sh->nsamples, MAXS);
        for (int i = 0; i < ns; i++) fprintf(f, "%s\"%s\"", i ? ",\n" : "", jesc(samples[i]).c_str());
        if (!ns) fprintf(f, "\"none\"");
        fprintf(f, "],\n\"runs_per_hour\":%.0f,\"seeds_per_hour\":%.0f,\"simulated_time\":{\"unit\":\"%s\",\"total\":%llu},\n", R / w * 3600, R / w * 3600, jesc(scn->steps_unit).c_str(), (unsigned long long)sh->steps.load());
        fprintf(f, "\"choices_drawn\":%llu,\"faults_injected\":{", (unsigned long long)sh->draws.load());
        bool first = true;
        for (int k = 0; k < F_N; k++) if (sh->faults[k].load()) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", fault_name[k], (unsigned long long)sh->faults[k].load()); first = false; }
        fprintf(f, "},\n\"probes\":{");
        std::map<std::string, uint64_t> pm;
        for (int k = 0; k < workers * NPROBE; k++) if (probes_sh[k].name[0]) pm[probes_sh[k].name] += probes_sh[k].n;
        first = true;
        for (auto& p : pm) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second); first = false; }
        fprintf(f, "},\n\"code_edges_reached\":%llu,\"code_edges_instrumented\":%u,\n", (unsigned long long)cov, cov_max - 1);
        fprintf(f, "\"state_measure\":\"distinct event-history signatures of non-trivial runs (operations, faults and results, or interleavings)\",\n");
        fprintf(f, "\"real_components\":\"%s\",\"stub_components\":\"%s\"},\n", jesc(scn->real).c_str(), jesc(scn->stub).c_str());
        fprintf(f, "\"assumptions\":[\"sampled search: a clean batch is evidence, not proof\"]}\n");
        fclose(f);
    }
    printf("%s: %llu runs (%llu non-trivial, %llu distinct) in %.1f s, %llu code edges of %u, result %s\n", prop.c_str(), (unsigned long long)sh->runs.load(), (unsigned long long)sh->nontriv.load(), (unsigned long long)sh->distinct.load(), t1 - t0, (unsigned long long)cov, cov_max - 1, result == 1 ? "VIOLATION" : result ? "ERROR" : "held");
    if (!vline.empty()) printf("%s\n", vline.c_str());
    fflush(stdout);
    return result;
}
}
int main(int argc, char** argv) { return sim::main_driver(argc, argv); }
