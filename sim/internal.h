#pragma once
#include <atomic>
#include <cstdint>
namespace sim {
enum { TAPE_MAX = 1 << 17, LOG_MAX = 1 << 18, NPROBE = 64 };
enum State { S_RUNNING = 1, S_DONE, S_VIOLATION };
struct ProbeEnt { char name[48]; uint64_t n; };
// one run, in memory shared with the driver: survives any death of the run's process
struct Slot {
    volatile int state;
    char op[96];
    char cls[160];
    char msg[2048];
    uint64_t hash;          // over the whole event log
    uint64_t sig;
    int nontrivial;
    uint64_t steps;
    uint64_t faults[32];
    ProbeEnt probes[NPROBE];
    uint32_t tape_len;      // choices made
    uint32_t tape_in;       // choices given (replay), the rest is 0 (replay) or random (search)
    int replay;
    uint64_t seed_state;
    uint64_t run_index;
    uint32_t log_len;
    uint32_t tape[TAPE_MAX];
    char log[LOG_MAX];
};
extern Slot* slot;
extern unsigned char* cov_map;    // shared edge coverage
extern uint32_t cov_max, cov_edges;
extern std::string scratch_dir;
extern int sut_depth;             // >0: code under test is running
void core_child_init();           // before a run, in its process
void disk_child_init();
extern "C" int main_driver(int argc, char** argv);
}
