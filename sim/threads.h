// Threads of code under test under a seeded scheduler: real threads, one at a time; every memory access
// of instrumented code, every disk call and every lock is a place where the scheduler may switch.
#pragma once
#include <cstdint>
#include <functional>
#include <vector>
namespace sim { namespace threads {
void run(const std::vector<std::function<void()>>& bodies);    // runs all to the end under a drawn schedule
void point(bool hot);                                          // scheduling point of a thread
void set_op(const char* op);                                   // what the calling thread does, for messages
int self();                                                    // number of the calling thread, -1 outside
uint64_t switches();
}}
