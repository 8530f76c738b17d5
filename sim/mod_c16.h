// Interface of a module: the library and the operations of ops.h, built one way.
#pragma once
#include <cstdint>
struct ModArgs { int op; int o, a, b; int n, m; double x, y, z; uint64_t seed; int file; };       // as ops::Args
struct ModDef { const char* name; int out, in1, in2; unsigned flags; };
struct Module {
    int ops; const ModDef* def; int kinds, slots;
    void* (*make)(uint64_t seed, const char* dir);
    uint64_t (*exec)(void* w, const ModArgs* g);
    uint64_t (*obj)(void* w, int kind, int i);
    uint64_t (*all)(void* w);
    void (*renew)(void* w, int kind, int i);       // destroys an object and makes a new one
    void (*free)(void* w);
};
