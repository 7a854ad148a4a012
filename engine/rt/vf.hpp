// Interface between the harnesses and whatever runs them: the symbolic executor (engine/symex.cpp implements the sym_ functions)
// or the native replay driver (rt/native.cpp reads the values of one counterexample).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
void sym_bytes(void* p, size_t n, const char* name);
uint64_t sym_int(int width, const char* name);
uint64_t sym_choice(uint64_t n, const char* name);
void sym_assume(bool c);
void sym_check(bool c, const char* tag);
void sym_fail(const char* tag);
void sym_cover(const char* tag);
int64_t sym_param(const char* name, int64_t def);
uint64_t sym_live_allocs();
void sym_done();
uint64_t sym_concretize(uint64_t);
void sym_note(const char* name, uint64_t value);
int sym_is_engine();
void sym_threads(int n, void (*fn)(int, void*), void* arg); // runs fn(0..n-1) as threads, in any order of their locking; returns when all have ended
}
