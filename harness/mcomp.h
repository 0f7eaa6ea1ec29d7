// Interface of the controlled OpenMP runtime (runtime/mcomp.cpp)
#ifndef VERIF_MCOMP_H
#define VERIF_MCOMP_H
#include <cstddef>
#include <cstdint>
#include <string>
namespace mcomp
{
struct Stats { uint64_t regions, points, tasks, accesses, chunks; };
//! Called at every point with more than one possible continuation; 0 is the default one
extern int (*choose)(int n);
extern Stats	stats;
void set_threads(int n);
//! Forget the error of the last run
void reset();
//! First race or deadlock since reset(), or nothing
const std::string& error();
}
#endif
