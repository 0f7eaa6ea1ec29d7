// Interface of the controlled OpenCL implementation (runtime/fakecl.cpp)
#ifndef VERIF_FAKECL_H
#define VERIF_FAKECL_H
#include <cstddef>
#include <cstdint>
#include <set>
#include <string>
namespace fakecl
{
struct Stats { uint64_t commands, kernels, items, accesses, points; };
extern Stats	stats;
//! Called when commands of several queues may execute next; 0 is the default (as late as possible, oldest first)
extern int (*choose)(int n);
//! Called for errors after which the process can not go on
extern void (*fatal)(const std::string& msg);
//! Order of work groups and work items: 0 ascending, 1 descending
extern int		order;
//! Platforms and devices on which kernels have been executed
extern std::set<std::pair<int, int>>	used;
//! Number of platforms, devices of each
void configure(int platforms, int devices);
//! Forget the error
void reset();
//! First error since reset()
const std::string& error();
//! Objects that have not been released
int live_buffers();
}
#endif
