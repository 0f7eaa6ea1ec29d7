// Interface of the controlled CUDA implementation (runtime/fakecuda.cpp)
#ifndef VERIF_FAKECUDA_H
#define VERIF_FAKECUDA_H
#include <cstddef>
#include <cstdint>
#include <set>
#include <string>
namespace fakecuda
{
struct Stats { uint64_t commands, kernels, items, accesses, points; };
extern Stats	stats;
//! Called when commands of several streams may execute next; 0 is the default (as late as possible, oldest first)
extern int (*choose)(int n);
//! Called for errors after which the process can not go on
extern void (*fatal)(const std::string& msg);
//! Order of blocks, threads of a block and host threads of a parallel region: 0 ascending, 1 descending
extern int		order;
//! Devices on which kernels have been executed
extern std::set<int>	used;
//! The allocation which fails (counted from now on, 1 is the next), 0 for none
extern int		fail_malloc;
void configure(int devices);
//! Forget the error
void reset();
//! First error since reset()
const std::string& error();
//! Objects that have not been released
int live_buffers();
int live_textures();
int live_streams();
//! Memory of a device
size_t total_allocated();
}
#endif
