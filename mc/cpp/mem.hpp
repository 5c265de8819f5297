#pragma once
#include <cstddef>
// allocation recorder: while on, every allocation of the program is guarded, filled with a pattern and counted
struct MemStat { long allocs=0,frees=0,outstanding=0; const char*err=nullptr; };
extern MemStat g_mem; void mem_on(int pattern); void mem_off(); // mem_off: checks guards of live blocks, releases them
void stack_fill(int pattern);
