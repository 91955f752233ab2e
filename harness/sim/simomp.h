#pragma once
#include <vector>
void sim_start(unsigned long seed, int threads);
std::vector<std::vector<int>> sim_signatures();   // per byte kind: what each thread did with it (1 read, 2 write, 4 atomic read, 8 atomic update)
long sim_regions();
long sim_phases();
long sim_switches();
