// control of the OpenMP team in the builds that have one (gomp_shim.cpp)
#pragma once
#include <algorithm>
#include <cstdint>
struct TeamStats { long regions = 0, threads = 0, barriers = 0, chunks = 0, singles = 0; };
// mode 0: free running, 1: random delays, 2: between barriers one thread after another in a random order
void vh_team(int threads, int mode, uint64_t seed);
bool vh_has_team();
TeamStats vh_team_stats();
