// Worlds: one workload + fault space + oracle each.
#pragma once
#include "sim.h"
struct World { const char* prop; const char* name; int weight; void (*fn)(); };
std::vector<World>& worlds();
struct WorldReg { WorldReg(const char* p, const char* n, int w, void (*f)()) { worlds().push_back(World{p, n, w, f}); } };
#define WORLD(prop, name, weight) \
  static void world_##prop##_##name(); \
  static WorldReg reg_##prop##_##name(#prop, #name, weight, world_##prop##_##name); \
  static void world_##prop##_##name()
void warm_up();     // once, before any run is forked
