#pragma once
#include "core.h"
struct Gen
{
  std::function<void(const Case &)> emit;
  std::function<void(const char *)> label;
  int bigPct = 4; uint64_t batch = 0;
};
struct PropDef { const char *id; void (*gen)(Rng &, const Gen &); void (*check)(const Case &); };
extern const PropDef g_props[];
extern const int g_propCount;
void writeCase(FILE *f, const Case &c);
int firstUse(const Case &c); // in a process that has not called the library before.
