#pragma once
#include "expr.h"
#include <string>
struct SolverStats { uint64_t queries=0, sat=0, unsat=0, unknown=0, cacheHits=0, modelHits=0; double seconds=0, maxSeconds=0; };
extern SolverStats gSolverStats;
enum class SatRes { Sat, Unsat, Unknown };
// Decides pc /\ extra (extra may be null). Uses only the part of pc connected to extra when sliceByExtra.
// On Sat fills m (merging into m the values of the symbols involved) if m != nullptr.
SatRes solve(const std::vector<E> &pc, E extra, Model *m, bool slice=true);
void solverSetDump(const std::string &dir, unsigned maxFiles);
void solverSetTimeoutMs(unsigned ms);
