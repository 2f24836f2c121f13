// Which input blocks each output byte of a single-packet call can depend on, at a concrete length.
#pragma once
#include "ir.h"
#include <string>
#include <vector>
struct DepFind { u64 len; std::string rule, where, text; };
struct DepResult { std::vector<DepFind> found; std::vector<std::pair<u64, u64>> steps; u64 nsteps = 0, accesses = 0, bytes = 0, lengths = 0; std::string status = "ok", why; };
void depsRun(Module &m, bool enc, const std::vector<u64> &Ls, u64 fuel, DepResult &R);
std::vector<u64> depsConstants(Module &m);      // integer constants the code compares or computes lengths with
