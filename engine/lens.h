#pragma once
#include <string>
#include <vector>
struct LensFind { std::string rule, where, text, api; unsigned long long hi; };
struct LensResult { std::vector<LensFind> found; unsigned instructions = 0, sites = 0, params = 0, loops = 0; };
bool lensRun(const std::string &path, LensResult &R, std::string &err);
bool graphRun(const std::string &path, std::string &out, std::string &err);
