// Worker skeleton: runs cases [from, to) with stride, records coverage and violations, watches for hangs.
#pragma once
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>
#include <chrono>
#include <stdexcept>
#include <unistd.h>
#include <fcntl.h>
#include "rng.h"

struct Violation { uint64_t index; std::string mode, key, msg, detail; };
struct Discard {};   // case does not satisfy the preconditions
struct Failed {};    // thrown by Ctx::fail

struct Ctx {
    std::string mode; uint64_t seed = 1, index = 0; Rng rng;
    bool verbose = false;
    std::map<std::string, uint64_t> counters;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::vector<Violation> violations;
    uint64_t evaluations = 0, discards = 0;
    std::string detail; // description of the current case (program text ...), used in violation reports
    void count(const std::string& k, uint64_t n = 1) { counters[k] += n; }
    void eval(uint64_t n = 1) { evaluations += n; }
    void feature(uint64_t h) { if (distinct.size() < 400000) distinct.insert(h); }
    void feature(const std::string& s) { feature(std::hash<std::string>{}(s)); }
    void sample(const std::string& s) { if (samples.size() < 3) samples.push_back(s); }
    [[noreturn]] void fail(const std::string& key, const std::string& msg) {
        violations.push_back({index, mode, key, msg, detail});
        throw Failed{};
    }
    void check(bool ok, const std::string& key, const std::string& msg) { if (!ok) fail(key, msg); }
};

using CaseFn = std::function<void(Ctx&)>;
struct ModeDef { const char* name; CaseFn fn; };
extern std::vector<ModeDef> modes();

std::string jesc(const std::string& s);
int harnessMain(int argc, char** argv);
