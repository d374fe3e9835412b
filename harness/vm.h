// Bridge between the model and the real machine.
#pragma once
#include <sstream>
#include <memory>
#include <iostream>
#include "model.h"
#include "harness.h"
#include "t86/cpu.h"
#include "t86/program.h"
#include "t86/program/helpers.h"
#include "t86-parser/parser.h"
#include "t86/utils/stats_logger.h"

namespace vm {
namespace t = tiny::t86;
// loads through the real parser
t::Program parse(const std::string& text);
// structure of a loaded instruction
m::Ins extract(const t::Instruction& ins);
// instruction objects built without the parser
std::unique_ptr<t::Instruction> build(const m::Ins& i);
t::Program load(const m::Program& p);

struct Cfg { size_t regs = 8, fregs = 4, alus = 1, rs = 2, mem = 64, gates = 4; };
Cfg randomCfg(Rng& g);
void widen(Rng& g, Cfg& c); // now and then more than 65536 cells
std::string show(const Cfg& c);

struct CinGuard { // redirects std::cin / std::cout
    std::istringstream in; std::ostringstream out;
    std::streambuf *ci, *co;
    explicit CinGuard(const std::string& input);
    ~CinGuard();
};
struct RunResult {
    enum { Halted, Error, Timeout } end = Timeout;
    m::Machine st;
    std::string what; uint64_t ticks = 0;
};
// runs on the bare CPU
RunResult run(const Cfg& c, t::Program&& p, const std::string& input, uint64_t maxTicks);
m::Machine snapshot(const t::Cpu& cpu, const Cfg& c);

// ---- program generation: the program is generated along its own (model) execution
struct GenOpt {
    size_t minLen = 4, maxLen = 40; size_t maxSteps = 400;
    bool floats = true, io = false, getchar = false, calls = true, special = true, brk = true, bkpt = true;
    int faultPct = 0;    // chance (percent) that a new instruction is made to fault
    bool wantFault = false;
    int memWork = 6;     // size of the memory working set
    int hazardPct = 50;  // chance of a program confined to few registers
    bool wildRest = true;// unexecuted slots hold arbitrary (wild) instructions
    bool ipUse = true;
    int invalidRegs = 1; // wild instructions may name registers that do not exist
    int callPct = 6;
    bool bigValues = true;
    bool huge = false;   // now and then more than 65536 instructions
};
struct Gen {
    m::Program p; std::string input;
    m::Machine init, fin; size_t steps = 0, taken = 0, notTaken = 0, loads = 0, stores = 0, breaks = 0, rawHazards = 0, faultAt = 0;
    std::vector<bool> executed; std::vector<int64_t> trace; // executed ips
    uint64_t shape = 0; // hash of the executed opcode/operand-kind sequence
};
// throws Discard when no halting (or faulting, when wanted) execution results
Gen gen(Rng& g, const Cfg& c, const GenOpt& o);
m::Ins wildIns(Rng& g, const Cfg& c, const GenOpt& o, size_t textLen);
double genFloat(Rng& g);
std::string genInput(Rng& g);
}
