// Independent executable model of the T86 machine: instructions as plain data, a sequential
// interpreter, a printer, a strict reader of the documented text format. Written from docs/t86-isa.md,
// docs/t86.md; shares no code with /repo.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <optional>
#include <map>
#include "rng.h"

namespace m {

#define M_OPS(X) X(MOV) X(LEA) X(NOP) X(HALT) X(BREAK) X(BKPT) X(ADD) X(SUB) X(INC) X(DEC) X(NEG) X(MUL) X(DIV) X(IMUL) X(IDIV) \
  X(AND) X(OR) X(XOR) X(NOT) X(LSH) X(RSH) X(CMP) X(FCMP) X(JMP) X(LOOP) X(JZ) X(JNZ) X(JE) X(JNE) X(JG) X(JGE) X(JL) X(JLE) \
  X(JA) X(JAE) X(JB) X(JBE) X(JO) X(JNO) X(JS) X(JNS) X(CALL) X(RET) X(PUSH) X(FPUSH) X(POP) X(FPOP) X(PUTCHAR) X(PUTNUM) \
  X(GETCHAR) X(FADD) X(FSUB) X(FMUL) X(FDIV) X(EXT) X(NRW) X(MOD) X(CLF)

enum Op {
#define X(n) n,
  M_OPS(X)
#undef X
  OP_COUNT
};
const char* opName(int op);
int opByName(const std::string& s); // -1: unknown

// register numbers of the named registers
constexpr int64_t SP = 1ll << 40, BP = SP + 1, IP = SP + 2;

enum Kind { None, I, F, R, FR, RI, MI, MR, MRI, MRR, MRS, MRIR, MRRS, MRIRS };
const char* kindName(int k);

struct Opnd {
    Kind k = None;
    int64_t r1 = 0, r2 = 0; // registers (r1 also holds a float register index)
    int64_t imm = 0;        // constant / displacement
    int64_t sc = 0;         // scale
    double f = 0;
    bool operator==(const Opnd& o) const;
};
Opnd i(int64_t v); Opnd f(double v); Opnd r(int64_t n); Opnd fr(int64_t n);

struct Ins {
    Op op = NOP;
    Opnd a, b;
    bool operator==(const Ins& o) const { return op == o.op && a == o.a && b == o.b; }
};

// printing --------------------------------------------------------------------------------
struct Style { Rng* rng = nullptr; }; // no rng: canonical spelling
std::string show(const Opnd& o, Rng* style = nullptr);
std::string show(const Ins& i, Rng* style = nullptr);
std::string showFloat(double d);
struct Program {
    std::vector<Ins> text;
    std::vector<int64_t> data;
};
// full executable text
std::string show(const Program& p, Rng* style = nullptr);

// legality of an instruction in the text format
bool legal(const Ins& i);
// kinds allowed as (first, second) operand for an opcode
struct Form { Op op; Kind a, b; };
const std::vector<Form>& forms();      // every legal (op, kind, kind) of the text format

// reading: strict reference reader of the text format ----------------------------------------
struct ReadResult {
    enum { Ok, Reject, Unspecified } status = Reject;
    std::string why;
    Program prog;
};
ReadResult readProgram(const std::string& text, bool lenientRegs = false); // lenientRegs: R<anything> is R<leading digits>
std::optional<Ins> readIns(const std::string& text); // exactly one canonical instruction, no address

// machine ------------------------------------------------------------------------------------
struct Machine {
    std::vector<int64_t> R;
    std::vector<uint64_t> F; // bit patterns
    int64_t sp = 0, bp = 0, ip = 0, flags = 0;
    std::vector<int64_t> mem;
    std::string out;
    std::string in; size_t inPos = 0;
    enum Status { Running, Halted, Fault, Breakpoint } status = Running;
    std::string fault;
    bool ambiguous = false; // result depends on unspecified NaN payload selection
    Machine() = default;
    Machine(size_t regs, size_t fregs, size_t memSize) : R(regs), F(fregs), sp((int64_t)memSize), bp((int64_t)memSize), mem(memSize) {}
    bool load(const Program& p); // false: data does not fit
    double fval(size_t i) const;
};
struct StepInfo {
    bool wrote = false; uint64_t addr = 0; // memory write performed
    bool read = false; uint64_t raddr = 0;
    bool jumped = false; bool taken = false;
    bool brk = false;
};
// Executes one instruction. On Fault nothing is changed except status. BKPT: ip advanced, status Breakpoint
// (the caller resets it). Out-of-text ip executes NOP.
StepInfo step(const std::vector<Ins>& text, Machine& s);
bool same(const Machine& a, const Machine& b, std::string* why, bool ignoreFlags = false);
std::string dump(const Machine& s);

// arithmetic oracle
struct AluOut { int64_t v; int64_t fl; bool fault; };
AluOut alu(Op op, int64_t x, int64_t y);
double falu(Op op, double x, double y, int64_t& fl);
bool cond(Op op, int64_t flags);
uint64_t bitsOf(double d); double ofBits(uint64_t b);
bool isCondJump(int op);
}
