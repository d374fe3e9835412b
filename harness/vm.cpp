#include "vm.h"
#include <cmath>

namespace vm {
using namespace m;

t::Program parse(const std::string& text) {
    std::istringstream is(text);
    Parser p(is);
    return p.Parse();
}

static int64_t regNo(const t::Register& r) {
    if (r == t::Register::StackPointer()) return SP;
    if (r == t::Register::StackBasePointer()) return BP;
    if (r == t::Register::ProgramCounter()) return IP;
    return (int64_t)r.index();
}
static Opnd exOp(const t::Operand& o) {
    using T = t::Operand::Type;
    Opnd x;
    switch (o.getType()) {
        case T::Imm: return i(o.getValue());
        case T::FImm: return f(o.getFloatValue());
        case T::Reg: return r(regNo(o.getRegister()));
        case T::FReg: return fr((int64_t)o.getFloatRegister().index());
        case T::RegImm: x.k = RI; x.r1 = regNo(o.getRegisterOffset().reg()); x.imm = o.getRegisterOffset().offset(); return x;
        case T::MemImm: x.k = MI; x.imm = (int64_t)o.getMemoryImmediate().index(); return x;
        case T::MemReg: x.k = MR; x.r1 = regNo(o.getMemoryRegister().reg()); return x;
        case T::MemRegImm: { auto q = o.getMemoryRegisterOffset().regOffset(); x.k = MRI; x.r1 = regNo(q.reg()); x.imm = q.offset(); return x; }
        case T::MemRegReg: { auto q = o.getMemoryRegisterRegister().regReg(); x.k = MRR; x.r1 = regNo(q.reg1()); x.r2 = regNo(q.reg2()); return x; }
        case T::MemRegScaled: { auto q = o.getMemoryRegisterScaled().regScaled(); x.k = MRS; x.r1 = regNo(q.reg()); x.sc = q.scale(); return x; }
        case T::MemRegImmReg: { auto q = o.getMemoryRegisterOffsetRegister().regOffsetReg(); x.k = MRIR; x.r1 = regNo(q.regOffset().reg()); x.imm = q.regOffset().offset(); x.r2 = regNo(q.reg()); return x; }
        case T::MemRegRegScaled: { auto q = o.getMemoryRegisterRegisterScaled().regRegScaled(); x.k = MRRS; x.r1 = regNo(q.reg()); x.r2 = regNo(q.regScaled().reg()); x.sc = q.regScaled().scale(); return x; }
        case T::MemRegImmRegScaled: { auto q = o.getMemoryRegisterOffsetRegisterScaled().regOffsetRegScaled(); x.k = MRIRS; x.r1 = regNo(q.regOffset().reg()); x.imm = q.regOffset().offset(); x.r2 = regNo(q.regScaled().reg()); x.sc = q.regScaled().scale(); return x; }
        default: return x;
    }
}
Ins extract(const t::Instruction& ins) {
    Ins x; x.op = (Op)opByName(t::Instruction::typeToString(ins.type()));
    auto v = ins.signatureOperands();
    if (v.size() > 0) x.a = exOp(v[0]);
    if (v.size() > 1) x.b = exOp(v[1]);
    return x;
}
static t::Register tr(int64_t n) {
    if (n == SP) return t::Register::StackPointer();
    if (n == BP) return t::Register::StackBasePointer();
    if (n == IP) return t::Register::ProgramCounter();
    return t::Register((size_t)n);
}
static t::Operand op(const Opnd& o) {
    switch (o.k) {
        case I: return t::Operand(o.imm);
        case F: return t::Operand(o.f);
        case R: return t::Operand(tr(o.r1));
        case FR: return t::Operand(t::FloatRegister((size_t)o.r1));
        case RI: return t::Operand(tr(o.r1) + o.imm);
        case MI: return t::Operand(t::Mem((uint64_t)o.imm));
        case MR: return t::Operand(t::Mem(tr(o.r1)));
        case MRI: return t::Operand(t::Mem(tr(o.r1) + o.imm));
        case MRR: return t::Operand(t::Mem(tr(o.r1) + tr(o.r2)));
        case MRS: return t::Operand(t::Mem(tr(o.r1) * o.sc));
        case MRIR: return t::Operand(t::Mem(tr(o.r1) + o.imm + tr(o.r2)));
        case MRRS: return t::Operand(t::Mem(tr(o.r1) + tr(o.r2) * o.sc));
        case MRIRS: return t::Operand(t::Mem(tr(o.r1) + o.imm + tr(o.r2) * o.sc));
        default: abort();
    }
}
std::unique_ptr<t::Instruction> build(const Ins& x) {
    auto fr1 = [&] { return t::FloatRegister((size_t)x.a.r1); };
#define MK(T, ...) case T: return std::unique_ptr<t::Instruction>(new t::T(__VA_ARGS__));
    switch (x.op) {
#define B(T) MK(T, tr(x.a.r1), op(x.b))
        B(ADD) B(SUB) B(MUL) B(DIV) B(IMUL) B(IDIV) B(MOD) B(AND) B(OR) B(XOR) B(LSH) B(RSH) B(CMP) B(LEA) B(LOOP)
#undef B
#define B(T) MK(T, fr1(), op(x.b))
        B(FADD) B(FSUB) B(FMUL) B(FDIV) B(FCMP)
#undef B
        MK(EXT, fr1(), tr(x.b.r1))
        MK(NRW, tr(x.a.r1), t::FloatRegister((size_t)x.b.r1))
        MK(MOV, op(x.a), op(x.b))
#define B(T) MK(T, tr(x.a.r1))
        B(INC) B(DEC) B(NEG) B(NOT) B(POP) B(PUTCHAR) B(PUTNUM) B(GETCHAR)
#undef B
        MK(FPOP, fr1())
#define B(T) MK(T, op(x.a))
        B(JMP) B(JZ) B(JNZ) B(JE) B(JNE) B(JG) B(JGE) B(JL) B(JLE) B(JA) B(JAE) B(JB) B(JBE) B(JO) B(JNO) B(JS) B(JNS) B(CALL) B(PUSH) B(FPUSH)
#undef B
#define B(T) MK(T)
        B(HALT) B(NOP) B(BKPT) B(BREAK) B(RET) B(CLF)
#undef B
        default: abort();
    }
#undef MK
}
t::Program load(const Program& p) {
    std::vector<std::unique_ptr<t::Instruction>> v;
    for (auto& x : p.text) v.push_back(build(x));
    return t::Program(std::move(v), p.data);
}

Cfg randomCfg(Rng& g) {
    Cfg c;
    c.regs = g.chance(1, 4) ? 8 : g.range(2, 10);
    c.fregs = g.chance(1, 4) ? 4 : g.range(1, 5);
    if (g.chance(1, 4)) { c.alus = 1; c.rs = 2; c.gates = 4; }
    else { c.alus = g.range(1, 4); c.rs = g.range(1, 8); c.gates = g.range(1, 4); }
    c.mem = g.chance(1, 12) ? 1024 : g.range(12, 64);
    if (g.chance(1, 40)) { c.regs = g.chance(1, 3) ? g.range(200, 400) : g.range(11, 40); if (g.chance(1, 2)) c.fregs = g.range(6, 300); }
    if (g.chance(1, 80)) c.mem = g.range(1025, 3000);
    return c;
}
void widen(Rng& g, Cfg& c) { if (g.chance(1, 80)) c.mem = (size_t)g.pick({65536, 65537, 70000, 131072}) + g.below(300); }
std::string show(const Cfg& c) {
    return "regs=" + std::to_string(c.regs) + " fregs=" + std::to_string(c.fregs) + " alus=" + std::to_string(c.alus) + " rs=" + std::to_string(c.rs) + " mem=" + std::to_string(c.mem) + " gates=" + std::to_string(c.gates);
}
CinGuard::CinGuard(const std::string& input) : in(input) { ci = std::cin.rdbuf(in.rdbuf()); co = std::cout.rdbuf(out.rdbuf()); std::cin.clear(); std::cout.clear(); }
CinGuard::~CinGuard() { std::cin.rdbuf(ci); std::cout.rdbuf(co); std::cin.clear(); }

Machine snapshot(const t::Cpu& cpu, const Cfg& c) {
    Machine s(c.regs, c.fregs, c.mem);
    for (size_t k = 0; k < c.regs; ++k) s.R[k] = cpu.getRegister(t::Register(k));
    for (size_t k = 0; k < c.fregs; ++k) s.F[k] = bitsOf(cpu.getFloatRegister(t::FloatRegister(k)));
    s.sp = cpu.getRegister(t::Register::StackPointer());
    s.bp = cpu.getRegister(t::Register::StackBasePointer());
    s.ip = cpu.getRegister(t::Register::ProgramCounter());
    s.flags = cpu.getRegister(t::Register::Flags());
    for (size_t k = 0; k < c.mem; ++k) s.mem[k] = cpu.getMemory(k);
    return s;
}
RunResult run(const Cfg& c, t::Program&& p, const std::string& input, uint64_t maxTicks) {
    RunResult r;
    t::StatsLogger::instance().reset();
    CinGuard io(input);
    t::Cpu cpu(c.regs, c.fregs, c.alus, c.rs, c.mem, c.gates);
    try {
        cpu.start(std::move(p));
        while (!cpu.halted() && r.ticks < maxTicks) { cpu.tick(); ++r.ticks; }
        r.end = cpu.halted() ? RunResult::Halted : RunResult::Timeout;
    } catch (const std::exception& e) { r.end = RunResult::Error; r.what = e.what(); }
    r.st = snapshot(cpu, c);
    r.st.out = io.out.str();
    return r;
}

double genFloat(Rng& g) {
    switch (g.below(8)) {
        case 0: return (double)g.range(-8, 8);
        case 1: return g.range(-1000, 1000) / 8.0;
        case 2: return g.pick({0.0, 1.0, -1.0, 0.5, -0.5, 1e10, -1e10, 0.1, 3.14});
        case 3: return (double)g.value();
        case 4: return ldexp((double)g.range(-1000000, 1000000), (int)g.range(-60, 60));
        case 5: return g.pick({1.7976931348623157e308, -1.7976931348623157e308, 9223372036854775807.0, -9223372036854775808.0, 4503599627370497.5, 1e-5, 123456.7890123, 1e22});
        case 6: return ldexp((double)(int64_t)g.next(), (int)g.range(-300, 200));
        default: return g.range(-100, 100) * 0.01;
    }
}
std::string genInput(Rng& g) {
    std::string s; size_t n = g.below(6);
    for (size_t k = 0; k < n; ++k) { s += (char)g.range(33, 126); if (g.chance(1, 5)) s += g.pick({' ', '\n', '\t'}); }
    return s;
}

namespace {
struct G {
    Rng& g; const Cfg& c; const GenOpt& o; Gen res; Machine s;
    std::vector<int64_t> hotR; size_t L; std::vector<Ins> one;
    G(Rng& g_, const Cfg& c_, const GenOpt& o_) : g(g_), c(c_), o(o_), s(c_.regs, c_.fregs, c_.mem) {}

    int64_t reg(bool dest) {
        if (o.special && g.chance(1, 14)) {
            if (!dest && o.ipUse && g.chance(1, 5)) return IP;
            return g.chance(2, 3) ? (dest ? BP : SP) : BP;
        }
        return hotR.empty() ? g.below(c.regs) : g.pick(hotR);
    }
    int64_t freg() { return g.below(c.fregs); }
    int64_t val(int64_t n) { return n == SP ? s.sp : n == BP ? s.bp : n == IP ? s.ip + 1 : s.R[n]; }
    int64_t cst() { return !o.bigValues || g.chance(1, 2) ? g.range(-3, (int64_t)std::min<size_t>(o.memWork + 4, c.mem - 1)) : g.value(true); }
    int64_t cell() {
        if (g.chance(1, 8) && s.sp > 0 && (uint64_t)s.sp <= c.mem) { int64_t a = s.sp + g.range(-2, 2); if (a >= 0 && (uint64_t)a < c.mem) return a; }
        if (g.chance(1, 25)) return g.pick<int64_t>({0, (int64_t)c.mem - 1, (int64_t)g.below(c.mem)});
        return g.below(std::min<size_t>(o.memWork, c.mem));
    }
    static bool okLit(int64_t v) { return v != INT64_MIN; }
    // operand of kind k whose address (or value) is fine in the current state; nullopt if not found
    std::optional<Opnd> memOp(Kind k) {
        for (int tries = 0; tries < 6; ++tries) {
            Opnd x; x.k = k; uint64_t a = cell();
            x.r1 = reg(false); x.r2 = reg(false);
            uint64_t v1 = val(x.r1), v2 = val(x.r2);
            switch (k) {
                case MI: x.imm = a; return x;
                case MR: if (v1 < c.mem) return x; break;
                case MRI: x.imm = a - v1; if (okLit(x.imm)) return x; break;
                case MRR: if (v1 + v2 < c.mem) return x; break;
                case MRS:
                    if (v1 == 0) { x.sc = cst(); return x; }
                    if ((int64_t)v1 != -1 && (int64_t)a % (int64_t)v1 == 0) { x.sc = (int64_t)a / (int64_t)v1; return x; }
                    break;
                case MRIR: x.imm = a - v1 - v2; if (okLit(x.imm)) return x; break;
                case MRRS: {
                    x.sc = g.range(-3, 4); if (v1 + v2 * (uint64_t)x.sc < c.mem) return x;
                    int64_t d = (int64_t)(a - v1), q = (int64_t)v2;
                    if (q != 0 && q != -1 && d % q == 0) { x.sc = d / q; if (okLit(x.sc)) return x; }
                    break;
                }
                case MRIRS: x.sc = g.chance(1, 3) ? g.value(true) : g.range(-4, 8); x.imm = a - v1 - v2 * (uint64_t)x.sc; if (okLit(x.imm)) return x; break;
                default: break;
            }
        }
        return std::nullopt;
    }
    std::optional<Opnd> src(Kind k) {
        Opnd x;
        switch (k) {
            case None: return x;
            case I: return i(cst());
            case F: { double d = genFloat(g); return f(d); }
            case R: return r(reg(false));
            case FR: return fr(freg());
            case RI: x.k = RI; x.r1 = reg(false); x.imm = cst(); return x;
            default: return memOp(k);
        }
    }
    int64_t target() { // where a jump may go
        if (g.chance(1, 3)) { int64_t d = s.ip + 1 + g.range(0, 5); return std::min<int64_t>(d, L - 1); }
        return g.range(s.ip + 1 < (int64_t)L ? s.ip + 1 : 0, L - 1);
    }
    int64_t back() { return g.range(std::max<int64_t>(0, s.ip - 7), s.ip); }
    std::optional<Ins> tryIns() {
        Ins x;
        const Form& fo = pickForm();
        x.op = fo.op;
        switch (fo.op) {
            case HALT: case RET: case GETCHAR: case PUTCHAR: case PUTNUM: case BKPT: case BREAK: break;
            default: break;
        }
        if (fo.op == MOV || fo.op == LEA || (fo.op >= ADD && fo.op <= RSH) || fo.op == CMP || (fo.op >= FADD && fo.op <= NRW) || fo.op == FCMP) {
            if (fo.a == R) x.a = r(reg(true)); else if (fo.a == FR) x.a = fr(freg()); else { auto q = memOp(fo.a); if (!q) return std::nullopt; x.a = *q; }
            if (fo.op == LEA) { // any registers
                x.b.k = fo.b; x.b.r1 = reg(false); x.b.r2 = reg(false); x.b.imm = cst(); x.b.sc = g.chance(1, 3) ? g.value(true) : g.range(-4, 8);
            } else { auto q = src(fo.b); if (!q) return std::nullopt; x.b = *q; }
            if ((fo.op == LSH || fo.op == RSH) && x.b.k == I && g.chance(1, 2)) x.b.imm = g.range(0, 66);
            if (fo.op == MOV && fo.a == R && fo.b == I && g.chance(1, 4)) x.b.imm = g.range(1, 6);
            return x;
        }
        if (fo.op == INC || fo.op == DEC || fo.op == NEG || fo.op == NOT) { x.a = r(reg(true)); return x; }
        if (fo.op == PUSH) { x.a = fo.a == R ? r(reg(false)) : i(cst()); return x; }
        if (fo.op == FPUSH) { x.a = fo.a == FR ? fr(freg()) : f(genFloat(g)); return x; }
        if (fo.op == POP) { x.a = r(g.chance(1, 20) && o.special ? SP : reg(true)); return x; }
        if (fo.op == FPOP) { x.a = fr(freg()); return x; }
        if (fo.op == PUTCHAR || fo.op == PUTNUM) { if (!o.io) return std::nullopt; x.a = r(reg(false)); return x; }
        if (fo.op == GETCHAR) { if (!o.getchar) return std::nullopt; x.a = r(g.below(c.regs)); return x; }
        if (fo.op == NOP) return x;
        if (fo.op == BREAK) { if (!o.brk || g.chance(3, 4)) return std::nullopt; return x; }
        if (fo.op == BKPT) { if (!o.bkpt || g.chance(3, 4)) return std::nullopt; return x; }
        return std::nullopt;
    }
    const Form& pickForm() {
        static std::vector<size_t> light; // opcode-uniform choice, then form-uniform
        static std::map<int, std::vector<size_t>> byOp;
        if (byOp.empty()) { auto& fs = forms(); for (size_t k = 0; k < fs.size(); ++k) byOp[fs[k].op].push_back(k); }
        int op;
        if (g.chance(2, 5)) op = MOV;
        else if (g.chance(1, 8)) op = g.pick({PUSH, POP, FPUSH, FPOP, PUSH, POP});
        else op = g.below(CLF);
        while (!byOp.count(op)) op = g.below(CLF);
        return forms()[g.pick(byOp[op])];
    }
    // jump-type instruction in the current state
    std::optional<Ins> tryJump() {
        Ins x; int64_t tgt = target();
        auto viaOpnd = [&](int64_t to, bool memOk) -> std::optional<Opnd> {
            if (g.chance(3, 5)) return i(to);
            // a register or cell that currently holds a fine target
            std::vector<Opnd> c2;
            for (size_t k = 0; k < c.regs; ++k) if (s.R[k] > s.ip && s.R[k] < (int64_t)L) c2.push_back(r(k));
            if (memOk) for (size_t a = 0; a < c.mem; ++a) if (s.mem[a] > s.ip && s.mem[a] < (int64_t)L) { Opnd q; q.k = MI; q.imm = a; c2.push_back(q); int64_t b = reg(false); q.k = MRI; q.r1 = b; q.imm = (int64_t)(a - (uint64_t)val(b)); if (okLit(q.imm)) c2.push_back(q); for (size_t k = 0; k < c.regs; ++k) if (s.R[k] == (int64_t)a) { q.k = MR; q.r1 = k; c2.push_back(q); } }
            if (c2.empty()) return i(to);
            return g.pick(c2);
        };
        switch (g.below(o.calls ? 10 : 6)) {
            case 0: x.op = JMP; x.a = *viaOpnd(tgt, false); return x;
            case 1: case 2: case 3: {
                x.op = (Op)g.range(JZ, JNS);
                bool t = cond(x.op, s.flags);
                if (!t && g.chance(1, 3)) { // not taken: the operand may be anything loadable
                    if (g.chance(1, 2)) { auto q = memOp(g.pick({MI, MR, MRI})); if (q) { x.a = *q; return x; } }
                    x.a = g.chance(1, 2) ? i(back()) : r(reg(false)); return x;
                }
                x.a = *viaOpnd(tgt, true); return x;
            }
            case 4: case 5: { // loop
                for (int k = 0; k < 6; ++k) { int64_t q = hotR.empty() ? g.below(c.regs) : g.pick(hotR); if (s.R[q] >= 1 && s.R[q] <= 6) { x.op = LOOP; x.a = r(q); x.b = i(g.chance(3, 4) ? back() : tgt); return x; } }
                return std::nullopt;
            }
            case 6: case 7: if (s.sp > 0 && (uint64_t)s.sp <= c.mem) { x.op = CALL; x.a = *viaOpnd(tgt, false); return x; } return std::nullopt;
            default:
                if ((uint64_t)s.sp < c.mem && s.mem[s.sp] >= 0 && s.mem[s.sp] < (int64_t)L && (s.mem[s.sp] > s.ip || g.chance(1, 2))) { x.op = RET; return x; }
                return std::nullopt;
        }
    }
    bool acceptable(const Ins& x) { // does it run without a fault now?
        Machine t2 = s;
        // run in place: a text with the instruction at ip
        if (one.size() < L) one.resize(L);
        one[s.ip] = x;
        t2.status = Machine::Running; step(one, t2); one[s.ip] = Ins();
        if (t2.status == Machine::Fault) return false;
        // keep the stack pointer usable
        if (t2.sp < 0 || (uint64_t)t2.sp > c.mem) return g.chance(1, 30);
        return true;
    }
    Ins make() {
        if (o.faultPct && (int)g.below(100) < o.faultPct) {
            for (int k = 0; k < 60; ++k) {
                Ins x = wildIns(g, c, o, L);
                if (k > 30 && g.chance(1, 2)) { x = Ins(); x.op = g.pick({DIV, IDIV}); x.a = r(g.below(c.regs)); x.b = i(0); }
                std::vector<Ins> one((size_t)s.ip + 1); one[s.ip] = x; Machine t2 = s; step(one, t2);
                if (t2.status == Machine::Fault) return x;
            }
        }
        for (int k = 0; k < 40; ++k) {
            auto x = g.chance(1, 5) ? tryJump() : tryIns();
            if (x && acceptable(*x)) return *x;
        }
        Ins x; x.op = MOV; x.a = r(g.below(c.regs)); x.b = i(g.range(0, o.memWork)); return x;
    }
    Gen go() {
        L = g.range(o.minLen, o.maxLen);
        if (g.chance(1, 80)) L = g.range(200, 700); else if (o.huge && g.chance(1, 600)) L = g.range(65536, 67000);
        if ((int)g.below(100) < o.hazardPct) { size_t n = g.range(1, 3); for (size_t k = 0; k < n; ++k) hotR.push_back(g.below(c.regs)); }
        if (g.chance(2, 3)) { size_t n = g.below(std::min<size_t>(c.mem, 9)); for (size_t k = 0; k < n; ++k) res.p.data.push_back(g.chance(1, 2) ? (int64_t)g.below(L) : g.value(true)); }
        res.input = o.getchar ? genInput(g) : "";
        s.load(res.p); s.in = res.input; res.init = s;
        size_t budget = o.maxSteps; std::vector<Ins> text(L);
        uint64_t lastW = ~0ull; size_t lastWAt = 0;
        std::vector<bool> made(L, false);
        while (s.status == Machine::Running) {
            if (res.steps >= budget) throw Discard{};
            if (s.ip < 0 || s.ip >= (int64_t)L) throw Discard{};
            if (!made[s.ip]) {
                made[s.ip] = true;
                bool end = s.ip == (int64_t)L - 1 || res.steps > budget / 2 || g.chance(1, 4 * (int)L);
                if (end) { text[s.ip] = Ins(); text[s.ip].op = HALT; }
                else text[s.ip] = make();
            }
            const Ins x = text[s.ip];
            res.trace.push_back(s.ip);
            res.shape = Rng::mix(res.shape * 31 + x.op * 1000 + x.a.k * 20 + x.b.k);
            int64_t at = s.ip;
            auto inf = step(text, s);
            ++res.steps;
            if (s.status == Machine::Breakpoint) s.status = Machine::Running;
            if (s.status == Machine::Fault) res.faultAt = at;
            if (inf.wrote) { ++res.stores; lastW = inf.addr; lastWAt = res.steps; }
            if (inf.read) { ++res.loads; if (inf.raddr == lastW && res.steps - lastWAt < 6) ++res.rawHazards; }
            if (inf.jumped) { if (inf.taken) ++res.taken; else ++res.notTaken; }
            if (inf.brk) ++res.breaks;
        }
        if (s.ambiguous) throw Discard{};
        if (o.wantFault != (s.status == Machine::Fault)) throw Discard{};
        for (size_t k = 0; k < L; ++k) if (!made[k]) { if (o.wildRest) text[k] = wildIns(g, c, o, L); }
        res.p.text = text; res.fin = s; res.executed = made;
        return std::move(res);
    }
};
}
Gen gen(Rng& g, const Cfg& c, const GenOpt& o) {
    for (int k = 0; k < 12; ++k) {
        try { G x(g, c, o); return x.go(); } catch (Discard&) {}
    }
    throw Discard{};
}
Ins wildIns(Rng& g, const Cfg& c, const GenOpt& o, size_t L) {
    while (true) {
        const Form& fo = forms()[g.below(forms().size())];
        Ins x; x.op = fo.op;
        auto op = [&](Kind k) {
            Opnd q; q.k = k;
            auto rg = [&]() -> int64_t { if (o.invalidRegs && g.chance(1, 30)) return g.pick<int64_t>({(int64_t)c.regs, (int64_t)c.regs + 1, 100}); if (g.chance(1, 10)) return g.pick({SP, BP, o.ipUse ? IP : BP}); return g.below(c.regs); };
            q.r1 = k == FR ? (o.invalidRegs && g.chance(1, 30) ? (int64_t)c.fregs : (int64_t)g.below(c.fregs)) : rg();
            q.r2 = rg(); q.imm = g.chance(1, 2) ? g.range(-2, (int64_t)L + 2) : g.value(true); q.sc = g.chance(1, 2) ? g.range(-4, 8) : g.value(true);
            q.f = genFloat(g);
            return q;
        };
        x.a = op(fo.a); x.b = op(fo.b);
        // the instruction pointer is not a legal destination of anything but jumps
        bool destReg = x.a.k == R && !(x.op == CMP || x.op == JMP || x.op == CALL || x.op == PUSH || isCondJump(x.op) || x.op == PUTCHAR || x.op == PUTNUM);
        if (destReg && x.a.r1 == IP) continue;
        return x;
    }
}
}
