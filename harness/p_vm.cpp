// C01..C04: the bare machine against the sequential model
#include "vm.h"
#include <cmath>
extern "C" __attribute__((weak)) size_t __sanitizer_get_current_allocated_bytes(void);
#include "t86/os.h"
#include <unistd.h>
#include <sys/wait.h>
#include "t86/program/programbuilder.h"
#include "common/config.h"
using namespace vm;
using m::Machine;

static void compareRun(Ctx& c, const Cfg& cfg, const Gen& gn, t::Program&& prog, bool flags = true) {
    uint64_t bound = 1000 + 80 * (gn.steps + 5);
    auto r = run(cfg, std::move(prog), gn.input, bound);
    c.eval(); c.count("instructions", gn.steps); c.count("ticks", r.ticks);
    if (gn.fin.status == Machine::Halted) {
        if (r.end == RunResult::Error) c.fail("error", "halting program ended in CPU error: " + r.what);
        if (r.end == RunResult::Timeout) c.fail("timeout", "program of " + std::to_string(gn.steps) + " steps did not halt within " + std::to_string(bound) + " ticks");
        std::string why;
        if (!m::same(gn.fin, r.st, &why)) c.fail("state", "state after halt differs: " + why);
    } else {
        if (r.end == RunResult::Halted) c.fail("nofault", "program whose instruction at " + std::to_string(gn.faultAt) + " faults (" + gn.fin.fault + ") halted normally");
        if (r.end == RunResult::Timeout) c.fail("timeout", "faulting program did not stop");
        Machine e = gn.fin; std::string why;
        // the reported instruction pointer is at the faulting instruction or just after it
        if (r.st.ip != e.ip && r.st.ip != e.ip + 1) c.fail("ip", "instruction pointer at the fault: expected " + std::to_string(e.ip) + " (or next), got " + std::to_string(r.st.ip));
        e.ip = r.st.ip;
        if (!m::same(e, r.st, &why)) c.fail("state", "state at the fault differs: " + why);
    }
    (void)flags;
}
static void describe(Ctx& c, const Cfg& cfg, const Gen& gn, const std::string& text) {
    c.detail = "config: " + show(cfg) + "\ninput: " + gn.input + "\nprogram:\n" + text + "\nexecuted:";
    for (size_t k = 0; k < gn.trace.size() && k < 300; ++k) c.detail += " " + std::to_string(gn.trace[k]);
    c.detail += "\nexpected end: " + m::dump(gn.fin);
}
static void cover(Ctx& c, const Cfg& cfg, const Gen& gn) {
    c.feature(gn.shape); // distinct executed opcode/operand-kind sequences
    c.count("jumps_taken", gn.taken); c.count("jumps_not_taken", gn.notTaken); c.count("loads", gn.loads); c.count("stores", gn.stores);
    c.count("store_load_hazards", gn.rawHazards);
    c.count("cfg_alu" + std::to_string(cfg.alus)); c.count("cfg_rs" + std::to_string(cfg.rs)); c.count("cfg_gates" + std::to_string(cfg.gates));
}
static void runGen(Ctx& c, GenOpt o, bool io) {
    Cfg cfg = randomCfg(c.rng); widen(c.rng, cfg); o.huge = true;
    o.io = io;
    Gen gn = gen(c.rng, cfg, o);
    std::string text = m::show(gn.p);
    describe(c, cfg, gn, text);
    c.sample(c.detail.substr(0, 600));
    cover(c, cfg, gn);
    compareRun(c, cfg, gn, load(gn.p));
}
// general mix
static void vmMix(Ctx& c) { GenOpt o; runGen(c, o, c.rng.chance(1, 4)); }
// short programs, few registers and cells: dependence patterns
static void vmHazard(Ctx& c) {
    GenOpt o; o.minLen = 3; o.maxLen = 14; o.hazardPct = 100; o.memWork = c.rng.range(1, 3); o.bigValues = c.rng.chance(1, 3);
    runGen(c, o, false);
}
// long executions with loops and calls
static void vmLong(Ctx& c) { GenOpt o; o.minLen = 20; o.maxLen = 80; o.maxSteps = 2500; o.bigValues = c.rng.chance(1, 2); runGen(c, o, true); }
// stack heavy
static void vmStack(Ctx& c) {
    // PUSH/POP/CALL/RET dominated code is produced by a dedicated hand generator
    Cfg cfg = randomCfg(c.rng); Rng& g = c.rng; widen(g, cfg);
    size_t nf = g.range(1, 4); m::Program p; std::vector<size_t> starts;
    std::vector<std::vector<m::Ins>> body(nf + 1);
    auto mk = [&](m::Op op, m::Opnd a = {}, m::Opnd b = {}) { m::Ins x; x.op = op; x.a = a; x.b = b; return x; };
    auto rr = [&] { return m::r(g.below(cfg.regs)); };
    for (size_t k = 0; k <= nf; ++k) {
        auto& b = body[k]; int depth = 0; size_t n = g.range(1, 7);
        bool frame = k > 0 && g.chance(1, 2);
        if (frame) { b.push_back(mk(m::PUSH, m::r(m::BP))); b.push_back(mk(m::MOV, m::r(m::BP), m::r(m::SP))); }
        for (size_t j = 0; j < n; ++j) switch (g.below(9)) {
            case 0: case 1: b.push_back(mk(m::PUSH, g.chance(1, 2) ? rr() : m::i(g.value(true)))); ++depth; break;
            case 2: b.push_back(mk(m::FPUSH, g.chance(1, 2) ? m::fr(g.below(cfg.fregs)) : m::f(genFloat(g)))); ++depth; break;
            case 3: if (depth) { b.push_back(mk(m::POP, rr())); --depth; } break;
            case 4: if (depth) { b.push_back(mk(m::FPOP, m::fr(g.below(cfg.fregs)))); --depth; } break;
            case 5: case 6: if (k < nf) { m::Ins x = mk(m::CALL, m::i(-1000 - (int64_t)g.range(k + 1, nf))); b.push_back(x); } break;
            case 7: b.push_back(mk(m::ADD, rr(), g.chance(1, 2) ? rr() : m::i(g.small()))); break;
            case 8: { m::Opnd q; q.k = m::MRI; q.r1 = g.chance(1, 2) || !frame ? m::SP : m::BP; q.imm = frame && q.r1 == m::BP ? g.range(-2, 1) : g.range(0, std::max(depth - 1, 0)); if (q.r1 == m::SP && depth == 0) break; if (g.chance(1, 2)) b.push_back(mk(m::MOV, rr(), q)); else if (q.imm < (q.r1 == m::SP ? depth : 0)) b.push_back(mk(m::MOV, q, rr())); break; }
        }
        while (depth--) b.push_back(g.chance(1, 4) ? mk(m::ADD, m::r(m::SP), m::i(1)) : mk(m::POP, rr()));
        if (frame) b.push_back(mk(m::POP, m::r(m::BP)));
        b.push_back(mk(k == 0 ? m::HALT : m::RET));
    }
    for (auto& b : body) { starts.push_back(p.text.size()); p.text.insert(p.text.end(), b.begin(), b.end()); }
    for (auto& x : p.text) if (x.op == m::CALL && x.a.imm <= -1000) x.a.imm = starts[-1000 - x.a.imm];
    Gen gn; gn.p = p; Machine s(cfg.regs, cfg.fregs, cfg.mem); s.load(p);
    while (s.status == Machine::Running) { if (++gn.steps > 1500) throw Discard{}; gn.trace.push_back(s.ip); gn.faultAt = s.ip; auto& x = p.text[s.ip]; gn.shape = Rng::mix(gn.shape * 31 + x.op * 100 + x.a.k * 10 + x.b.k); auto inf = m::step(p.text, s); gn.stores += inf.wrote; gn.loads += inf.read; gn.taken += inf.taken; if ((uint64_t)s.ip >= p.text.size()) throw Discard{}; }
    if (s.ambiguous) throw Discard{};
    gn.fin = s;
    std::string text = m::show(p);
    describe(c, cfg, gn, text); cover(c, cfg, gn);
    compareRun(c, cfg, gn, load(gn.p));
}
// the library's own instructions (MOD, CLF), mixed in
static void vmLibrary(Ctx& c) {
    Rng& g = c.rng; Cfg cfg = randomCfg(g); GenOpt o; o.maxLen = 20;
    Gen gn = gen(g, cfg, o);
    for (auto& x : gn.p.text) {
        if ((x.op == m::AND || x.op == m::XOR || x.op == m::OR || x.op == m::SUB || x.op == m::ADD) && g.chance(1, 2)) x.op = m::MOD;
        else if ((x.op == m::NOP || x.op == m::CMP) && g.chance(1, 2)) { x = m::Ins(); x.op = m::CLF; }
    }
    Machine s = gn.init; gn.trace.clear(); gn.steps = 0; gn.shape = 0; size_t brk = 0;
    while (s.status == Machine::Running) {
        if (++gn.steps > 1500 || (uint64_t)s.ip >= gn.p.text.size()) throw Discard{};
        gn.trace.push_back(s.ip); gn.faultAt = s.ip; auto& x = gn.p.text[s.ip]; gn.shape = Rng::mix(gn.shape * 31 + x.op * 100 + x.a.k * 10 + x.b.k);
        auto inf = m::step(gn.p.text, s); brk += inf.brk;
        if (s.status == Machine::Breakpoint) s.status = Machine::Running;
    }
    if (s.ambiguous) throw Discard{};
    gn.fin = s;
    describe(c, cfg, gn, m::show(gn.p)); cover(c, cfg, gn);
    std::vector<std::unique_ptr<t::Instruction>> v;
    for (auto& x : gn.p.text) v.push_back(build(x));
    compareRun(c, cfg, gn, t::Program(std::move(v), gn.p.data));
}

// C02: one opcode at a time, boundary operands, every operand form, all flags on entry
static void aluOps(Ctx& c) {
    Rng& g = c.rng; Cfg cfg; cfg.regs = 6; cfg.fregs = 3; cfg.mem = 32; cfg.alus = g.range(1, 2); cfg.rs = g.range(1, 4); cfg.gates = g.range(1, 4);
    auto& fs = m::forms();
    const m::Form& fo = fs[(c.index + c.seed * 7919) % fs.size()];
    if (fo.op == m::HALT || fo.op == m::GETCHAR) throw Discard{};
    // memory cells hold the interesting values; literals cannot hold every one
    m::Program p; auto mk = [&](m::Op op, m::Opnd a = {}, m::Opnd b = {}) { m::Ins x; x.op = op; x.a = a; x.b = b; p.text.push_back(x); };
    auto cellOp = [&](int64_t a) { m::Opnd q; q.k = m::MI; q.imm = a; return q; };
    auto val = [&]() -> int64_t {
        if (fo.op == m::LSH || fo.op == m::RSH) return g.chance(1, 2) ? g.range(0, 66) : g.value();
        return g.value();
    };
    int64_t x = g.value(), y = val(); if (g.chance(1, 8)) y = x; if (g.chance(1, 16)) y = (int64_t)(0 - (uint64_t)x);
    if (g.chance(1, 3)) { // the result of +, - (and comparisons) lands on or next to a boundary
        uint64_t t = (uint64_t)g.pick<int64_t>({INT64_MAX, INT64_MIN, 0, 1, -1, INT64_MAX - 1, INT64_MIN + 1});
        y = (int64_t)(g.chance(1, 2) ? (uint64_t)x - t : t - (uint64_t)x);
        if (g.chance(1, 4)) { x = (int64_t)(t / 2 + g.range(-1, 1)); y = 2; }
        if (g.chance(1, 8)) { int sh = (int)g.range(1, 62); x = (int64_t)((1ull << sh) + g.range(-1, 1)); y = (int64_t)((1ull << g.pick({63 - sh, 64 - sh, 62 - sh > 0 ? 62 - sh : 1})) + g.range(-1, 1)); if (g.chance(1, 2)) x = -x; if (g.chance(1, 3)) y = -y; }
    }
    if (g.chance(1, 10)) { x = g.pick<int64_t>({INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1}); y = g.pick<int64_t>({1, -1, 2, -2, 0}); }
    for (int k = 0; k < 8; ++k) p.data.push_back(0);
    m::Machine s(cfg.regs, cfg.fregs, cfg.mem);
    // INT64_MIN has no literal: it is computed
    auto setReg = [&](int rg, int64_t v) {
        if (v == INT64_MIN) { mk(m::MOV, m::r(rg), m::i(INT64_MIN + 1)); mk(m::DEC, m::r(rg)); }
        else mk(m::MOV, m::r(rg), m::i(v));
    };
    setReg(0, x); setReg(1, y);
    double fx = genFloat(g), fy = genFloat(g);
    if (g.chance(1, 6)) { // special values by bit pattern
        setReg(2, g.pick<int64_t>({0x7ff0000000000000, (int64_t)0xfff0000000000000, 0x7ff8000000000000, (int64_t)0x8000000000000000, 1, 0x000fffffffffffff, 0x7fefffffffffffff}));
        mk(m::MOV, m::fr(0), m::r(2));
    } else mk(m::MOV, m::fr(0), m::f(fx));
    if (g.chance(1, 8)) { setReg(2, g.value()); mk(m::MOV, m::fr(1), m::r(2)); } else mk(m::MOV, m::fr(1), m::f(g.chance(1, 6) ? fx : fy));
    mk(m::MOV, cellOp(3), m::r(1)); mk(m::MOV, cellOp(4), m::r(0));
    // known flags on entry
    setReg(4, g.value()); setReg(5, g.value()); mk(g.pick({m::ADD, m::SUB, m::CMP, m::MUL, m::IMUL, m::LSH}), m::r(4), m::r(5));
    mk(m::MOV, m::r(2), m::i(3)); mk(m::MOV, m::r(3), m::i(1));
    size_t at = p.text.size();
    m::Ins ins; ins.op = fo.op;
    auto opnd = [&](m::Kind k, bool first) {
        m::Opnd q; q.k = k;
        switch (k) {
            case m::R: q.r1 = first ? 0 : g.chance(1, 8) ? 0 : 1; break;
            case m::FR: q.r1 = first ? 0 : g.chance(1, 8) ? 0 : 1; break;
            case m::I: q.imm = y == INT64_MIN ? INT64_MIN + 1 : y; break;
            case m::F: q.f = fy; break;
            case m::RI: q.r1 = 3; q.imm = (int64_t)((uint64_t)y - 1) == INT64_MIN ? 0 : (int64_t)((uint64_t)y - 1); break;
            case m::MI: q.imm = 3; break;
            case m::MR: q.r1 = 2; break;
            case m::MRI: q.r1 = 3; q.imm = 2; break;
            case m::MRR: q.r1 = 2; q.r2 = 3; break;
            case m::MRS: q.r1 = 2; q.sc = 1; break;
            case m::MRIR: q.r1 = 2; q.imm = -1; q.r2 = 3; break;
            case m::MRRS: q.r1 = 3; q.r2 = 2; q.sc = g.range(0, 5); break;
            case m::MRIRS: q.r1 = 2; q.imm = g.range(0, 2); q.r2 = 3; q.sc = g.range(0, 4); break;
            default: break;
        }
        return q;
    };
    ins.a = opnd(fo.a, true); ins.b = opnd(fo.b, false);
    bool jump = m::isCondJump(fo.op) || fo.op == m::JMP || fo.op == m::CALL || fo.op == m::LOOP;
    int64_t tgt = at + 3;
    if (fo.op == m::LEA && g.chance(1, 2)) { ins.b.r1 = 0; ins.b.r2 = 1; ins.b.imm = g.value(true); ins.b.sc = g.value(true); }
    if (jump) {
        // target tgt through the operand
        m::Opnd& q = fo.op == m::LOOP ? ins.b : ins.a;
        p.text.insert(p.text.begin() + at - 2, m::Ins{m::MOV, cellOp(3), m::i(tgt + 1)}); ++at; ++tgt; // tgt+1 counted for the inserted line
        p.text[at - 3].b.imm = tgt;
        if (q.k == m::I) q.imm = tgt;
        if (q.k == m::R) { q.r1 = 1; p.text.insert(p.text.begin() + at - 2, m::Ins{m::MOV, m::r(1), m::i(0)}); ++at; ++tgt; p.text[at - 3].b.imm = tgt; for (auto& z : p.text) if (z.op == m::MOV && z.a.k == m::MI && z.a.imm == 3 && z.b.k == m::I) z.b.imm = tgt; }
        if (fo.op == m::LOOP) { ins.a = m::r(0); if (g.chance(1, 2)) { p.text.insert(p.text.begin() + at - 2, m::Ins{m::MOV, m::r(0), m::i(g.range(-1, 2))}); ++at; ++tgt; if (q.k == m::I) q.imm = tgt; for (auto& z : p.text) { if (z.op == m::MOV && z.a.k == m::MI && z.a.imm == 3 && z.b.k == m::I) z.b.imm = tgt; if (q.k == m::R && z.op == m::MOV && z.a.k == m::R && z.a.r1 == 1 && z.b.k == m::I && z.b.imm == tgt - 1) z.b.imm = tgt; } } }
    }
    if (fo.op == m::RET) { mk(m::PUSH, m::i((int64_t)p.text.size() + 4)); }
    if (fo.op == m::POP || fo.op == m::FPOP) mk(m::PUSH, m::r(1));
    p.text.push_back(ins);
    // a conditional jump whose outcome is visible, then the end
    m::Op jc = (m::Op)g.range(m::JZ, m::JNS); int64_t here = p.text.size();
    if (!jump && fo.op != m::RET) { mk(jc, m::i(here + 2)); mk(m::MOV, m::r(5), m::i(77)); mk(m::HALT); }
    else { mk(m::MOV, m::r(5), m::i(77)); mk(m::HALT); mk(m::MOV, m::r(5), m::i(99)); mk(m::HALT); mk(m::HALT); }
    Gen gn; gn.p = p; s.load(p);
    while (s.status == Machine::Running) { if (++gn.steps > 200) throw Discard{}; gn.trace.push_back(s.ip); gn.faultAt = s.ip; m::step(p.text, s); if (s.status == Machine::Breakpoint) s.status = Machine::Running; if ((uint64_t)s.ip > p.text.size()) throw Discard{}; }
    if (s.ambiguous) throw Discard{};
    gn.fin = s;
    std::string text = m::show(p);
    describe(c, cfg, gn, text);
    // feature: opcode form with operand classes and resulting flags
    auto cls = [](int64_t v) { return v == 0 ? 0 : v == 1 ? 1 : v == -1 ? 2 : v == INT64_MIN ? 3 : v == INT64_MAX ? 4 : v > 0 ? (v < 64 ? 5 : v < (1ll << 32) ? 6 : 7) : (v > -64 ? 8 : v > -(1ll << 32) ? 9 : 10); };
    c.feature(std::string(m::opName(fo.op)) + m::kindName(fo.a) + m::kindName(fo.b) + std::to_string(cls(x)) + "," + std::to_string(cls(y)) + "," + std::to_string(s.flags) + (s.status == Machine::Fault ? "!" : ""));
    c.count(std::string("op_") + m::opName(fo.op)); if (s.status == Machine::Fault) c.count("faulting");
    compareRun(c, cfg, gn, load(gn.p));
}
static void aluLib(Ctx& c) {
    Rng& g = c.rng; Cfg cfg; cfg.regs = 4; cfg.fregs = 1; cfg.mem = 16;
    int64_t x = g.value(), y = g.value();
    if (g.chance(1, 6)) { x = g.pick<int64_t>({INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1}); y = g.pick<int64_t>({1, -1, 2, -2, 0}); }
    m::Program p; p.data = {x, y};
    auto mk = [&](m::Op op, m::Opnd a = {}, m::Opnd b = {}) { m::Ins q; q.op = op; q.a = a; q.b = b; p.text.push_back(q); };
    m::Opnd c0; c0.k = m::MI; c0.imm = 0; m::Opnd c1 = c0; c1.imm = 1;
    mk(m::MOV, m::r(0), c0); mk(m::MOV, m::r(1), c1);
    if (g.chance(1, 4)) { mk(m::CMP, m::r(0), m::r(1)); mk(m::CLF); }
    else { m::Opnd q = m::r(1); switch (g.below(5)) { case 0: q = c1; break; case 1: mk(m::MOV, m::r(2), m::i(1)); q.k = m::MR; q.r1 = 2; break; case 2: q.k = m::MRI; mk(m::MOV, m::r(2), m::i(4)); q.r1 = 2; q.imm = -3; break; case 3: if (y != INT64_MIN) q = m::i(y); break; } mk(m::MOD, m::r(0), q); }
    mk(m::HALT);
    Gen gn; gn.p = p; Machine s(cfg.regs, cfg.fregs, cfg.mem); s.load(p);
    while (s.status == Machine::Running) { ++gn.steps; gn.faultAt = s.ip; m::step(p.text, s); }
    gn.fin = s;
    describe(c, cfg, gn, m::show(p)); c.feature(Rng::mix(s.flags) ^ (uint64_t)p.text[2].b.k); c.count("library_ops");
    std::vector<std::unique_ptr<t::Instruction>> v; for (auto& q : p.text) v.push_back(build(q));
    compareRun(c, cfg, gn, t::Program(std::move(v), p.data));
}

// C03
static void faultMix(Ctx& c) {
    GenOpt o; o.wantFault = true; o.faultPct = c.rng.pick({5, 15, 40}); o.maxLen = 24; Cfg cfg = randomCfg(c.rng); widen(c.rng, cfg); o.huge = true; o.io = c.rng.chance(1, 2);
    Gen gn = gen(c.rng, cfg, o);
    std::string text = m::show(gn.p); describe(c, cfg, gn, text); c.sample(c.detail.substr(0, 500)); cover(c, cfg, gn);
    c.count("fault_" + gn.fin.fault); c.count(std::string("faultop_") + m::opName(gn.p.text[gn.faultAt].op));
    compareRun(c, cfg, gn, load(gn.p));
}
// halting programs surrounded by faulting code on not-executed paths
static void faultSpec(Ctx& c) {
    GenOpt o; o.maxLen = 16; o.minLen = 5; o.invalidRegs = 3; Cfg cfg = randomCfg(c.rng); Rng& g = c.rng;
    Gen gn = gen(g, cfg, o);
    size_t planted = 0;
    // unexecuted slots: make them fault
    for (size_t k = 0; k < gn.p.text.size(); ++k) if (!gn.executed[k]) {
        m::Ins x; auto rg = [&] { return m::r(g.below(cfg.regs)); };
        m::Opnd far; far.k = m::MI; far.imm = g.pick<int64_t>({(int64_t)cfg.mem, (int64_t)cfg.mem + 1, -1, INT64_MAX, 1 << 20});
        switch (g.below(9)) {
            case 0: x = {m::DIV, rg(), m::i(0)}; break;
            case 1: x = {m::IDIV, rg(), m::i(0)}; break;
            case 2: x = {m::MOV, rg(), far}; break;
            case 3: x = {m::MOV, far, rg()}; break;
            case 4: x = {m::MOV, m::r((int64_t)cfg.regs + g.range(0, 3)), m::i(1)}; break;
            case 5: x = {m::MOV, m::fr((int64_t)cfg.fregs), m::f(1.0)}; break;
            case 6: x = {m::ADD, rg(), m::r((int64_t)cfg.regs)}; break;
            case 7: x = {m::MOV, m::r(m::SP), m::i(g.value(true))}; break;
            default: x = {g.pick({m::PUTNUM, m::PUTCHAR, m::POP}), rg(), {}}; break;
        }
        gn.p.text[k] = x; ++planted;
    }
    if (g.chance(1, 2)) { m::Ins x{g.pick({m::DIV, m::IDIV}), m::r(g.below(cfg.regs)), m::i(0)}; gn.p.text.push_back(x); ++planted; }
    c.count("planted_unexecuted_faults", planted);
    std::string text = m::show(gn.p); describe(c, cfg, gn, text); cover(c, cfg, gn);
    compareRun(c, cfg, gn, load(gn.p));
}
// anything legal, no oracle but survival
static void survive(Ctx& c) {
    Rng& g = c.rng; Cfg cfg = randomCfg(g); GenOpt o; o.invalidRegs = 1; size_t L = g.range(1, 25);
    m::Program p; for (size_t k = 0; k < L; ++k) { m::Ins x = wildIns(g, cfg, o, L); if (g.chance(1, 40) && x.a.k == m::R) x.a.r1 = m::IP; p.text.push_back(x); }
    for (size_t k = g.below(6); k-- > 0;) p.data.push_back(g.value(true));
    std::string text = m::show(p); c.detail = "config: " + show(cfg) + "\nprogram:\n" + text;
    auto r = run(cfg, load(p), genInput(g), 2000);
    c.eval(); c.feature(Rng::mix(r.ticks * 4 + r.end)); c.count(r.end == RunResult::Halted ? "halted" : r.end == RunResult::Error ? "errors" : "running");
    c.count("ticks", r.ticks);
}

// C04
static void ioMix(Ctx& c) {
    GenOpt o; o.io = true; o.getchar = true; o.maxLen = 40; Cfg cfg = randomCfg(c.rng);
    bool fault = c.rng.chance(1, 4); o.wantFault = fault; o.faultPct = fault ? 8 : 0;
    Rng& g = c.rng; Gen gn = gen(g, cfg, o);
    // turn some neutral instructions into output
    for (size_t k = 0; k < gn.p.text.size(); ++k) {
        auto& x = gn.p.text[k];
        if ((x.op == m::NOP || x.op == m::BREAK || x.op == m::BKPT) || (x.op == m::CMP && g.chance(1, 2))) x = {g.pick({m::PUTNUM, m::PUTCHAR}), m::r(g.below(cfg.regs)), {}};
        else if (!gn.executed[k] && g.chance(1, 2)) x = {g.pick({m::PUTNUM, m::PUTCHAR, m::GETCHAR}), m::r(g.below(cfg.regs)), {}};
    }
    Machine s = gn.init; gn.steps = 0; gn.trace.clear(); gn.taken = 0; size_t outs = 0, ins = 0;
    while (s.status == Machine::Running) {
        if (++gn.steps > 3000 || (uint64_t)s.ip >= gn.p.text.size()) throw Discard{};
        auto& x = gn.p.text[s.ip]; gn.trace.push_back(s.ip); gn.faultAt = s.ip; gn.shape = Rng::mix(gn.shape * 31 + x.op);
        outs += x.op == m::PUTNUM || x.op == m::PUTCHAR; ins += x.op == m::GETCHAR;
        auto inf = m::step(gn.p.text, s); gn.taken += inf.taken;
        if (s.status == Machine::Breakpoint) s.status = Machine::Running;
    }
    if (s.ambiguous || outs + ins == 0) throw Discard{};
    gn.fin = s; c.count("outputs", outs); c.count("inputs", ins);
    std::string text = m::show(gn.p); describe(c, cfg, gn, text); c.sample(c.detail.substr(0, 500)); cover(c, cfg, gn);
    compareRun(c, cfg, gn, load(gn.p));
}

// I/O on both arms of conditional jumps, in loops and in called functions
static void ioSpec(Ctx& c) {
    Rng& g = c.rng; Cfg cfg = randomCfg(g); m::Program p; auto rr = [&] { return m::r(g.below(cfg.regs)); };
    auto mk = [&](m::Op op, m::Opnd a = {}, m::Opnd b = {}) { m::Ins x; x.op = op; x.a = a; x.b = b; p.text.push_back(x); };
    auto mem = [&] { m::Opnd q; q.k = m::MI; q.imm = g.below(3); return q; };
    auto filler = [&] { switch (g.below(8)) {
        case 0: mk(m::MOV, rr(), m::i(g.range(0, 3))); break; case 1: mk(m::ADD, rr(), rr()); break; case 2: mk(m::MUL, rr(), m::i(g.range(0, 2))); break;
        case 3: mk(m::MOV, rr(), mem()); break; case 4: mk(m::MOV, mem(), rr()); break; case 5: mk(m::SUB, rr(), rr()); break; case 6: mk(m::CMP, rr(), g.chance(1, 2) ? rr() : m::i(g.range(-1, 2))); break; default: mk(m::XOR, rr(), m::i(g.range(0, 70))); } };
    auto ioIns = [&] { switch (g.below(6)) { case 0: case 1: mk(m::PUTNUM, rr()); break; case 2: mk(m::PUTCHAR, rr()); break; default: mk(m::GETCHAR, rr()); } };
    auto arm = [&] { for (size_t k = g.range(1, 4); k--;) if (g.chance(3, 5)) ioIns(); else filler(); };
    size_t blocks = g.range(2, 6); std::vector<size_t> calls;
    for (size_t b = 0; b < blocks; ++b) {
        for (size_t k = g.below(3); k--;) filler();
        switch (g.below(5)) {
            case 0: case 1: case 2: { // if / else, the decision is sometimes late
                if (g.chance(2, 3)) mk(m::CMP, rr(), g.chance(1, 2) ? mem() : m::i(g.range(0, 2)));
                size_t j = p.text.size(); mk((m::Op)g.range(m::JZ, m::JNS), m::i(0)); arm();
                if (g.chance(1, 2)) { size_t e = p.text.size(); mk(m::JMP, m::i(0)); p.text[j].a.imm = p.text.size(); arm(); p.text[e].a.imm = p.text.size(); }
                else p.text[j].a.imm = p.text.size();
                break; }
            case 3: { auto k = rr(); mk(m::MOV, k, m::i(g.range(1, 3))); size_t top = p.text.size(); size_t n = g.range(1, 3); while (n--) { if (g.chance(3, 4)) { auto o = rr(); if (o.r1 == k.r1) mk(m::PUTNUM, o); else mk(g.pick({m::GETCHAR, m::PUTCHAR, m::PUTNUM}), o); } } mk(m::LOOP, k, m::i((int64_t)top)); arm(); break; }
            default: calls.push_back(p.text.size()); mk(m::CALL, m::i(0)); arm(); break;
        }
    }
    bool fault = g.chance(1, 5); if (fault) mk(m::DIV, rr(), m::i(0)); else mk(m::HALT);
    size_t fn = p.text.size(); arm(); mk(m::RET); arm(); mk(m::HALT);
    for (size_t q : calls) p.text[q].a.imm = fn;
    Gen gn; gn.p = p; gn.input = genInput(g) + genInput(g) + genInput(g);
    Machine s(cfg.regs, cfg.fregs, cfg.mem); s.load(p); s.in = gn.input; size_t outs = 0, ins = 0;
    while (s.status == Machine::Running) {
        if (++gn.steps > 400 || (uint64_t)s.ip >= p.text.size()) throw Discard{};
        auto& x = p.text[s.ip]; gn.trace.push_back(s.ip); gn.faultAt = s.ip; gn.shape = Rng::mix(gn.shape * 31 + x.op);
        outs += x.op == m::PUTNUM || x.op == m::PUTCHAR; ins += x.op == m::GETCHAR;
        auto inf = m::step(p.text, s); gn.taken += inf.taken; gn.notTaken += inf.jumped && !inf.taken;
    }
    gn.fin = s; if (outs + ins == 0) throw Discard{};
    c.count("outputs", outs); c.count("inputs", ins); c.count("jumps_not_taken", gn.notTaken); c.count("jumps_taken", gn.taken); if (s.status == Machine::Fault) c.count("faulting");
    describe(c, cfg, gn, m::show(p)); c.sample(c.detail.substr(0, 700)); c.feature(gn.shape);
    compareRun(c, cfg, gn, load(p));
}

// BREAK handler runs exactly once per executed BREAK
static void breaks(Ctx& c) {
    GenOpt o; o.maxLen = 20; Cfg cfg = randomCfg(c.rng); Rng& g = c.rng;
    Gen gn = gen(g, cfg, o);
    for (auto& x : gn.p.text) if ((x.op == m::NOP || x.op == m::BKPT || x.op == m::CMP) && g.chance(2, 3)) { x = m::Ins(); x.op = m::BREAK; }
    Machine s = gn.init; std::vector<Machine> at; gn.steps = 0;
    while (s.status == Machine::Running) {
        if (++gn.steps > 1500 || (uint64_t)s.ip >= gn.p.text.size()) throw Discard{};
        auto inf = m::step(gn.p.text, s); if (inf.brk) at.push_back(s);
        if (s.status == Machine::Breakpoint) s.status = Machine::Running;
    }
    if (s.ambiguous || at.empty() || s.status != Machine::Halted) throw Discard{};
    std::string text = m::show(gn.p); gn.fin = s; describe(c, cfg, gn, text);
    t::StatsLogger::instance().reset(); CinGuard io("");
    t::Cpu cpu(cfg.regs, cfg.fregs, cfg.alus, cfg.rs, cfg.mem, cfg.gates); size_t n = 0; std::string bad;
    cpu.connectBreakHandler([&](t::Cpu& q) { Machine r = snapshot(q, cfg); std::string why; if (n < at.size()) { r.out = at[n].out; if (bad.empty() && !m::same(at[n], r, &why)) bad = "BREAK " + std::to_string(n) + ": " + why; } ++n; });
    cpu.start(load(gn.p)); uint64_t ticks = 0;
    while (!cpu.halted() && ticks < 1000 + 80 * gn.steps) { cpu.tick(); ++ticks; }
    c.eval(); c.count("breaks", n); c.feature(gn.shape);
    c.check(n == at.size(), "breaks", "handler ran " + std::to_string(n) + " times, expected " + std::to_string(at.size()));
    c.check(bad.empty(), "breakstate", "state seen by handler differs at " + bad);
}

// C22: the statistics of a run, used the documented way (docs/t86.md, "T86 as a library")
struct Block { double times = -1, life = -1, fetch = -1, decode = -1, ops = -1, alu = -1, exec = -1, wait = -1, ret = -1, regs = 0, fregs = 0, mem = 0; };
static double numberAfter(const std::string& text, const std::string& label, size_t from = 0) {
    auto p = text.find(label, from); if (p == std::string::npos) return NAN;
    return std::strtod(text.c_str() + p + label.size(), nullptr);
}
static Block block(const std::string& t) {
    Block b; b.times = numberAfter(t, "Times executed: "); b.life = numberAfter(t, "Average instruction lifetime: "); b.fetch = numberAfter(t, "Average fetch stalls: ");
    b.decode = numberAfter(t, "Average decode stalls: "); b.ops = numberAfter(t, "Average operand fetching stalls: "); b.alu = numberAfter(t, "Average waiting for ALU: ");
    b.exec = numberAfter(t, "Average executing: "); b.wait = numberAfter(t, "Average waiting for retirement: "); b.ret = numberAfter(t, "Average retirement: ");
    auto opt = [&](const char* l) { double d = numberAfter(t, l); return std::isnan(d) ? 0.0 : d; }; // the reasons without a stall are not listed
    b.regs = opt("      Average register fetch stalls: "); b.fregs = opt("      Average float register fetch stalls: "); b.mem = opt("      Average memory read stalls: "); return b;
}
// three operations wait for one slow load; with one unit two of them have to wait for it, with three none
static void statsWait(Ctx& c) {
    Rng& g = c.rng; Cfg cfg = randomCfg(g); cfg.regs = std::max<size_t>(cfg.regs, 5); cfg.rs = g.range(6, 8); cfg.alus = g.chance(1, 2) ? 1 : g.range(3, 4);
    m::Program p; auto put = [&](m::Op op, m::Opnd a, m::Opnd b) { m::Ins x; x.op = op; x.a = a; x.b = b; p.text.push_back(x); }; auto R = [](int64_t n) { m::Opnd o; o.k = m::R; o.r1 = n; return o; };
    m::Opnd a; a.k = m::MI; a.imm = g.below(cfg.mem); put(m::MOV, R(0), a); { m::Opnd v; v.k = m::I; v.imm = g.small(); put(m::MOV, R(4), v); } for (int k = 1; k <= 3; ++k) put(g.pick({m::ADD, m::SUB, m::AND, m::OR, m::XOR}), R(k), R(0)); put(m::HALT, {}, {});
    c.detail = vm::show(cfg) + "\n" + m::show(p); std::string basic; size_t n = 6;
    { CinGuard io(""); t::StatsLogger::instance().reset(); t::Cpu cpu(cfg.regs, cfg.fregs, cfg.alus, cfg.rs, cfg.mem, cfg.gates); cpu.start(load(p)); for (int k = 0; k < 2000 && !cpu.halted(); ++k) cpu.tick(); if (!cpu.halted()) throw Discard{};
      std::ostringstream b; t::StatsLogger::instance().processBasicStats(b); basic = b.str(); t::StatsLogger::instance().reset(); }
    c.detail += basic; Block all = block(basic);
    if (cfg.alus == 1 && !(all.alu * n >= 0.99)) c.fail("waiting-for-alu", "three operations became ready together, no waiting for the only unit is reported");
    if (cfg.alus >= 3 && all.alu > 0) c.fail("waiting-for-alu", "waiting for a unit is reported, though there are enough of them");
    if (!(all.regs * n >= 2.99)) c.fail("waiting-for-register", "three operations waited for a register, that is not reported");
    if (!(all.mem * n >= 0.99)) c.fail("waiting-for-memory", "no waiting for the memory is reported");
    if (!(all.wait * n >= 0.99)) c.fail("waiting-for-retirement", "an instruction was ready behind one which waited for the memory, no waiting for retirement is reported");
    c.eval(); c.count("waiting_programs"); c.feature(cfg.alus * 64 + cfg.rs * 8 + (size_t)p.text[2].op);
}
static void stats(Ctx& c) {
    if (c.rng.chance(1, 12)) { statsWait(c); return; }
    Rng& g = c.rng; size_t runs = g.range(1, 2);
    for (size_t k = 0; k < runs; ++k) {
        Cfg cfg = randomCfg(g); GenOpt o; o.maxSteps = 150; o.io = g.chance(1, 4);
        Gen gn = gen(g, cfg, o); describe(c, cfg, gn, m::show(gn.p));
        if (gn.fin.status != Machine::Halted) throw Discard{};
        cover(c, cfg, gn);
        std::string basic, detailed; uint64_t ticks = 0; std::map<std::string, size_t> want; size_t n = gn.trace.size();
        {
            CinGuard io(gn.input);
            if (g.chance(1, 5)) { try { t::OS os(cfg.regs, cfg.fregs, cfg.mem); os.Run(load(gn.p)); } catch (const std::exception&) {} io.in.clear(); io.in.seekg(0); std::cin.clear(); c.count("after_os_run"); }
            t::StatsLogger::instance().reset();
            t::Cpu cpu(cfg.regs, cfg.fregs, cfg.alus, cfg.rs, cfg.mem, cfg.gates);
            cpu.start(load(gn.p));
            uint64_t bound = 1000 + 80 * (gn.steps + 5);
            try { while (!cpu.halted() && ticks < bound) { cpu.tick(); ++ticks; } } catch (const std::exception&) { throw Discard{}; } // C01, C03
            if (!cpu.halted()) throw Discard{};
            std::ostringstream b, d; t::StatsLogger::instance().processBasicStats(b); t::StatsLogger::instance().processDetailedStats(d); basic = b.str(); detailed = d.str();
            if (t::StatsLogger::instance().tickCount() != ticks) c.fail("ticks", "tickCount() is " + std::to_string(t::StatsLogger::instance().tickCount()) + " after " + std::to_string(ticks) + " ticks");
            for (auto ip : gn.trace) ++want[cpu.getText(ip).getSignature().toString()];
        }
        c.detail += "\n" + basic + detailed;
        auto eq = [&](const char* what, double got, double exp) { // printed with six significant digits
            if (!(std::fabs(got - exp) <= 2e-5 * std::max({std::fabs(exp), std::fabs(got), 1e-3}) + 1e-9)) c.fail(what, std::string(what) + ": reported " + std::to_string(got) + ", expected " + std::to_string(exp));
        };
        eq("total-ticks", numberAfter(basic, "Total ticks: "), ticks);
        eq("total-instructions", numberAfter(basic, "Total instructions executed: "), n);
        eq("throughput", numberAfter(basic, "Throughput: "), (double)n / ticks);
        eq("latency", numberAfter(basic, "Average instruction latency: "), (double)ticks / n);
        Block all = block(basic); eq("times-executed", all.times, n);
        std::map<std::string, size_t> got; double life = 0, fetch = 0, decode = 0, ops = 0, alu = 0, exec = 0, wait = 0, regs = 0, fregs = 0, mem = 0;
        size_t p = detailed.find("Averages for ");
        while (p != std::string::npos) {
            size_t e = detailed.find("Averages for ", p + 5); auto part = detailed.substr(p, e == std::string::npos ? e : e - p); p = e;
            auto nl = part.find('\n'); std::string sig = part.substr(13, nl - 13); while (!sig.empty() && (sig.back() == ':' || sig.back() == '\r')) sig.pop_back();
            Block b = block(part); got[sig] += (size_t)std::llround(b.times);
            life += b.times * b.life; fetch += b.times * b.fetch; decode += b.times * b.decode; ops += b.times * b.ops; alu += b.times * b.alu; exec += b.times * b.exec; wait += b.times * b.wait; regs += b.times * b.regs; fregs += b.times * b.fregs; mem += b.times * b.mem;
            if (b.ops > (b.regs + b.fregs + b.mem) * 1.0001 + 1e-3) c.fail("stall-reasons", sig + " waited for its operands longer than for registers and memory together");
            if ((b.regs > 0 || b.fregs > 0 || b.mem > 0) && b.ops <= 0) c.fail("stall-reasons", sig + " waited for a register or memory, but not for an operand");
            eq("retirement", b.ret, 1);
            if (b.fetch < 0 || b.decode < 0 || b.exec < 1 || b.wait < 0 || b.alu < 0) c.fail("negative", "impossible times of " + sig);
            if (b.life + 1e-3 * b.life < b.fetch + 1 + b.decode + 1 + b.ops + b.alu + b.exec + b.wait + b.ret) c.fail("lifetime", "the stages of " + sig + " take longer than its lifetime");
        }
        if (got != want) {
            std::string d; for (auto& [s2, k2] : want) if (!got.count(s2) || got[s2] != k2) d += " " + s2 + ": " + std::to_string(got.count(s2) ? got[s2] : 0) + " instead of " + std::to_string(k2) + ";";
            for (auto& [s2, k2] : got) if (!want.count(s2)) d += " " + s2 + ": " + std::to_string(k2) + " instead of 0;";
            c.fail("signatures", "executed instructions by kind:" + d);
        }
        auto sum = [&](const char* what, double a, double total) { if (!(std::fabs(a - total * n) <= 1e-4 * std::max(1.0, std::fabs(total * n)) + 1e-3 * got.size())) c.fail(what, std::string(what) + " over all kinds sum up to " + std::to_string(a) + ", the total is " + std::to_string(total * n)); };
        sum("sum-lifetime", life, all.life); sum("sum-fetch", fetch, all.fetch); sum("sum-decode", decode, all.decode); sum("sum-operands", ops, all.ops);
        sum("sum-alu", alu, all.alu); sum("sum-exec", exec, all.exec); sum("sum-wait", wait, all.wait); sum("sum-registers", regs, all.regs); sum("sum-float-registers", fregs, all.fregs); sum("sum-memory", mem, all.mem);
        if (all.regs > 0) c.count("register_stalls"); if (all.fregs > 0) c.count("float_register_stalls"); if (all.mem > 0) c.count("memory_stalls"); eq("retirement", all.ret, 1);
        // one instruction at a time is fetched and decoded, and no more are executed than there are units and entries
        if (n * (all.fetch + 1) > ticks * 1.001 + 1) c.fail("fetch-time", "more time spent fetching than there was");
        if (n * (all.decode + 1) > ticks * 1.001 + 1) c.fail("decode-time", "more time spent decoding than there was");
        // (an entry retired in a tick may be filled again in the same tick)
        if (n * all.life > (ticks * (cfg.rs + 2.0) + n) * 1.001 + 1) c.fail("life-time", "more instructions in flight than fit");
        c.count("instructions", n); c.count("ticks", ticks); c.eval();
    }
    t::StatsLogger::instance().reset();
}
// ---- C23: the documented way to build and run programs with the library (docs/t86.md, "T86 as a library")
static t::Register reg(int64_t n) { return n == m::SP ? t::Sp() : n == m::BP ? t::Bp() : n == m::IP ? t::Pc() : t::Reg((size_t)n); }
// the address expressions are written in different ways that mean the same
template <class F> static void withMem(Rng& g, const m::Opnd& o, F&& f) {
    auto r1 = [&] { return reg(o.r1); }; auto r2 = [&] { return reg(o.r2); }; bool neg = o.imm != INT64_MIN && g.chance(1, 3), ns = o.sc != INT64_MIN && g.chance(1, 3);
    switch (o.k) {
        case m::MI: f(t::Mem((uint64_t)o.imm)); break;
        case m::MR: f(t::Mem(r1())); break;
        case m::MRI: f(neg ? t::Mem(r1() - (-o.imm)) : t::Mem(r1() + o.imm)); break;
        case m::MRR: f(t::Mem(r1() + r2())); break;
        case m::MRS: f(t::Mem(r1() * o.sc)); break;
        case m::MRIR: switch (g.below(3)) { case 0: f(neg ? t::Mem(r1() - (-o.imm) + r2()) : t::Mem(r1() + o.imm + r2())); break; case 1: f(t::Mem(r2() + (r1() + o.imm))); break; default: f(neg ? t::Mem(r1() + r2() - (-o.imm)) : t::Mem(r1() + r2() + o.imm)); } break;
        case m::MRRS: switch (g.below(4)) { case 0: f(t::Mem(r2() * o.sc + r1())); break; case 1: if (ns) { f(t::Mem(r1() - r2() * (-o.sc))); break; } [[fallthrough]]; case 2: if (o.sc == -1) { f(t::Mem(r1() - r2())); break; } [[fallthrough]]; default: f(t::Mem(r1() + r2() * o.sc)); } break;
        case m::MRIRS: switch (g.below(7)) {
            case 0: f(t::Mem(r2() * o.sc + (r1() + o.imm))); break;
            case 1: f(neg ? t::Mem(r2() * o.sc - (-o.imm) + r1()) : t::Mem(r2() * o.sc + o.imm + r1())); break;
            case 2: f(neg ? t::Mem(r1() + r2() * o.sc - (-o.imm)) : t::Mem(r1() + r2() * o.sc + o.imm)); break;
            case 3: if (ns) { f(t::Mem(r1() + o.imm - r2() * (-o.sc))); break; } [[fallthrough]];
            case 4: if (o.sc == -1) { f(t::Mem(r1() + o.imm - r2())); break; } [[fallthrough]];
            case 5: f(neg ? t::Mem(r1() - (-o.imm) + r2() * o.sc) : t::Mem(r1() + o.imm + r2() * o.sc)); break;
            default: f(t::Mem(r1() + o.imm + r2() * o.sc)); } break;
        default: throw Discard{};
    }
}
template <class F> static void withOp(Rng& g, const m::Opnd& o, F&& f) {
    switch (o.k) {
        case m::I: f((int64_t)o.imm); break;
        case m::F: f(o.f); break;
        case m::R: f(reg(o.r1)); break;
        case m::FR: f(t::FReg((size_t)o.r1)); break;
        case m::RI: f(o.imm != INT64_MIN && g.chance(1, 3) ? reg(o.r1) - (-o.imm) : reg(o.r1) + o.imm); break;
        default: withMem(g, o, f);
    }
}
template <class T> static std::optional<t::Label> add2(t::ProgramBuilder& pb, Rng& g, const m::Ins& x) {
    std::optional<t::Label> l;
    withOp(g, x.a, [&](auto a) { withOp(g, x.b, [&](auto b) { if constexpr (requires { T{a, b}; }) l = pb.add(T{a, b}); else if constexpr (requires { T{a, (uint64_t)b}; }) l = pb.add(T{a, (uint64_t)b}); }); });
    return l;
}
template <class T> static std::optional<t::Label> add1(t::ProgramBuilder& pb, Rng& g, const m::Ins& x) {
    std::optional<t::Label> l;
    withOp(g, x.a, [&](auto a) { if constexpr (requires { T{a}; }) l = pb.add(T{a}); else if constexpr (requires { T{(uint64_t)a}; }) l = pb.add(T{(uint64_t)a}); });
    return l;
}
static std::optional<t::Label> addIns(t::ProgramBuilder& pb, Rng& g, const m::Ins& x) {
    switch (x.op) {
#define B(T) case m::T: return add2<t::T>(pb, g, x);
        B(MOV) B(ADD) B(SUB) B(MUL) B(DIV) B(IMUL) B(IDIV) B(MOD) B(AND) B(OR) B(XOR) B(LSH) B(RSH) B(CMP) B(LEA) B(LOOP) B(FADD) B(FSUB) B(FMUL) B(FDIV) B(FCMP) B(EXT) B(NRW)
#undef B
#define B(T) case m::T: return add1<t::T>(pb, g, x);
        B(INC) B(DEC) B(NEG) B(NOT) B(POP) B(PUTCHAR) B(PUTNUM) B(GETCHAR) B(FPOP) B(JMP) B(JZ) B(JNZ) B(JE) B(JNE) B(JG) B(JGE) B(JL) B(JLE) B(JA) B(JAE) B(JB) B(JBE) B(JO) B(JNO) B(JS) B(JNS) B(CALL) B(PUSH) B(FPUSH)
#undef B
#define B(T) case m::T: return pb.add(t::T{});
        B(HALT) B(NOP) B(BKPT) B(BREAK) B(RET) B(CLF)
#undef B
        default: throw Discard{};
    }
}
static bool jumps(m::Op op) { switch (op) { case m::JMP: case m::JZ: case m::JNZ: case m::JE: case m::JNE: case m::JG: case m::JGE: case m::JL: case m::JLE: case m::JA: case m::JAE: case m::JB: case m::JBE: case m::JO: case m::JNO: case m::JS: case m::JNS: case m::CALL: return true; default: return false; } }
static void library(Ctx& c) {
    Rng& g = c.rng; Cfg cfg = randomCfg(g); cfg.regs = std::min<size_t>(cfg.regs, 10); cfg.fregs = std::min<size_t>(cfg.fregs, 5); // the default machine has these
    GenOpt o; o.maxLen = 24; o.io = g.chance(1, 4); o.invalidRegs = 0; o.wildRest = g.chance(1, 2);
    Gen gn = gen(g, cfg, o); m::Program& p = gn.p;
    bool release = g.chance(1, 3); std::vector<bool> dbg(p.text.size());
    for (size_t k = 0; k < p.text.size(); ++k) {
        auto& x = p.text[k];
        if (x.op == m::BKPT || (x.op == m::LEA && x.a.r1 >= m::SP)) { x = m::Ins(); x.op = m::NOP; } // the library has no LEA into SP and BP
        if (x.op == m::BREAK && g.chance(1, 2)) { x = m::Ins(); x.op = m::NOP; }
        if (!release && (x.op == m::NOP || (x.op == m::CMP && g.chance(1, 2)))) { x = m::Ins(); x.op = m::NOP; dbg[k] = g.chance(2, 3); }
    }
    // data: single values, runs and texts
    struct Piece { int kind; std::vector<int64_t> v; std::string s; }; std::vector<Piece> pieces;
    for (size_t k = 0; k < p.data.size();) {
        size_t e = k + 1; while (e < p.data.size() && p.data[e] == p.data[k]) ++e;
        if (e - k >= 2 || g.chance(1, 4)) { pieces.push_back({1, std::vector<int64_t>(p.data.begin() + k, p.data.begin() + e), ""}); k = e; }
        else { pieces.push_back({0, {p.data[k]}, ""}); ++k; }
    }
    for (size_t n = g.below(3); n--;) {
        Piece q; q.kind = (int)g.below(3);
        if (q.kind == 0) q.v = {g.value()};
        else if (q.kind == 1) q.v.assign(g.below(4), g.value());
        else { for (size_t k = g.below(5); k--;) q.s += (char)g.range(-128, 127); for (char ch : q.s) q.v.push_back(ch); q.v.push_back(0); }
        if (p.data.size() + q.v.size() > cfg.mem / 2) break;
        p.data.insert(p.data.end(), q.v.begin(), q.v.end()); pieces.push_back(q);
    }
    Machine s(cfg.regs, cfg.fregs, cfg.mem); s.load(p); s.in = gn.input;
    gn.trace.clear(); gn.steps = 0; gn.shape = 0; std::vector<Machine> atDbg, atBreak;
    while (s.status == Machine::Running) {
        if (++gn.steps > 1500 || (uint64_t)s.ip >= p.text.size()) throw Discard{};
        size_t at = s.ip; gn.trace.push_back(s.ip); gn.faultAt = s.ip; auto& x = p.text[s.ip]; gn.shape = Rng::mix(gn.shape * 31 + x.op * 100 + x.a.k * 10 + x.b.k);
        auto inf = m::step(p.text, s);
        if (s.status == Machine::Breakpoint) s.status = Machine::Running;
        if (inf.brk) atBreak.push_back(s);
        if (dbg[at]) atDbg.push_back(s);
    }
    if (s.ambiguous || s.status != Machine::Halted) throw Discard{};
    gn.fin = s; describe(c, cfg, gn, m::show(p)); for (size_t k = 0; k < dbg.size(); ++k) if (dbg[k]) c.detail += "\nDBG at " + std::to_string(k); if (release) c.detail += "\nrelease";

    size_t nd = 0, nb = 0; std::string bad; std::ostringstream* outp = nullptr;
    auto seen = [&](const std::vector<Machine>& want, size_t& n, const char* what, t::Cpu& q) {
        if (n < want.size() && bad.empty()) { Machine r = snapshot(q, cfg); r.out = outp->str(); std::string why; if (!m::same(want[n], r, &why)) bad = std::string(what) + " " + std::to_string(n) + ": " + why; }
        ++n;
    };
    // the first instructions may come from an existing program
    size_t start = 0; size_t dataStart = 0;
    std::unique_ptr<t::ProgramBuilder> pbp;
    if (g.chance(1, 4)) {
        std::vector<std::unique_ptr<t::Instruction>> v; start = g.below(p.text.size());
        for (size_t k = 0; k < start; ++k) { if (dbg[k]) { start = k; break; } v.push_back(build(p.text[k])); }
        std::vector<int64_t> d; if (!pieces.empty() && g.chance(1, 2)) { d = pieces[0].v; dataStart = 1; }
        pbp = std::make_unique<t::ProgramBuilder>(t::Program(std::move(v), d), release);
    } else pbp = std::make_unique<t::ProgramBuilder>(release);
    t::ProgramBuilder& pb = *pbp; std::vector<size_t> patches; size_t dropped = 0, viaPatch = 0, typed = 0;
    auto label = [&](uint64_t got, uint64_t want, const char* what) { if (got != want) c.fail("label", std::string(what) + " returned label " + std::to_string(got) + ", expected " + std::to_string(want)); };
    size_t dataAt = 0, piece = 0; auto addPiece = [&] {
        auto& q = pieces[piece];
        if (piece >= dataStart) { uint64_t l = q.kind == 0 ? (uint64_t)(int64_t)pb.addData(q.v[0]) : q.kind == 1 ? (q.v.empty() ? (uint64_t)(int64_t)pb.addData(7, 0) : (uint64_t)(int64_t)pb.addData(q.v[0], q.v.size())) : (uint64_t)(int64_t)pb.addData(q.s); label(l, dataAt, "addData"); }
        dataAt += q.v.size(); ++piece;
    };
    for (size_t k = start; k < p.text.size(); ++k) {
        while (piece < pieces.size() && g.chance(1, 3)) addPiece();
        if (release) while (g.chance(1, 4)) { label(pb.add(t::DBG{[&](t::Cpu&) { bad = "a DBG left out by a release build was executed"; }}), k, "add(DBG) in release"); ++dropped; }
        if (g.chance(1, 5)) label(pb.currentLabel(), k, "currentLabel");
        auto x = p.text[k];
        if (dbg[k]) { label(pb.add(t::DBG{[&](t::Cpu& q) { seen(atDbg, nd, "DBG", q); }}), k, "add(DBG)"); continue; }
        if (jumps(x.op) && x.a.k == m::I && x.a.imm >= 0 && g.chance(1, 2)) { // destination known only later
            auto y = x; y.a.imm = (int64_t)t::Label::empty().address();
            auto l = addIns(pb, g, y); if (l) { label(*l, k, "add"); patches.push_back(k); ++viaPatch; continue; } throw Discard{};
        }
        std::optional<t::Label> l; if (g.chance(5, 6)) l = addIns(pb, g, x);
        if (l) ++typed; else l = pb.add(build(x));
        label(*l, k, "add");
    }
    while (piece < pieces.size()) addPiece();
    for (size_t k = patches.size(); k > 1; --k) std::swap(patches[k - 1], patches[g.below(k)]);
    for (auto k : patches) pb.patch(t::Label(k), t::Label((uint64_t)p.text[k].a.imm));
    t::Program prog = pb.program();
    if (prog.instructions().size() != p.text.size()) c.fail("length", std::to_string(prog.instructions().size()) + " instructions instead of " + std::to_string(p.text.size()));
    if (prog.data() != p.data) c.fail("data", "the data segment differs");
    CinGuard io(gn.input); outp = &io.out; t::StatsLogger::instance().reset();
    t::Cpu cpu(cfg.regs, cfg.fregs, cfg.alus, cfg.rs, cfg.mem, cfg.gates);
    cpu.connectBreakHandler([&](t::Cpu& q) { seen(atBreak, nb, "BREAK", q); });
    uint64_t ticks = 0, bound = 1000 + 80 * (gn.steps + 5); std::string err;
    try { cpu.start(std::move(prog)); while (!cpu.halted() && ticks < bound) { cpu.tick(); ++ticks; } } catch (const std::exception& e) { err = e.what(); }
    if (!err.empty()) c.fail("error", "ended in an error: " + err);
    if (!cpu.halted()) c.fail("timeout", "did not halt");
    Machine r = snapshot(cpu, cfg); r.out = io.out.str(); std::string why;
    if (!m::same(gn.fin, r, &why)) c.fail("state", "state after halt differs: " + why);
    if (!bad.empty()) c.fail("handler", "state seen differs at " + bad);
    if (nd != atDbg.size()) c.fail("dbg", "DBG functions ran " + std::to_string(nd) + " times, expected " + std::to_string(atDbg.size()));
    if (nb != atBreak.size()) c.fail("break", "the BREAK handler ran " + std::to_string(nb) + " times, expected " + std::to_string(atBreak.size()));
    std::ostringstream regs; t::printAllRegisters(cpu, regs);
    { std::string w = "Pc: " + std::to_string(r.ip) + "\nSp: " + std::to_string(r.sp) + "\nBp: " + std::to_string(r.bp) + "\nFlags: " + std::to_string(cpu.getRegister(t::Flags())) + "\n"; for (size_t k = 0; k < cfg.regs; ++k) w += "Reg(" + std::to_string(k) + "): " + std::to_string(r.R[k]) + "\n"; if (regs.str() != w) c.fail("print", "printAllRegisters printed\n" + regs.str() + "expected\n" + w); }
    c.eval(); c.feature(gn.shape); c.count("dbg", nd); c.count("breaks", nb); c.count("patched", viaPatch); c.count("typed", typed); c.count("dropped", dropped); c.count("pieces", pieces.size()); c.count(release ? "release" : "development");
}

// configuration by arguments, default machine; every case in its own process (the configuration is read once)
static void config(Ctx& c) {
    Rng& g = c.rng; static const char* names[6] = {"-registerCnt", "-floatRegisterCnt", "-aluCnt", "-reservationStationEntriesCnt", "-ram", "-ramGates"};
    size_t v[6] = {10, 5, 1, 2, 1024, 4}; std::vector<std::string> args{"program"}; std::vector<int> order{0, 1, 2, 3, 4, 5};
    for (size_t k = 6; k > 1; --k) std::swap(order[k - 1], order[g.below(k)]);
    uint64_t shape = 0;
    for (int k : order) if (g.chance(1, 2)) {
        switch (k) { case 0: v[k] = g.range(1, 24); break; case 1: v[k] = g.range(0, 12); break; case 2: v[k] = g.range(1, 5); break; case 3: v[k] = g.range(1, 9); break; case 4: v[k] = g.chance(1, 6) ? g.range(1000, 5000) : g.range(20, 200); break; default: v[k] = g.range(1, 6); }
        args.push_back(std::string(names[k]) + "=" + std::to_string(v[k])); shape = shape * 7 + k + 1;
    }
    if (g.chance(1, 4)) args.push_back("file.t86"); if (g.chance(1, 4)) args.insert(args.begin() + 1 + g.below(args.size()), g.pick<std::string>({"--verbose", "-other=1", "-i"}));
    size_t ctor = g.below(4), cr = g.range(1, 16), cf = g.range(0, 8), cm = g.range(16, 90);
    c.detail = "arguments:"; for (auto& a : args) c.detail += " " + a; c.detail += "\nconstructor with " + std::to_string(ctor) + " arguments";
    // a program touching the last register, float register and cell
    size_t R = ctor >= 1 ? cr : v[0], F = ctor >= 2 ? cf : v[1], M = ctor >= 3 ? cm : v[4];
    int fd[2]; if (pipe(fd)) throw Discard{};
    std::cout.flush(); pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]); std::string res; auto say = [&](const std::string& s) { res += s + "\n"; };
        try {
            std::vector<char*> av; for (auto& a : args) av.push_back(a.data()); av.push_back(nullptr);
            tiny::config.parse((int)args.size(), av.data());
            auto& k = t::Cpu::Config::instance(); size_t got[6] = {k.registerCnt(), k.floatRegisterCnt(), k.aluCnt(), k.reservationStationEntriesCnt(), k.ramSize(), k.ramGatesCount()};
            for (int q = 0; q < 6; ++q) if (got[q] != v[q]) say(std::string("config ") + names[q] + " is " + std::to_string(got[q]) + " instead of " + std::to_string(v[q]));
            for (size_t q : {v[0] - 1, v[0], v[0] + 7}) { bool refused = false; try { (void)t::Reg(q); } catch (const std::exception&) { refused = true; } if (refused != (q >= v[0])) say("reg Reg(" + std::to_string(q) + ") of " + std::to_string(v[0]) + (refused ? " refused" : " accepted")); }
            auto make = [&]() -> std::unique_ptr<t::Cpu> { switch (ctor) { case 0: return std::make_unique<t::Cpu>(); case 1: return std::make_unique<t::Cpu>(cr); case 2: return std::make_unique<t::Cpu>(cr, cf); default: return std::make_unique<t::Cpu>(cr, cf, cm); } };
            auto prog = [&] {
                t::ProgramBuilder pb; pb.add(t::MOV{t::Register(R - 1), 5}); pb.add(t::MOV{t::Mem((uint64_t)(M - 1)), 77}); pb.add(t::ADD{t::Register(R - 1), t::Mem((uint64_t)(M - 1))});
                if (F) pb.add(t::MOV{t::FloatRegister(F - 1), 2.5});
                for (int q = 0; q < 4; ++q) { pb.add(t::ADD{t::Register(R - 1), 1}); pb.add(t::MOV{t::Mem((uint64_t)q), t::Register(R - 1)}); }
                pb.add(t::PUSH{t::Register(R - 1)}); pb.add(t::HALT{}); return pb.program(); };
            auto run = [&](t::Cpu& cpu) { cpu.start(prog()); size_t ticks = 0; while (!cpu.halted() && ticks < 5000) { cpu.tick(); ++ticks; } return ticks; };
            t::StatsLogger::instance().reset();
            auto cpu = make();
            if (cpu->registersCount() != R) say("registers " + std::to_string(cpu->registersCount()) + " instead of " + std::to_string(R));
            if (cpu->floatRegistersCount() != F) say("float-registers " + std::to_string(cpu->floatRegistersCount()) + " instead of " + std::to_string(F));
            if (cpu->getRegister(t::Sp()) != (int64_t)M || cpu->getRegister(t::Bp()) != (int64_t)M) say("memory SP is " + std::to_string(cpu->getRegister(t::Sp())) + " instead of " + std::to_string(M));
            size_t ticks = 0; try { ticks = run(*cpu); } catch (const std::exception& e) { say(std::string("run ended in an error: ") + e.what()); }
            if (!cpu->halted()) say("run did not halt");
            else {
                if (cpu->getRegister(t::Register(R - 1)) != 86) say("result R" + std::to_string(R - 1) + " is " + std::to_string(cpu->getRegister(t::Register(R - 1))) + " instead of 86");
                if (cpu->getMemory(M - 1) != 86 || cpu->getMemory(3) != 86 || cpu->getMemory(0) != 83) say("result memory differs");
                if (F && cpu->getFloatRegister(t::FloatRegister(F - 1)) != 2.5) say("result F differs");
            }
            if (ctor == 0) { // the default machine is the one the configuration describes, in every respect one can measure
                t::StatsLogger::instance().reset(); t::Cpu same(v[0], v[1], v[2], v[3], v[4], v[5]); size_t t2 = run(same);
                if (cpu->halted() && ticks != t2) say("timing the default machine took " + std::to_string(ticks) + " ticks, one with the configured values " + std::to_string(t2));
            }
        } catch (const std::exception& e) { say(std::string("exception ") + e.what()); }
        res += "end\n"; for (size_t o = 0; o < res.size();) { auto n = write(fd[1], res.data() + o, res.size() - o); if (n <= 0) break; o += n; }
        close(fd[1]); _exit(0);
    }
    close(fd[1]); std::string res; char buf[4096]; ssize_t n; while ((n = read(fd[0], buf, sizeof buf)) > 0) res.append(buf, n);
    close(fd[0]); int st = 0; waitpid(pid, &st, 0);
    c.eval(); c.feature(Rng::mix(shape * 4 + ctor)); c.count("constructor_" + std::to_string(ctor)); c.count("options", args.size() - 1);
    if (res.size() < 4 || res.substr(res.size() - 4) != "end\n") c.fail("crash", "the process died (status " + std::to_string(st) + ") after: " + res);
    res.resize(res.size() - 4);
    if (!res.empty()) c.fail(res.substr(0, res.find(' ')), res);
}

// C24: the memory used by a run doesn't depend on its length. Every iteration of the program's loop prints a byte; the
// output device samples the bytes allocated in the process.
struct Sampler : std::streambuf {
    std::vector<size_t> at; size_t n = 0, every = 1; Sampler(size_t cap) { at.reserve(cap); }
    void take() { if (n++ % every == 0 && at.size() < at.capacity()) at.push_back(__sanitizer_get_current_allocated_bytes()); }
    int overflow(int ch) override { take(); return ch == EOF ? 0 : ch; }
    std::streamsize xsputn(const char*, std::streamsize k) override { take(); return k; }
};
static void memory(Ctx& c) {
    Rng& g = c.rng; m::Program p; auto put = [&](m::Op op, m::Opnd a = {}, m::Opnd b = {}) { m::Ins x; x.op = op; x.a = a; x.b = b; p.text.push_back(x); return p.text.size() - 1; };
    size_t regs = g.range(5, 9), fregs = g.range(2, 4), mem = g.range(40, 80), N = g.range(400, 900), kinds = 0; uint64_t shape = 0;
    auto rr = [&] { return m::r(g.range(2, regs - 1)); }; auto mi = [&] { m::Opnd o; o.k = m::MI; o.imm = g.below(20); return o; };
    auto idx = [&] { m::Opnd o; o.k = g.pick({m::MRI, m::MR, m::MRR}); o.r1 = 1; o.r2 = 1; o.imm = g.below(5); return o; };
    bool wide = false; auto fresh = [&] { m::Opnd o; o.k = g.pick({m::MR, m::MRI}); o.r1 = 0; o.imm = o.k == m::MRI ? 31 : 0; return o; };
    for (size_t k = g.below(4); k--;) p.data.push_back(g.value());
    put(m::MOV, m::r(0), m::i((int64_t)N)); size_t loop = put(m::MOV, m::r(1), m::i(5));
    std::vector<size_t> calls; size_t len = g.range(2, 10);
    for (size_t k = 0; k < len; ++k) {
        size_t w = g.below(17); kinds |= 1u << w; shape = shape * 17 + w;
        switch (w) {
            case 0: put(m::MOV, rr(), m::i(g.value(true))); break;
            case 1: put(m::ADD, rr(), rr()); break;
            case 2: put(m::MOV, mi(), rr()); break;
            case 3: put(m::MOV, rr(), mi()); break;
            case 4: put(m::MOV, idx(), rr()); put(m::MOV, rr(), idx()); break;
            case 5: put(m::PUSH, rr()); put(m::POP, rr()); break;
            case 6: calls.push_back(put(m::CALL, m::i(0))); break;
            case 7: { auto r = rr(); put(m::MOV, r, m::r(0)); put(m::AND, r, m::i((int64_t)g.range(1, 7))); put(m::CMP, r, m::i(0)); auto j = put(g.pick({m::JNE, m::JE, m::JG}), m::i(0)); put(m::ADD, rr(), m::i(1)); if (g.chance(1, 2)) put(m::MOV, mi(), rr()); p.text[j].a.imm = (int64_t)p.text.size(); break; }
            case 8: put(m::FADD, m::fr(0), m::fr(1)); put(m::MOV, m::fr(1), m::f(1.5)); break;
            case 9: put(m::IMUL, rr(), rr()); break;
            case 10: put(m::FPUSH, m::fr(0)); put(m::FPOP, m::fr(1)); break;
            case 11: { auto t = rr(); size_t e = put(m::MOV, t, m::i(3)); put(m::ADD, m::r(1), m::i(1)); put(m::SUB, t, m::i(1)); put(m::CMP, t, m::i(0)); put(m::JNE, m::i((int64_t)e + 1)); break; }
            case 12: put(m::EXT, m::fr(0), rr()); break;
            case 13: put(m::MOV, fresh(), rr()); if (g.chance(1, 2)) put(m::MOV, rr(), fresh()); wide = true; break; // ever new addresses
            case 14: case 15: { // instructions that are only speculated, on ever new addresses
                auto t = rr(); size_t e = put(m::MOV, t, m::i(0)), j; m::Opnd slot; slot.k = m::MI; slot.imm = 30;
                bool viaMem = g.chance(1, 2); if (viaMem) put(m::MOV, slot, t);
                if (g.chance(1, 2)) { put(m::CMP, t, t); j = put(m::JE, viaMem ? slot : t); } else j = put(m::JMP, viaMem ? slot : t);
                for (size_t q = g.range(1, 4); q--;) switch (g.below(5)) { case 0: put(m::MOV, rr(), fresh()); break; case 1: put(m::PUSH, rr()); break; case 2: put(m::ADD, rr(), m::i(1)); break; default: put(m::MOV, fresh(), rr()); }
                p.text[e].b.imm = (int64_t)p.text.size(); (void)j; break; }
            default: { auto j = put(m::JMP, m::i(0)); for (size_t q = g.range(1, 3); q--;) put(m::DIV, m::r(1), m::r(1)); p.text[j].a.imm = (int64_t)p.text.size(); }
        }
    }
    put(m::MOV, m::r(1), m::i('x')); put(m::PUTCHAR, m::r(1)); put(m::SUB, m::r(0), m::i(1)); put(m::CMP, m::r(0), m::i(0)); put(m::JNE, m::i((int64_t)loop)); put(m::HALT);
    size_t fn = p.text.size(); put(m::PUSH, m::r(2)); put(m::MOV, m::r(2), m::i(9)); put(m::POP, m::r(2)); put(m::RET); for (auto k : calls) p.text[k].a.imm = (int64_t)fn;
    if (wide) mem += N + 40;
    c.detail = m::show(p); c.feature(shape);
    Sampler s(N + 8); std::streambuf* old = std::cout.rdbuf(&s); bool ok = false;
    { t::OS os(regs, fregs, mem); try { ok = os.Run(load(p)); } catch (...) { std::cout.rdbuf(old); throw; } }
    std::cout.rdbuf(old); (void)ok;
    c.eval(); c.count("iterations", s.n); c.count("samples", s.at.size());
    if (s.at.size() < N) throw Discard{}; // C01, C03
    size_t warm = N / 8, mid = N / 2; size_t a = *std::max_element(s.at.begin() + warm, s.at.begin() + mid), b = *std::max_element(s.at.begin() + mid, s.at.begin() + N);
    c.count("instructions-in-loop", p.text.size());
    if (b > a + 2048) c.fail("growth", "the memory in use grows from " + std::to_string(a) + " to " + std::to_string(b) + " bytes in " + std::to_string(N - mid) + " iterations of the loop");
}

std::vector<ModeDef> modes() {
    return {{"memory", memory}, {"library", library}, {"config", config}, {"stats", stats}, {"vm-mix", vmMix}, {"vm-hazard", vmHazard}, {"vm-long", vmLong}, {"vm-stack", vmStack}, {"vm-library", vmLibrary}, {"vm-break", breaks},
            {"alu", aluOps}, {"alu-lib", aluLib}, {"fault", faultMix}, {"fault-spec", faultSpec}, {"survive", survive}, {"io", ioMix}, {"io-spec", ioSpec}};
}
int main(int argc, char** argv) { return harnessMain(argc, argv); }
