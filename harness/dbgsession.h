// Sessions of the real debugger core with the real machine, judged by the sequential model of session.h.
#pragma once
#include "session.h"
#include <cmath>
using namespace ses;

static const size_t BUDGET = 3000;

// ---- programs with functions ---------------------------------------------------------------
struct FnGen {
    Rng& g; const vm::Cfg& c; std::vector<Ins> text; std::vector<size_t> fnAt; std::vector<std::pair<size_t, int>> fix; // call site -> function
    std::vector<bool> framed; size_t nf;
    FnGen(Rng& g, const vm::Cfg& c) : g(g), c(c) {}
    void put(Op op, Opnd a = {}, Opnd b = {}) { Ins x; x.op = op; x.a = a; x.b = b; text.push_back(x); }
    int64_t reg() { return (int64_t)g.range(1, (int64_t)c.regs - 2); }        // R0: call counter, last: function addresses
    Opnd mi(int64_t a) { Opnd o; o.k = MI; o.imm = a; return o; }
    Opnd mr(int64_t rr, int64_t d) { Opnd o; o.k = MRI; o.r1 = rr; o.imm = d; return o; }
    void simple() {
        switch (g.below(11)) {
            case 0: put(MOV, r(reg()), i(g.value(true))); break;
            case 1: put(ADD, r(reg()), r(reg())); break;
            case 2: put(MOV, mi(g.below(6)), r(reg())); break;
            case 3: put(MOV, r(reg()), mi(g.below(6))); break;
            case 4: put(INC, r(reg())); break;
            case 5: put(PUSH, r(reg())); put(POP, r(reg())); break;
            case 6: put(PUTCHAR, r(reg())); break;
            case 7: put(NOP); break;
            case 8: put(BKPT); if (g.chance(3, 4)) text.pop_back(), put(XOR, r(reg()), r(reg())); break;
            case 9: put(FADD, fr(0), f(0.5)); break;
            default: put(SUB, r(reg()), i(g.small())); break;
        }
    }
    void body(int depth, int fn) {
        size_t n = g.range(1, 4);
        for (size_t k = 0; k < n; ++k) {
            if (g.chance(2, 5)) { // guarded call
                int callee = (int)g.below(nf);
                if (fn >= 0 && !framed[fn] && callee <= fn) continue; // unframed functions call only later ones
                put(CMP, r(0), i(0)); size_t j = text.size(); put(JLE, i(0)); put(DEC, r(0));
                if (g.chance(1, 4)) { fix.push_back({text.size(), callee}); put(MOV, r((int64_t)c.regs - 1), i(0)); put(CALL, r((int64_t)c.regs - 1)); }
                else { fix.push_back({text.size(), callee}); put(CALL, i(0)); }
                text[j].a = i((int64_t)text.size());
                if (g.chance(1, 2)) simple();
            } else if (depth && g.chance(1, 4)) { // if
                put(CMP, r(reg()), i(g.small())); size_t j = text.size(); put(g.pick({JZ, JG, JL, JNE}), i(0));
                simple(); text[j].a = i((int64_t)text.size()); simple();
            } else simple();
        }
    }
    Program make() {
        nf = g.range(1, 4); framed.resize(nf);
        for (size_t k = 0; k < nf; ++k) framed[k] = !g.chance(1, 4);
        int64_t up = g.chance(1, 4) ? g.range(1, 5) : 0; // frames of another convention: the base pointer grows with the depth
        if (g.chance(1, 40)) { size_t n = g.range(200, 600); put(JMP, i((int64_t)n + 1)); for (size_t k = 0; k < n; ++k) put(NOP); } // far addresses
        put(MOV, r(0), i(c.mem >= 1024 && g.chance(1, 3) ? g.range(20, 90) : g.range(1, 7)));
        body(1, -1);
        { int callee = 0; fix.push_back({text.size(), callee}); put(CALL, i(0)); simple(); }
        put(HALT);
        for (size_t k = 0; k < nf; ++k) {
            fnAt.push_back(text.size());
            if (framed[k] && up) { put(PUSH, r(BP)); put(ADD, r(BP), i(up)); }
            else if (framed[k]) { put(PUSH, r(BP)); put(MOV, r(BP), r(SP)); if (g.chance(1, 2)) { put(SUB, r(SP), i(2)); put(MOV, mr(BP, -1), r(0)); } }
            body(1, (int)k);
            if (framed[k]) { if (!up) put(MOV, r(SP), r(BP)); put(POP, r(BP)); }
            put(RET);
            if (g.chance(1, 6)) put(NOP);
        }
        for (auto& [at, fn] : fix) { if (text[at].op == CALL) text[at].a = i((int64_t)fnAt[fn]); else text[at].b = i((int64_t)fnAt[fn]); }
        Program p; p.text = text; size_t n = g.below(5); for (size_t k = 0; k < n; ++k) p.data.push_back(g.value(true));
        return p;
    }
};

inline void finiteLiterals(Program& p) {
    for (auto& x : p.text) for (Opnd* o : {&x.a, &x.b}) if (o->k == F && !std::isfinite(o->f)) o->f = 1.5;
}

struct Weights { int step, cont, over, out, bset, bunset, ben, bdis, wset, wrem, mreg, mfreg, mmem, mtext, look, bad; };

struct Session {
    Ctx& c; Rng& g; vm::Cfg cfg; Program prog; Model md; std::string input;
    std::vector<std::string> log; std::unique_ptr<Vm> machine; DbgEnd* end = nullptr; T86Process* proc = nullptr; std::unique_ptr<Native> nat;
    bool ended = false, modified = false; std::set<int64_t> blankText; size_t ops = 0; uint64_t h = 0;
    Session(Ctx& c, const vm::Cfg& cfg, Program p, const std::string& input) : c(c), g(c.rng), cfg(cfg), prog(std::move(p)), input(input) {
        c.detail = "machine: " + vm::show(cfg) + "\ninput: " + jesc(input) + "\n" + m::show(prog) + "\n";
        md.text = prog.text; md.st = Machine(cfg.regs, cfg.fregs, cfg.mem); md.st.in = input; md.st.load(prog);
        machine = std::make_unique<Vm>(cfg, prog, input);
        std::unique_ptr<Messenger> e; if (machine->link) e = machine->link->dbgEnd(); else { auto x = std::make_unique<DbgEnd>(machine->ch, nullptr); end = x.get(); e = std::move(x); }
        auto t86 = std::make_unique<T86Process>(std::move(e), cfg.regs, cfg.fregs, cfg.mem); proc = t86.get();
        nat = std::make_unique<Native>(std::move(t86));
        check(conv(nat->WaitForDebugEvent()), Ev{Ev::Begin, 0}, "begin");
    }
    void note(const std::string& s) { c.detail += s + "\n"; ++ops; h = Rng::mix(h * 31 + std::hash<std::string>{}(s.substr(0, s.find(' ')))); }
    void check(Ev got, Ev want, const std::string& what) {
        if (!(got == want)) c.fail("event:" + what, what + ": reported " + show(got) + ", expected " + show(want) + " (ip " + std::to_string(md.st.ip) + ")");
        c.count("event-" + std::string(what) + "-" + show(Ev{want.k, 0}).substr(0, show(Ev{want.k, 0}).find('@')));
    }
    template<class Fn> void refuse(const std::string& key, Fn fn) {
        bool threw = false;
        try { fn(); } catch (const DebuggerError&) { threw = true; } catch (const std::exception& e) { c.fail("refusal-kind:" + key, std::string("refused with something other than a DebuggerError: ") + e.what()); }
        if (!threw) c.fail("not-refused:" + key, key + " was accepted");
        c.count("refused"); state(key);
    }
    bool feq(double a, uint64_t b) { double d = ofBits(b); return (std::isnan(a) && std::isnan(d)) || bitsOf(a) == b; }
    // everything visible equals the model
    void state(const std::string& after, bool full = true) {
        if (md.st.ambiguous) throw Discard{};
        auto& s = md.st;
        auto regs = nat->GetRegisters();
        auto want = [&](const std::string& n, int64_t v) {
            auto it = regs.find(n); if (it == regs.end()) c.fail("register-missing", "no register " + n + " after " + after);
            if (it->second != v) c.fail("register:" + (n[0] == 'R' ? std::string("R") : n), "after " + after + " " + n + " is " + std::to_string(it->second) + ", expected " + std::to_string(v));
        };
        if (regs.size() != cfg.regs + 3) c.fail("register-set", "wrong number of registers");
        if (s.status == Machine::Fault) { auto it = regs.find("IP"); if (it == regs.end() || (it->second != s.ip && it->second != s.ip + 1)) c.fail("fault-ip", "wrong ip at the error: " + std::to_string(it->second) + ", instruction " + std::to_string(s.ip)); }
        else want("IP", s.ip);
        want("SP", s.sp); want("BP", s.bp);
        for (size_t k = 0; k < cfg.regs; ++k) want("R" + std::to_string(k), s.R[k]);
        c.count("states-compared");
        if (machine->out() != s.out) c.fail("output", "after " + after + " output is " + jesc(machine->out()) + ", expected " + jesc(s.out));
        if (!full) { c.eval(); return; }
        auto fl = nat->GetFloatRegisters();
        if (fl.size() != cfg.fregs) c.fail("float-register-set", "wrong number of float registers");
        for (size_t k = 0; k < cfg.fregs; ++k) { auto it = fl.find("F" + std::to_string(k)); if (it == fl.end() || !feq(it->second, s.F[k])) c.fail("float-register", "after " + after + " F" + std::to_string(k) + " is " + (it == fl.end() ? "missing" : m::showFloat(it->second)) + ", expected " + m::showFloat(ofBits(s.F[k]))); }
        auto mem = nat->ReadMemory(0, cfg.mem);
        if (mem.size() != cfg.mem) c.fail("memory-size", "memory read has " + std::to_string(mem.size()) + " cells");
        for (size_t k = 0; k < cfg.mem; ++k) if (mem[k] != s.mem[k]) c.fail("memory", "after " + after + " [" + std::to_string(k) + "] is " + std::to_string(mem[k]) + ", expected " + std::to_string(s.mem[k]));
        // text as the user sees it, and as it is in the machine
        auto txt = nat->ReadText(0, md.text.size());
        if (txt.size() != md.text.size()) c.fail("text-size", "text read has " + std::to_string(txt.size()) + " instructions");
        for (size_t k = 0; k < txt.size(); ++k) {
            if (blankText.count(k)) continue;
            auto x = readIns(txt[k]);
            if (!x || !(*x == md.text[k])) c.fail("text", "after " + after + " instruction " + std::to_string(k) + " is shown as '" + txt[k] + "', expected '" + m::show(md.text[k]) + "'");
        }
        auto raw = proc->ReadText(0, md.text.size());
        for (size_t k = 0; k < raw.size() && k < md.text.size(); ++k) {
            Ins bk; bk.op = BKPT; auto x = readIns(raw[k]); const Ins& w = md.enabled(k) ? bk : md.text[k];
            if (!x || !(*x == w)) c.fail("raw-text", "after " + after + " the machine holds '" + raw[k] + "' at " + std::to_string(k) + ", expected '" + m::show(w) + "'");
        }
        auto& bp = nat->GetBreakpoints();
        if (bp.size() != md.bps.size()) c.fail("breakpoint-list", "after " + after + " " + std::to_string(bp.size()) + " breakpoints are listed, expected " + std::to_string(md.bps.size()));
        for (auto& [a, en] : md.bps) { auto it = bp.find(a); if (it == bp.end() || it->second.enabled != en) c.fail("breakpoint-list", "after " + after + " breakpoint " + std::to_string(a) + " is listed wrongly"); }
        auto& wp = nat->GetWatchpoints();
        bool same = wp.size() == md.wps.size(); for (int64_t a : md.wps) same = same && wp.count(a);
        if (!same) c.fail("watchpoint-list", "after " + after + " watchpoints are listed wrongly");
        if (nat->TextSize() != md.text.size()) c.fail("text-size", "wrong text size");
        c.eval(); c.count("full-states");
    }
    bool expect(std::optional<Ev> e) { return e.has_value(); }
    // performs an execution command whose outcome the model predicts; false: not performed
    template<class Predict, class Do> bool run(const std::string& what, Predict pr, Do act, bool alsoBp = false) {
        Model next = md; next.steps = 0; bool userBp = false;
        auto want = pr(next, userBp);
        if (!want) { c.count("not-judged-" + what); return false; }
        if (next.st.ambiguous) throw Discard{};
        note(what + "   # expect " + show(*want));
        size_t before = next.steps;
        md = next;
        Ev got = conv(act());
        if (userBp && got.k == Ev::Bp && got.addr == md.st.ip) got = *want;
        check(got, *want, what);
        c.count("instructions", before);
        if (want->k == Ev::End || want->k == Ev::Err) ended = true;
        if (end && end->pending()) c.fail("surplus-message", "unread messages from the machine after " + what);
        state(what, ended || g.chance(1, 3));
        return true;
    }
    bool singleStep() { return run("istep", [](Model& x, bool&) { return x.singleStep(); }, [&] { return nat->PerformSingleStep(); }); }
    bool cont() { return run("continue", [](Model& x, bool&) { return x.cont(BUDGET); }, [&] { nat->ContinueExecution(); return nat->WaitForDebugEvent(); }); }
    bool over() { return run("inext", [](Model& x, bool& u) { return x.stepOver(BUDGET, true, &u); }, [&] { return nat->PerformStepOver(); }); }
    bool out() { return run("finish", [](Model& x, bool&) { return x.stepOut(BUDGET); }, [&] { return nat->PerformStepOut(); }); }
    int64_t anyAddr() { // instruction addresses, mostly ones that will be executed soon
        if (g.chance(2, 3)) { Model x = md; x.bps.clear(); x.wps.clear(); size_t n = g.below(12); for (size_t k = 0; k < n; ++k) { auto e = x.exec1(); if (e && (e->k == Ev::End || e->k == Ev::Err)) break; } if (md.inText(x.st.ip)) return x.st.ip; }
        return (int64_t)g.below(md.text.size());
    }
    int64_t cell() { // cells that will be written soon
        if (g.chance(2, 3)) {
            Model x = md; x.bps.clear(); x.wps.clear(); std::vector<int64_t> w;
            for (size_t k = 0; k < 40; ++k) { if (x.st.status != Machine::Running) break; auto inf = step(x.text, x.st); if (x.st.status == Machine::Breakpoint) x.st.status = Machine::Running; if (inf.wrote) w.push_back(inf.addr); }
            if (!w.empty()) return g.pick(w);
        }
        return (int64_t)g.below(cfg.mem);
    }
    int64_t pickBp() { if (md.bps.empty()) return -1; auto it = md.bps.begin(); std::advance(it, g.below(md.bps.size())); return it->first; }
    void act(const Weights& w) {
        int tot = 0; const int* ws = &w.step; for (int k = 0; k < 16; ++k) tot += ws[k];
        int x = (int)g.below(tot), k = 0; while (x >= ws[k]) x -= ws[k++];
        auto S = [](int64_t v) { return std::to_string(v); };
        switch (k) {
            case 0: singleStep(); break;
            case 1: cont(); break;
            case 2: // sometimes with a (disabled) breakpoint where the call returns to
                if (md.inText(md.st.ip) && md.text[md.st.ip].op == CALL && md.inText(md.st.ip + 1) && g.chance(1, 3)) {
                    int64_t a = md.st.ip + 1; bool on = g.chance(1, 4);
                    if (!md.bps.count(a)) { note("break " + S(a)); nat->SetBreakpoint(a); md.bps[a] = true; }
                    if (on && !md.bps[a]) { note("enable " + S(a)); nat->EnableSoftwareBreakpoint(a); md.bps[a] = true; blankText.erase(a); }
                    if (!on && md.bps[a]) { note("disable " + S(a)); nat->DisableSoftwareBreakpoint(a); md.bps[a] = false; }
                }
                over(); break;
            case 3: out(); break;
            case 4: { if (g.chance(1, 80)) { size_t n = g.range(17, 70); note("many breakpoints"); for (size_t q = 0; q < n; ++q) { int64_t a = (int64_t)g.below(md.text.size()); if (md.bps.count(a)) continue; note("break " + S(a)); nat->SetBreakpoint(a); md.bps[a] = true; } break; }
                int64_t a = anyAddr(); note("break " + S(a)); if (md.bps.count(a)) refuse("duplicate breakpoint", [&] { nat->SetBreakpoint(a); }); else { nat->SetBreakpoint(a); md.bps[a] = true; } break; }
            case 5: { int64_t a = pickBp(); if (a < 0) return; note("unbreak " + S(a)); nat->UnsetBreakpoint(a); md.bps.erase(a); break; }
            case 6: { int64_t a = pickBp(); if (a < 0) return; note("enable " + S(a)); nat->EnableSoftwareBreakpoint(a); md.bps[a] = true; blankText.erase(a); break; }
            case 7: { int64_t a = pickBp(); if (a < 0) return; note("disable " + S(a)); nat->DisableSoftwareBreakpoint(a); md.bps[a] = false; break; }
            case 8: { int64_t a = cell(); note("watch " + S(a));
                if (md.wps.count(a)) refuse("duplicate watchpoint", [&] { nat->SetWatchpointWrite(a); });
                else if (md.wps.size() == 4) refuse("fifth watchpoint", [&] { nat->SetWatchpointWrite(a); });
                else { nat->SetWatchpointWrite(a); md.wps.insert(a); } break; }
            case 9: { if (md.wps.empty()) return; auto it = md.wps.begin(); std::advance(it, g.below(md.wps.size())); int64_t a = *it; note("unwatch " + S(a)); nat->RemoveWatchpoint(a); md.wps.erase(a); break; }
            case 10: { modified = true; std::string n; int64_t v = g.value(); 
                switch (g.below(8)) { case 0: n = "SP"; v = g.range(0, (int64_t)cfg.mem); md.st.sp = v; break; case 1: n = "BP"; v = g.range(0, (int64_t)cfg.mem); md.st.bp = v; break;
                    case 2: if (md.st.status == Machine::Fault) return; n = "IP"; v = (int64_t)g.below(md.text.size()); md.st.ip = v; break;
                    default: { size_t q = g.below(cfg.regs); n = "R" + S(q); md.st.R[q] = v; } }
                note("set " + n + " " + S(v)); nat->SetRegister(n, v);
                if (nat->GetRegister(n) != v) c.fail("write-register", n + " reads " + S(nat->GetRegister(n)) + " after writing " + S(v)); break; }
            case 11: { if (!cfg.fregs) return; modified = true; size_t q = g.below(cfg.fregs); double v = vm::genFloat(g); if (std::isnan(v)) v = -0.0; md.st.F[q] = bitsOf(v);
                note("fset F" + S(q) + " " + m::showFloat(v)); nat->SetFloatRegister("F" + S(q), v);
                if (bitsOf(nat->GetFloatRegister("F" + S(q))) != bitsOf(v)) c.fail("write-float-register", "F" + S(q) + " reads back differently"); break; }
            case 12: { modified = true; size_t n = g.range(1, 3); int64_t a = cell(); if (a + n > cfg.mem) a = cfg.mem - n; std::vector<int64_t> v; for (size_t q = 0; q < n; ++q) { v.push_back(g.chance(1, 3) ? (int64_t)g.below(md.text.size()) : g.value()); md.st.mem[a + q] = v[q]; }
                std::string vs; for (auto q : v) vs += " " + S(q); note("mem set " + S(a) + vs); nat->SetMemory(a, v);
                if (nat->ReadMemory(a, n) != v) c.fail("write-memory", "memory reads back differently"); break; }
            case 13: { modified = true; size_t n = g.range(1, std::min<size_t>(3, md.text.size())); int64_t a = anyAddr(); if (a + n > md.text.size()) a = md.text.size() - n;
                std::vector<std::string> v; vm::GenOpt o; o.io = true;
                for (size_t q = 0; q < n; ++q) { Ins x; do { Program pp; pp.text = {vm::wildIns(g, cfg, o, md.text.size())}; finiteLiterals(pp); x = pp.text[0]; } while (x.op == HALT && g.chance(3, 4)); md.text[a + q] = x; v.push_back(g.chance(1, 2) ? m::show(x, &g) : m::show(x)); }
                std::string vs; for (auto& q : v) { for (char& ch : q) if (ch == '\n') ch = ' '; vs += " | " + q; }
                note("text set " + S(a) + vs); nat->WriteText(a, v); for (size_t q = 0; q < n; ++q) blankText.erase(a + q); break; }
            case 14: { note("look"); size_t a = g.below(cfg.mem), n = g.below(cfg.mem - a + 1); auto v = nat->ReadMemory(a, n); if (v != std::vector<int64_t>(md.st.mem.begin() + a, md.st.mem.begin() + a + n)) c.fail("memory-range", "memory range read wrongly");
                size_t ta = g.below(md.text.size()), tn = g.below(md.text.size() - ta + 1); auto tv = nat->ReadText(ta, tn); if (tv.size() != tn) c.fail("text-range", "wrong number of instructions read");
                state("look"); break; }
            case 15: bad(); break;
        }
    }
    void bad() {
        auto S = [](uint64_t v) { return std::to_string(v); };
        uint64_t L = md.text.size(), M = cfg.mem; int64_t a = anyAddr();
        uint64_t farT = g.pick<uint64_t>({L, L + 1, 1000000, (uint64_t)INT64_MAX, UINT64_MAX, UINT64_MAX - 1}), farM = g.pick<uint64_t>({M, M + 1, 1000000, (uint64_t)INT64_MAX, UINT64_MAX, UINT64_MAX - 2});
        switch (g.below(13)) {
            case 0: note("bad break " + S(farT)); refuse("breakpoint outside the text", [&] { nat->SetBreakpoint(farT); }); break;
            case 1: if (md.bps.count(a)) return; note("bad unbreak " + S(a)); refuse("removing a missing breakpoint", [&] { nat->UnsetBreakpoint(a); }); break;
            case 2: if (md.bps.count(a)) return; note("bad enable " + S(a)); refuse("enabling a missing breakpoint", [&] { nat->EnableSoftwareBreakpoint(a); }); break;
            case 3: if (md.bps.count(a)) return; note("bad disable " + S(a)); refuse("disabling a missing breakpoint", [&] { nat->DisableSoftwareBreakpoint(a); }); break;
            case 4: note("bad read " + S(farM)); refuse("reading outside memory", [&] { nat->ReadMemory(farM, g.range(1, 4)); }); break;
            case 5: note("bad read long"); refuse("reading past memory", [&] { nat->ReadMemory(M - 1, g.pick<uint64_t>({2, 1000, UINT64_MAX, UINT64_MAX - M + 2})); }); break;
            case 6: note("bad write " + S(farM)); refuse("writing outside memory", [&] { nat->SetMemory(farM, {1, 2}); }); break;
            case 7: note("bad write end"); refuse("writing past memory", [&] { nat->SetMemory(M - 1, {1, 2}); }); break;
            case 8: note("bad text read " + S(farT)); refuse("reading outside the text", [&] { nat->ReadText(farT, g.range(1, 3)); }); break;
            case 9: note("bad text write"); refuse("writing past the text", [&] { nat->WriteText(L - 1, {"NOP", "NOP"}); }); break;
            case 10: { std::vector<std::string> v = {"NOP"}; std::string b = g.pick<const char*>({"MOV R0", "FOO R1, R2", "", "ADD 1, R0", "NOP NOP", "MOV R0, R1 extra", "PUSH", "5", "JMP", "LEA R0, R1", "MOV R0,", "HALT HALT"}); size_t at = g.below(2); if (at) v.push_back(b); else v = {b}; if ((uint64_t)a + v.size() > L) return;
                note("bad text set " + S(a) + " '" + b + "'"); refuse("writing an invalid instruction", [&] { nat->WriteText(a, v); }); break; }
            case 11: { std::string n = g.chance(1, 4) ? "R" + S(cfg.regs + (g.chance(1, 2) ? 0 : g.below(300))) : g.pick<const char*>({"R1000", "X", "", "R", "r0", "R-1", "F0x", "FLAG", "R0 ", "R18446744073709551615", "ip"}); note("bad set " + n); refuse("writing a missing register", [&] { nat->SetRegister(n, 5); });
                refuse("reading a missing register", [&] { nat->GetRegister(n); }); break; }
            default: { std::string n = g.chance(1, 4) ? "F" + S(cfg.fregs + (g.chance(1, 2) ? 0 : g.below(300))) : g.pick<const char*>({"F1000", "F", "", "f0", "R0", "F-1", "IP"}); note("bad fset " + n); refuse("writing a missing float register", [&] { nat->SetFloatRegister(n, 5); });
                refuse("reading a missing float register", [&] { nat->GetFloatRegister(n); }); break; }
        }
    }
    void finish() { nat->Terminate(); machine->join(); if (end && end->pending()) c.fail("surplus-message", "messages after termination"); c.feature(h); c.count("ops", ops); }
};

inline Session* mk(Ctx& c, int fnPct, vm::GenOpt o, std::unique_ptr<Session>& hold, vm::Gen* genOut = nullptr) {
    vm::Cfg cfg = vm::randomCfg(c.rng); cfg.rs = 2 * cfg.alus;
    Program p; std::string input;
    if ((int)c.rng.below(100) < fnPct) {
        cfg.regs = std::max<size_t>(cfg.regs, 5); cfg.fregs = std::max<size_t>(cfg.fregs, 1); cfg.mem = std::max<size_t>(cfg.mem, 64);
        FnGen fg(c.rng, cfg); p = fg.make();
    } else {
        vm::Gen gg = vm::gen(c.rng, cfg, o); p = gg.p; input = gg.input; if (genOut) *genOut = gg;
    }
    finiteLiterals(p);
    hold = std::make_unique<Session>(c, cfg, p, input);
    return hold.get();
}
inline vm::GenOpt dopt(Ctx& c) { vm::GenOpt o; o.io = true; o.getchar = c.rng.chance(1, 3); o.maxLen = 30; o.maxSteps = 200; if (c.rng.chance(1, 6)) { o.faultPct = 4; o.wantFault = true; } return o; }
