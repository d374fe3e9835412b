// C08-C13, C15: sessions of the real debugger core with the real machine, judged by a sequential model.
#include "dbgsession.h"

static void drive(Ctx& c, int fnPct, Weights w, size_t lo, size_t hi, bool toEnd) {
    std::unique_ptr<Session> hold; Session* s = mk(c, fnPct, dopt(c), hold);
    size_t n = c.rng.range(lo, hi);
    for (size_t k = 0; k < n && !s->ended; ++k) s->act(w);
    if (toEnd) for (int k = 0; k < 400 && !s->ended; ++k) if (!s->cont()) break;
    s->state("the end");
    if (s->ended) { c.count("sessions-to-the-end"); for (int k = 0; k < 3; ++k) s->act(Weights{0,0,0,0,1,1,1,1,1,1,0,0,0,0,2,2}); s->state("requests at the end"); }
    s->finish();
}
//                                  st ct ov ou bs bu be bd ws wr mr mf mm mt lk bad
static const Weights W_STEP      = {16, 4, 2, 1, 6, 2, 1, 1, 2, 1, 1, 1, 1, 1, 1, 1};
static const Weights W_BREAK     = { 2,14, 1, 1, 9, 3, 3, 3, 1, 1, 1, 0, 1, 1, 1, 1};
static const Weights W_WATCH     = { 4,14, 2, 1, 2, 1, 1, 1, 8, 4, 1, 0, 1, 0, 1, 1};
static const Weights W_MOD       = { 5, 6, 1, 1, 2, 1, 1, 1, 1, 1, 4, 3, 5, 4, 3, 4};
static const Weights W_TRANS     = { 6, 6, 4, 2, 6, 3, 2, 2, 4, 2, 0, 0, 0, 0, 3, 2};
static const Weights W_OVER      = { 4, 3, 9, 6, 5, 3, 2, 3, 2, 1, 0, 0, 0, 0, 1, 0};

static void transparent(Ctx& c) {
    std::unique_ptr<Session> hold; Session* s = mk(c, 40, dopt(c), hold);
    // the same program without a debugger
    vm::RunResult plain = vm::run(s->cfg, vm::load(s->prog), s->input, 2000000);
    // vm::run redirects the streams for its own run only; the session's machine is stopped meanwhile
    Machine ref = Machine(s->cfg.regs, s->cfg.fregs, s->cfg.mem); ref.in = s->input; ref.load(s->prog);
    for (size_t k = 0; k < 20000 && ref.status == Machine::Running; ++k) { step(s->md.text, ref); if (ref.status == Machine::Breakpoint) ref.status = Machine::Running; }
    if (ref.status == Machine::Running || ref.ambiguous) throw Discard{};
    size_t n = c.rng.range(2, 40);
    for (size_t k = 0; k < n && !s->ended; ++k) s->act(W_TRANS);
    for (int k = 0; k < 600 && !s->ended; ++k) { // remove things on the way
        if (c.rng.chance(1, 6)) s->act(Weights{0,0,0,0,0,1,1,1,0,1,0,0,0,0,0,0});
        if (!s->cont()) break;
    }
    if (!s->ended) c.fail("no-end", "the debugged program does not end");
    while (!s->md.bps.empty()) { int64_t a = s->md.bps.begin()->first; s->nat->UnsetBreakpoint(a); s->md.bps.erase(a); }
    s->state("removing all breakpoints");
    auto regs = s->nat->GetRegisters(); auto fl = s->nat->GetFloatRegisters(); auto mem = s->nat->ReadMemory(0, s->cfg.mem);
    if ((plain.end == vm::RunResult::Halted) != (s->md.st.status == Machine::Halted)) c.fail("outcome", "outcome differs from the run without a debugger");
    auto cmp = [&](const char* n, int64_t a, int64_t b) { if (a != b) c.fail(std::string("differs:") + n, std::string(n) + " is " + std::to_string(a) + " with and " + std::to_string(b) + " without the debugger"); };
    for (size_t k = 0; k < s->cfg.regs; ++k) cmp("R", regs.at("R" + std::to_string(k)), plain.st.R[k]);
    cmp("SP", regs.at("SP"), plain.st.sp); cmp("BP", regs.at("BP"), plain.st.bp); cmp("IP", regs.at("IP"), plain.st.ip);
    for (size_t k = 0; k < s->cfg.mem; ++k) cmp("memory", mem[k], plain.st.mem[k]);
    for (size_t k = 0; k < s->cfg.fregs; ++k) if (!s->feq(fl.at("F" + std::to_string(k)), plain.st.F[k])) c.fail("differs:F", "float register differs");
    if (s->machine->out() != plain.st.out) c.fail("differs:output", "output differs from the run without a debugger");
    c.count("compared-with-plain-run"); c.eval();
    s->finish();
}
// breakpoints carried over by replacing all of them (as a re-run does)
static void setall(Ctx& c) {
    std::unique_ptr<Session> hold; Session* s = mk(c, 30, dopt(c), hold);
    Rng& g = c.rng;
    for (int round = 0; round < 3 && !s->ended; ++round) {
        size_t n = g.range(0, 6); for (size_t k = 0; k < n && !s->ended; ++k) s->act(c.mode == "dbg-setall" ? W_BREAK : W_WATCH);
        if (s->ended) break;
        std::map<uint64_t, SoftwareBreakpoint> b; std::map<uint64_t, Watchpoint> w; s->md.bps.clear(); s->md.wps.clear(); s->blankText.clear();
        size_t nb = g.below(5), nw = g.below(5); std::string d = "replace all";
        for (size_t k = 0; k < nb; ++k) { int64_t a = s->anyAddr(); bool en = g.chance(2, 3); b[a] = SoftwareBreakpoint{"", en}; s->md.bps[a] = en; d += " " + std::to_string(a) + (en ? "+" : "-"); }
        for (size_t k = 0; k < nw; ++k) { int64_t a = s->cell(); w[a] = Watchpoint{Watchpoint::Type::Write, k}; s->md.wps.insert(a); d += " w" + std::to_string(a); }
        s->note(d);
        s->nat->SetAllBreakpoints(b); s->nat->SetAllWatchpoints(w);
        for (auto& [a, en] : s->md.bps) if (!en) { // shown text of a carried-over disabled breakpoint
            auto tx = s->nat->ReadText(a, 1).at(0); auto x = readIns(tx);
            if (!x || !(*x == s->md.text[a])) {
                s->blankText.insert(a);
                if (c.mode == "dbg-setall" && (c.rng.chance(1, 200) || c.index < 8)) c.fail(tx.empty() ? "carried-disabled-text" : "carried-text", "instruction " + std::to_string(a) + " under a carried-over disabled breakpoint is shown as '" + tx + "'");
            }
        }
        s->state("replacing all");
    }
    for (int k = 0; k < 12 && !s->ended; ++k) s->act(Weights{4, 8, 3, 3, 2, 1, 1, 1, 2, 1, 0, 0, 0, 0, 1, 0});
    s->state("the end"); s->finish();
}

// C24: the memory used by a session doesn't depend on how many commands were given and stops happened. One round of
// commands, ending where it began, is repeated.
extern "C" __attribute__((weak)) size_t __sanitizer_get_current_allocated_bytes(void);
static void memory(Ctx& c) {
    Rng& g = c.rng; vm::Cfg cfg; cfg.regs = g.range(5, 9); cfg.fregs = g.range(1, 4); cfg.mem = g.range(40, 80); cfg.alus = g.range(1, 3); cfg.gates = g.range(1, 4);
    Program p; auto put = [&](Op op, Opnd a = {}, Opnd b = {}) { Ins x; x.op = op; x.a = a; x.b = b; p.text.push_back(x); return p.text.size() - 1; }; auto mi = [&](int64_t a) { Opnd o; o.k = MI; o.imm = a; return o; };
    put(MOV, r(0), i(3)); size_t head = put(NOP); std::vector<size_t> calls, stores; size_t n = g.range(2, 7);
    for (size_t k = 0; k < n; ++k) switch (g.below(6)) { case 0: put(ADD, r(2), i(1)); break; case 1: stores.push_back(put(MOV, mi(g.below(6)), r(2))); break; case 2: calls.push_back(put(CALL, i(0))); break; case 3: put(PUSH, r(2)); put(POP, r(3)); break; case 4: put(MOV, r(3), mi(g.below(6))); break; default: { Opnd o; o.k = MRI; o.r1 = 4; o.imm = g.below(5); stores.push_back(put(MOV, o, r(2))); } }
    put(JMP, i((int64_t)head)); size_t fn = p.text.size(); put(PUSH, r(BP)); put(MOV, r(BP), r(SP)); put(ADD, r(2), i(5)); put(POP, r(BP)); put(RET); for (auto k : calls) p.text[k].a.imm = (int64_t)fn;
    size_t L = p.text.size(); c.detail = m::show(p);
    struct Op1 { int k; uint64_t a; }; std::vector<Op1> round; size_t len = g.range(1, 9); uint64_t h = 0;
    for (size_t k = 0; k < len; ++k) { round.push_back({(int)g.below(15), g.next()}); h = h * 17 + round.back().k; }
    static const char* names[] = {"step", "step-over", "continue to another breakpoint", "watch and continue", "watch and forget", "registers", "memory", "text", "rewrite text", "rewrite register", "rewrite memory", "disable and enable", "refused requests", "step out of a call", "float registers"};
    for (auto& o : round) c.detail += std::string("\n") + names[o.k] + " " + std::to_string(o.a % 1000);
    std::vector<std::string> line; for (auto& x : p.text) { Program one; one.text = {x}; auto s = m::show(x); line.push_back(s); }
    Vm machine(cfg, p, ""); auto t86 = std::make_unique<T86Process>(std::make_unique<DbgEnd>(machine.ch, nullptr), cfg.regs, cfg.fregs, cfg.mem); Native nat(std::move(t86));
    nat.WaitForDebugEvent(); nat.SetBreakpoint(head); nat.ContinueExecution(); nat.WaitForDebugEvent();
    auto back = [&] { for (int k = 0; k < 60 && nat.GetIP() != head; ++k) { nat.ContinueExecution(); nat.WaitForDebugEvent(); } };
    size_t N = 200, stops = 0; std::vector<size_t> at; at.reserve(N);
    for (size_t q = 0; q < N; ++q) {
        for (auto& o : round) switch (o.k) {
            case 0: for (size_t k = o.a % 5 + 1; k--; ++stops) nat.PerformSingleStep(); break;
            case 1: for (size_t k = o.a % 5 + 1; k--; ++stops) nat.PerformStepOver(); break;
            case 2: { uint64_t a = head + 1 + o.a % (L - head - 1); nat.SetBreakpoint(a); nat.ContinueExecution(); nat.WaitForDebugEvent(); ++stops; nat.UnsetBreakpoint(a); break; }
            case 3: { uint64_t a = o.a % 6; nat.SetWatchpointWrite(a); nat.ContinueExecution(); nat.WaitForDebugEvent(); ++stops; nat.RemoveWatchpoint(a); break; }
            case 4: for (uint64_t a = 0; a < 4; ++a) nat.SetWatchpointWrite(a + 20); for (uint64_t a = 4; a--;) nat.RemoveWatchpoint(a + 20); break;
            case 5: nat.GetRegisters(); break;
            case 6: nat.ReadMemory(0, cfg.mem); break;
            case 7: nat.ReadText(0, L); break;
            case 8: nat.WriteText(o.a % L, {line[o.a % L]}); break;
            case 9: nat.SetRegister("R3", (int64_t)o.a); break;
            case 10: nat.SetMemory(8, {1, 2, (int64_t)o.a}); break;
            case 11: nat.DisableSoftwareBreakpoint(head); nat.EnableSoftwareBreakpoint(head); break;
            case 12: try { nat.SetBreakpoint(L + 5); } catch (const DebuggerError&) {} try { nat.ReadMemory(cfg.mem, 2); } catch (const DebuggerError&) {} try { nat.SetRegister("R99", 1); } catch (const DebuggerError&) {} break;
            case 13: if (!calls.empty()) { nat.SetBreakpoint(fn + 2); nat.ContinueExecution(); nat.WaitForDebugEvent(); if (nat.GetIP() == fn + 2) nat.PerformStepOut(); nat.UnsetBreakpoint(fn + 2); ++stops; } break;
            default: nat.GetFloatRegisters(); nat.SetFloatRegister("F0", 1.5);
        }
        back(); at.push_back(__sanitizer_get_current_allocated_bytes());
    }
    nat.Terminate(); machine.join();
    c.eval(); c.feature(h); c.count("rounds", N); c.count("stops", stops); c.count("commands", N * len);
    auto low = [&](size_t a, size_t b) { return *std::min_element(at.begin() + a, at.begin() + b); }; size_t a = low(N / 8, N / 2), b = low(N * 5 / 8, N);
    if (b > a + 512) c.fail("growth", "the memory in use grows from " + std::to_string(a) + " to " + std::to_string(b) + " bytes in " + std::to_string(N / 2) + " rounds of commands");
}

// ---- C15: raw protocol ---------------------------------------------------------------------
struct Raw {
    Ctx& c; Rng& g; vm::Cfg cfg; Program prog; Model md; std::unique_ptr<Vm> machine; std::unique_ptr<DbgEnd> d; std::string reason = "START"; bool over = false; uint64_t h = 0;
    Raw(Ctx& c) : c(c), g(c.rng) {
        cfg = vm::randomCfg(g); cfg.rs = 2 * cfg.alus; auto o = dopt(c); auto gg = vm::gen(g, cfg, o); prog = gg.p; finiteLiterals(prog);
        if (g.chance(1, 12)) { prog.data.assign(cfg.mem + g.range(0, 3), 7); }
        md.text = prog.text; md.st = Machine(cfg.regs, cfg.fregs, cfg.mem); md.st.in = gg.input; bool fits = md.st.load(prog);
        c.detail = "machine: " + vm::show(cfg) + "\n" + m::show(prog) + "\n";
        machine = std::make_unique<Vm>(cfg, prog, gg.input); d = std::make_unique<DbgEnd>(machine->ch, nullptr);
        auto first = recv(); if (first != "STOPPED") c.fail("announce", "first message is '" + first + "'");
        if (!fits) { // what an oversized image leaves in the memory is not specified
            reason = "CPU_ERROR"; over = true;
            std::istringstream is(ask("PEEKDATA 0 " + std::to_string(cfg.mem))); std::string l; size_t k = 0;
            while (std::getline(is, l) && k < cfg.mem) md.st.mem[k++] = std::stoll(l);
        }
    }
    std::string recv() { try { return *d->Receive(); } catch (const VmGone&) { c.fail("machine-gone", "the machine ended without answering"); } }
    void send(const std::string& s) { c.detail += "> " + s.substr(0, 300) + "\n"; d->Send(s); h = Rng::mix(h * 31 + std::hash<std::string>{}(s.substr(0, s.find(' ')))); }
    std::string ask(const std::string& s) { send(s); auto r = recv(); c.detail += "< " + r.substr(0, 200) + "\n"; c.count("requests"); if (r == "STOPPED") c.fail("surplus-stop", "a stop was announced instead of an answer to '" + s + "'"); return r; }
    void sync() { auto r = ask("REASON"); if (r != reason) c.fail("reason", "REASON answers '" + r + "', expected '" + reason + "'"); if (d->pending()) c.fail("surplus-message", "more answers than requests"); c.eval(); }
    std::string whole() { std::string s; for (auto q : {"PEEKREGS", "PEEKFLOATREGS", "PEEKDEBUGREGS"}) s += ask(q) + "|"; s += ask("PEEKDATA 0 " + std::to_string(cfg.mem)) + "|" + ask("PEEKTEXT 0 " + std::to_string(md.text.size())); return s; }
    std::string badRequest() {
        auto S = [](uint64_t v) { return std::to_string(v); };
        uint64_t L = md.text.size(), M = cfg.mem;
        auto junk = [&] { return std::string(g.pick<const char*>({"x", "1x", "--1", "0x10", "1.5e", "99999999999999999999999", "-99999999999999999999999", "\xff\xfe", "+", "R0", "1,2"})); };
        std::string neg = g.pick<const char*>({"-1", "-9223372036854775808", "-5"});
        uint64_t farT = g.pick<uint64_t>({L, L + 1, 100000, (uint64_t)INT64_MAX}), farM = g.pick<uint64_t>({M, M + 1, 100000, (uint64_t)INT64_MAX});
        switch (g.below(24)) {
            case 0: return g.pick<const char*>({"PEEKTEXT", "PEEKDATA", "POKETEXT", "POKEDATA", "POKEREGS", "POKEFLOATREGS", "POKEDEBUGREGS"});
            case 1: return std::string(g.pick<const char*>({"PEEKTEXT ", "PEEKDATA ", "POKETEXT ", "POKEDATA "})) + "0";
            case 2: return std::string(g.pick<const char*>({"POKEREGS R0", "POKEFLOATREGS F0", "POKEDEBUGREGS D0", "POKEREGS ", "POKEREGS IP"}));
            case 3: return "PEEKTEXT " + junk() + " 1";
            case 4: return "PEEKTEXT 0 " + junk();
            case 5: return "PEEKTEXT " + (g.chance(1, 3) ? S(L - 1) + " " + S(g.pick<uint64_t>({2, 3, (uint64_t)INT64_MAX, (uint64_t)INT64_MAX - 1})) : S(farT) + " 1");
            case 6: return "PEEKTEXT 0 " + S(g.pick<uint64_t>({L + 1, 1000000, (uint64_t)INT64_MAX}));
            case 7: return "PEEKDATA " + junk() + " 1";
            case 8: return "PEEKDATA 0 " + junk();
            case 9: return "PEEKDATA " + (g.chance(1, 3) ? S(M - 1) + " " + S(g.pick<uint64_t>({2, 3, (uint64_t)INT64_MAX, (uint64_t)INT64_MAX - 1})) : S(farM) + " 1");
            case 10: return "PEEKDATA 0 " + S(g.pick<uint64_t>({M + 1, 1000000, (uint64_t)INT64_MAX}));
            case 11: return std::string(g.pick<const char*>({"PEEKDATA ", "PEEKTEXT "})) + neg + " " + S(g.pick<uint64_t>({1, 1, 2, 5, 6, 0, (uint64_t)INT64_MAX}));
            case 12: return "POKEDATA " + S(farM) + " 5";
            case 13: return "POKEDATA 0 " + junk();
            case 14: return "POKEDATA " + g.pick<std::string>({neg, junk()}) + " 5";
            case 15: return "POKETEXT " + S(farT) + " NOP";
            case 16: return "POKETEXT 0 " + std::string(g.pick<const char*>({"FOO", "MOV R0", "MOV R0,", "ADD 1, R0", "NOP NOP", "JMP", "MOV R0, R1 R2", "\x01", "MOV [R0, 1", ",", "5", ".text", "LEA R0, 5", "MOV R0, 99999999999999999999"}));
            case 17: return "POKETEXT " + g.pick<std::string>({neg, junk()}) + " NOP";
            case 18: return "POKEREGS R0 " + junk();
            case 19: return "POKEREGS " + g.pick<std::string>({"R" + S(cfg.regs), "R1000", "R", "X0", "R-1", "18446744073709551615", "R18446744073709551615", "R18446744073709551612", "r0", "F0", "D0"}) + " 5";
            case 20: return "POKEFLOATREGS " + g.pick<std::string>({"F" + S(cfg.fregs), "F1000", "F", "R0", "F-1", "IP", "F18446744073709551615"}) + " 1.5";
            case 21: return "POKEFLOATREGS F0 " + g.pick<std::string>({"x", "1.5.5", "--2", "1e", "\xff"});
            case 22: return "POKEDEBUGREGS " + g.pick<std::string>({"D5", "D100", "D", "R0", "D-1", "D18446744073709551615"}) + " 5";
            default: return "POKEDEBUGREGS D0 " + g.pick<std::string>({"x", "-1", "5x", "99999999999999999999999"});
        }
    }
    std::string noise() { // not a request at all
        switch (g.below(8)) {
            case 0: return "";
            case 1: return std::string(g.range(1, 5), ' ');
            case 2: return g.pick<const char*>({"FOO", "continue", "CONTINUED", "CONTINUE 1", "REASONX", "SINGLESTEPS", "TERMINATED", "peekregs", "STOPPED", "OK", "REGCOUNTS", "\n", "CONTINUE\n"});
            case 3: { std::string s; size_t n = g.below(40); for (size_t k = 0; k < n; ++k) s += (char)g.below(256); if (s.find_first_not_of(' ') != std::string::npos) { s = s.substr(s.find_first_not_of(' ')); if (!s.empty() && s[0] >= 'A' && s[0] <= 'Z') s[0] = 'q'; } return s; }
            case 4: return std::string(g.range(1, 60000), 'q');
            case 5: return std::string("\0\0", 2);
            case 6: return " \t ";
            default: return "q " + std::string(g.range(1, 2000), ' ');
        }
    }
    void refused(const std::string& q) {
        auto before = whole(); auto r = ask(q);
        if (r == "OK") c.fail("accepted", "'" + q.substr(0, 200) + "' was answered with OK");
        std::string low; for (char ch : r) low += (char)std::tolower((unsigned char)ch);
        if (low.find("error") == std::string::npos && low.find("unknown") == std::string::npos) c.fail("no-error", "'" + q.substr(0, 200) + "' was answered with '" + r.substr(0, 200) + "', not with an error");
        auto after = whole();
        if (before != after) c.fail("changed", "refusing '" + q.substr(0, 200) + "' changed the machine");
        c.count("refused"); sync();
    }
    // resumes execution; the reply, then exactly one announcement
    void resume(bool single) {
        Model n = md; n.steps = 0; auto e = single ? n.singleStep() : rawCont(n);
        if (!e) return;
        md = n;
        auto r = ask(single ? "SINGLESTEP" : "CONTINUE"); if (r != "OK") c.fail("resume-reply", "resuming answered '" + r + "'");
        auto s = recv(); c.detail += "< " + s + "\n"; if (s != "STOPPED") c.fail("announce", "'" + s + "' instead of the announcement of a stop");
        static const std::map<int, std::string> names = {{Ev::Step, "SINGLESTEP"}, {Ev::Bp, "SW_BKPT"}, {Ev::Watch, "HW_BKPT"}, {Ev::End, "HALT"}, {Ev::Err, "CPU_ERROR"}};
        reason = names.at(e->k); over = e->k == Ev::End || e->k == Ev::Err;
        c.count("stop-" + reason); sync();
    }
    std::optional<Ev> rawCont(Model& n) { while (n.steps < BUDGET) if (auto e = n.exec1()) return e; return std::nullopt; }
    void good() {
        auto S = [](int64_t v) { return std::to_string(v); };
        auto ok = [&](const std::string& q) { auto r = ask(q); if (r != "OK") c.fail("not-ok", "'" + q + "' answered '" + r + "'"); };
        switch (g.below(12)) {
            case 0: { size_t k = g.below(cfg.regs); int64_t v = g.value(); ok("POKEREGS R" + S(k) + " " + S(v)); md.st.R[k] = v; break; }
            case 1: { int64_t v = g.below(16); ok("POKEREGS FLAGS " + S(v)); md.st.flags = v; break; }
            case 2: { size_t k = g.below(cfg.mem); int64_t v = g.value(); ok("POKEDATA " + S(k) + " " + S(v)); md.st.mem[k] = v; break; }
            case 3: { vm::GenOpt o; Program pp; pp.text = {vm::wildIns(g, cfg, o, md.text.size())}; finiteLiterals(pp); size_t k = g.below(md.text.size()); ok("POKETEXT " + S(k) + " " + m::show(pp.text[0])); md.text[k] = pp.text[0]; break; }
            case 4: { size_t k = g.below(4); size_t a = g.below(cfg.mem); ok("POKEDEBUGREGS D" + S(k) + " " + S(a)); ok("POKEDEBUGREGS D4 " + S(1ull << k)); md.wps = {(int64_t)a}; break; }
            case 5: { if (!cfg.fregs) break; size_t k = g.below(cfg.fregs); double v = vm::genFloat(g); if (std::isnan(v)) v = 2.5; ok("POKEFLOATREGS F" + S(k) + " " + m::showFloat(v)); md.st.F[k] = bitsOf(v); break; }
            case 6: { auto r = ask("TEXTSIZE"); if (r != "TEXTSIZE:" + S(md.text.size())) c.fail("textsize", "TEXTSIZE answers '" + r + "'"); break; }
            case 7: { auto r = ask("DATASIZE"); if (r != "DATASIZE:" + S(cfg.mem)) c.fail("datasize", "DATASIZE answers '" + r + "' for a memory of " + S(cfg.mem)); break; }
            case 8: { std::string want; size_t a = g.below(cfg.mem), n = g.below(cfg.mem - a + 1); for (size_t k = a; k < a + n; ++k) want += S(md.st.mem[k]) + "\n"; auto r = ask("PEEKDATA " + S(a) + " " + S(n)); if (r != want) c.fail("peekdata", "PEEKDATA answers wrongly"); break; }
            case 9: { auto r = ask("PEEKREGS"); std::string want = "BP:" + S(md.st.bp) + "\nSP:" + S(md.st.sp) + "\n"; for (size_t k = 0; k < cfg.regs; ++k) want += "R" + S(k) + ":" + S(md.st.R[k]) + "\n"; if (r.size() < want.size() || r.substr(r.size() - want.size()) != want) c.fail("peekregs", "PEEKREGS answers '" + r + "', expected '" + want + "'"); break; }
            case 10: { // several requests at once
                size_t n = g.range(2, 6); std::vector<std::string> qs; for (size_t k = 0; k < n; ++k) qs.push_back(g.pick<const char*>({"REASON", "TEXTSIZE", "DATASIZE", "NOSUCH", "PEEKDATA 0", "REASON"}));
                for (auto& q : qs) send(q);
                for (auto& q : qs) { auto r = recv(); c.count("requests"); bool okr = q == "REASON" ? r == reason : q == "TEXTSIZE" ? r == "TEXTSIZE:" + S(md.text.size()) : q == "DATASIZE" ? r == "DATASIZE:" + S(cfg.mem) : r != "OK" && r != reason && r.substr(0, 5) != "TEXTS"; if (!okr) c.fail("order", "answer '" + r + "' to '" + q + "' in a batch"); }
                break; }
            default: { auto r = ask("PEEKTEXT 0 " + S(md.text.size())); std::istringstream is(r); std::string l; size_t k = 0; while (std::getline(is, l)) { auto x = readIns(l); if (k >= md.text.size() || !x || !(*x == md.text[k])) c.fail("peektext", "PEEKTEXT shows '" + l + "'"); ++k; } if (k != md.text.size()) c.fail("peektext", "PEEKTEXT shows " + S(k) + " instructions"); break; }
        }
        sync();
    }
};
static void proto(Ctx& c) {
    Raw r(c); r.sync(); Rng& g = c.rng;
    size_t n = g.range(4, 24);
    for (size_t k = 0; k < n; ++k) {
        if (r.md.st.ambiguous) throw Discard{};
        switch (g.below(8)) {
            case 0: case 1: r.refused(r.badRequest()); break;
            case 2: { auto q = r.noise(); r.refused(q); break; }
            case 3: case 4: r.good(); break;
            case 5: if (!r.over) r.resume(true); break;
            default: if (!r.over) r.resume(false); break;
        }
    }
    // the end: terminate, connection lost, or resumed after the last stop
    int how = (int)g.below(3); int wantRes = -1;
    if (how == 0 || (how == 2 && !r.over)) { auto a = r.ask("TERMINATE"); if (a != "OK") c.fail("terminate", "TERMINATE answers '" + a + "'"); c.count("end-terminate"); }
    else if (how == 1) { c.detail += "> connection closed\n"; r.machine->close(); c.count("end-lost"); }
    else { auto a = r.ask("CONTINUE"); if (a != "OK") c.fail("continue-at-end", "CONTINUE at the end answers '" + a + "'"); c.count("end-continue"); }
    r.machine->join();
    if (r.d->pending()) c.fail("surplus-message", "messages after the end");
    (void)wantRes;
    if (r.machine->out() != r.md.st.out) c.fail("output", "output differs");
    c.feature(r.h); c.eval();
}

std::vector<ModeDef> modes() {
    return {
        {"dbg-memory", memory},
        {"dbg-step", [](Ctx& c) { drive(c, 25, W_STEP, 4, 40, true); }},
        {"dbg-break", [](Ctx& c) { drive(c, 30, W_BREAK, 4, 40, true); }},
        {"dbg-watch", [](Ctx& c) { drive(c, 40, W_WATCH, 4, 40, true); }},
        {"dbg-modify", [](Ctx& c) { drive(c, 20, W_MOD, 4, 40, true); }},
        {"dbg-over", [](Ctx& c) { drive(c, 90, W_OVER, 6, 50, true); }},
        {"dbg-transparent", transparent}, {"dbg-setall", setall}, {"dbg-setall-watch", setall},
        {"proto", proto},
    };
}
int main(int argc, char** argv) { return harnessMain(argc, argv); }
