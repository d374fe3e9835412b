// A real machine (OS + Debug) in its own thread, a debugger end in the caller's, and a sequential model
// of what the debuggee and the debugger's bookkeeping have to be.
#pragma once
#include "vm.h"
#include "t86/os.h"
#include "common/threads_messenger.h"
#include "common/config.h"
#include "debugger/Native.h"
#include "debugger/T86Process.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <deque>

namespace ses {
using namespace m;
namespace t = tiny::t86;

inline void machineConfig(size_t alus, size_t gates) { // the machine's configuration outside the constructor's arguments
    tiny::Config c{};
    c.setDefaultIfMissing("-aluCnt", std::to_string(alus));
    c.setDefaultIfMissing("-ramGates", std::to_string(gates));
    c.setDefaultIfMissing("-registerCnt", "10");
    c.setDefaultIfMissing("-floatRegisterCnt", "5");
    c.setDefaultIfMissing("-reservationStationEntriesCnt", "2");
    c.setDefaultIfMissing("-ram", "1024");
    tiny::config = c;
}

// the machine's end of a channel which can be closed
struct Chan {
    std::mutex m; std::condition_variable cv;
    std::deque<std::string> toVm, toDbg; bool closed = false, vmDone = false;
};
struct VmEnd : Messenger {
    std::shared_ptr<Chan> c; explicit VmEnd(std::shared_ptr<Chan> c) : c(std::move(c)) {}
    void Send(const std::string& s) override { std::lock_guard l(c->m); c->toDbg.push_back(s); c->cv.notify_all(); }
    std::optional<std::string> Receive() override {
        std::unique_lock l(c->m); c->cv.wait(l, [&] { return !c->toVm.empty() || c->closed; });
        if (c->toVm.empty()) return std::nullopt;
        auto s = c->toVm.front(); c->toVm.pop_front(); return s;
    }
};
struct VmGone : std::runtime_error { VmGone() : std::runtime_error("the machine ended without answering") {} };
struct DbgEnd : Messenger {
    std::shared_ptr<Chan> c; std::vector<std::string>* log;
    DbgEnd(std::shared_ptr<Chan> c, std::vector<std::string>* log) : c(std::move(c)), log(log) {}
    void Send(const std::string& s) override { if (log) log->push_back("> " + s); std::lock_guard l(c->m); c->toVm.push_back(s); c->cv.notify_all(); }
    std::optional<std::string> Receive() override {
        std::unique_lock l(c->m); c->cv.wait(l, [&] { return !c->toDbg.empty() || c->vmDone; });
        if (c->toDbg.empty()) throw VmGone();
        auto s = c->toDbg.front(); c->toDbg.pop_front(); if (log) log->push_back("< " + s); return s;
    }
    size_t pending() { std::lock_guard l(c->m); return c->toDbg.size(); }
};
// another channel than Chan between the two (C14)
struct Link {
    virtual std::unique_ptr<Messenger> vmEnd() = 0; // called in the machine's thread
    virtual std::unique_ptr<Messenger> dbgEnd() = 0;
    virtual void close() = 0; // lets a machine which waits for the debugger end
    virtual ~Link() = default;
};
inline thread_local std::shared_ptr<Link> useLink; // for the sessions of this thread
struct Vm { // owns the machine's thread; whatever happens, leaves nothing running that touches freed memory
    std::shared_ptr<Chan> ch = std::make_shared<Chan>(); std::shared_ptr<Link> link = useLink;
    std::shared_ptr<vm::CinGuard> io;
    std::thread th; std::shared_ptr<std::atomic<int>> res = std::make_shared<std::atomic<int>>(-1);
    Vm(const vm::Cfg& c, const Program& p, const std::string& input) {
        machineConfig(c.alus, c.gates);
        t::StatsLogger::instance().reset();
        io = std::make_shared<vm::CinGuard>(input);
        auto prog = std::make_shared<t::Program>(vm::load(p));
        auto chan = ch; auto r = res; auto cfg = c; auto lk = link;
        th = std::thread([chan, r, cfg, prog, lk] {
            bool ok;
            { t::OS os(cfg.regs, cfg.fregs, cfg.mem);
              os.SetDebuggerComms(lk ? lk->vmEnd() : std::make_unique<VmEnd>(chan));
              ok = os.Run(std::move(*prog)); }
            *r = ok; std::lock_guard l(chan->m); chan->vmDone = true; chan->cv.notify_all();
        });
    }
    std::string out() { return io->out.str(); }
    void close() { if (link) link->close(); std::lock_guard l(ch->m); ch->closed = true; ch->cv.notify_all(); }
    void join() { if (th.joinable()) th.join(); }
    ~Vm() { close(); join(); }
};

struct Ev {
    enum K { Step, Bp, Watch, End, Err, Begin } k = Step; int64_t addr = 0;
    bool operator==(const Ev& o) const { return k == o.k && (k == Bp || k == Watch ? addr == o.addr : true); }
};
inline std::string show(const Ev& e) {
    static const char* n[] = {"singlestep", "breakpoint", "watchpoint", "end", "cpu-error", "begin"};
    return std::string(n[e.k]) + (e.k == Ev::Bp || e.k == Ev::Watch ? "@" + std::to_string(e.addr) : "");
}
inline Ev conv(const DebugEvent& d) {
    if (auto* p = std::get_if<BreakpointHit>(&d)) return {Ev::Bp, (int64_t)p->address};
    if (auto* p = std::get_if<WatchpointTrigger>(&d)) return {Ev::Watch, (int64_t)p->address};
    if (std::holds_alternative<Singlestep>(d)) return {Ev::Step, 0};
    if (std::holds_alternative<ExecutionEnd>(d)) return {Ev::End, 0};
    if (std::holds_alternative<ExecutionBegin>(d)) return {Ev::Begin, 0};
    return {Ev::Err, (int64_t)std::get<CpuError>(d).address};
}

// The debuggee as it should be, with the debugger's breakpoints and watchpoints
struct Model {
    std::vector<Ins> text; Machine st; std::map<int64_t, bool> bps; std::set<int64_t> wps; size_t steps = 0;
    std::optional<Ev> exec1() {
        ++steps;
        auto inf = step(text, st);
        if (st.status == Machine::Halted) return Ev{Ev::End, 0};
        if (st.status == Machine::Fault) return Ev{Ev::Err, 0};
        if (st.status == Machine::Breakpoint) { st.status = Machine::Running; return Ev{Ev::Bp, st.ip - 1}; }
        if (inf.wrote && wps.count((int64_t)inf.addr)) return Ev{Ev::Watch, (int64_t)inf.addr};
        return std::nullopt;
    }
    bool enabled(int64_t a) const { auto it = bps.find(a); return it != bps.end() && it->second; }
    bool inText(int64_t a) const { return a >= 0 && a < (int64_t)text.size(); }
    // nullopt: does not stop within the budget (or leaves what is specified)
    std::optional<Ev> singleStep() { auto e = exec1(); return e ? *e : Ev{Ev::Step, 0}; }
    std::optional<Ev> cont(size_t budget) {
        for (size_t n = 0; steps < budget; ++n) {
            if (n && enabled(st.ip)) return Ev{Ev::Bp, st.ip};
            if (auto e = exec1()) return e;
        }
        return std::nullopt;
    }
    std::optional<Ev> stepOver(size_t budget, bool skip, bool* atUserBp = nullptr) {
        if (!inText(st.ip)) return std::nullopt;
        if (!skip && enabled(st.ip)) return Ev{Ev::Bp, st.ip};
        if (text[st.ip].op != CALL) return singleStep();
        int64_t ret = st.ip + 1, frame = st.bp, sp = st.sp;
        if (!inText(ret)) return std::nullopt;
        if (auto e = exec1()) return e;
        if (enabled(st.ip)) return Ev{Ev::Bp, st.ip};
        for (size_t n = 0; steps < budget; ++n) {
            if (n) {
                bool heur = st.ip == ret && st.bp == frame, real = st.ip == ret && st.sp == sp;
                // the documented heuristic (base pointer) and the actual return have to agree, else nothing is specified
                if (heur != real) return std::nullopt;
                if (heur) { if (atUserBp) *atUserBp = enabled(ret); return Ev{Ev::Step, 0}; }
                if (enabled(st.ip)) return Ev{Ev::Bp, st.ip};
            }
            if (auto e = exec1()) return e;
        }
        return std::nullopt;
    }
    std::optional<Ev> stepOut(size_t budget) {
        bool first = true;
        for (size_t n = 0; steps < budget; ++n, first = false) {
            if (!inText(st.ip)) return std::nullopt;
            bool ret = text[st.ip].op == RET;
            auto e = stepOver(budget, first);
            if (!e) return e;
            if (e->k != Ev::Step || ret) return e;
        }
        return std::nullopt;
    }
};
}
