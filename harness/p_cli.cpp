// C20, C21: the command line debugger and the command line runner, as programs: batch sessions whose complete
// transcript is predicted by the sequential model (or, for arbitrary input, has to be clean).
#include "srcenv.h"
#include <spawn.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <signal.h>
#include <fstream>
#include <thread>
#include <stop_token>
using namespace se;
extern char** environ;

namespace {
const std::string MARK = "\x01\x02RDY\x02\x01";
std::string S(int64_t v) { return std::to_string(v); }
std::string U(uint64_t v) { return std::to_string(v); }

std::string bindir() { static std::string d; if (d.empty()) { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0; d = b; d.resize(d.rfind('/')); } return d; }
struct Tmp { // scratch directory of one case
    std::string d; Tmp() { char t[] = "/tmp/moncli.XXXXXX"; if (!mkdtemp(t)) throw std::runtime_error("mkdtemp"); d = t; }
    ~Tmp() { for (auto n : {"prog.t86", "in", "out", "err", "port", "port.asked", "port.tmp", "prog.fifo", "tin", "tout", "terr"}) unlink((d + "/" + n).c_str()); rmdir(d.c_str()); }
    std::string at(const std::string& n) { return d + "/" + n; }
    void put(const std::string& n, const std::string& s) { std::ofstream(at(n), std::ios::binary) << s; }
    std::string get(const std::string& n) { std::ifstream f(at(n), std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
};
struct Child {
    pid_t pid = -1; int rc = -1; bool done = false;
    void start(const std::vector<std::string>& argv, const std::string& in, const std::string& out, const std::string& err, const std::vector<std::string>& env) {
        posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
        posix_spawn_file_actions_addopen(&fa, 0, in.c_str(), O_RDONLY, 0); posix_spawn_file_actions_addopen(&fa, 1, out.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0600);
        if (err.empty()) posix_spawn_file_actions_adddup2(&fa, 1, 2); else posix_spawn_file_actions_addopen(&fa, 2, err.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0600);
        std::vector<std::string> e = env; for (char** p = environ; *p; ++p) if (strncmp(*p, "ASAN_OPTIONS=", 13) && strncmp(*p, "NODBGPROMPT=", 12)) e.push_back(*p);
        e.push_back("ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:max_allocation_size_mb=4096"); e.push_back("NODBGPROMPT=1");
        std::vector<char*> a, ee; for (auto& x : argv) a.push_back(const_cast<char*>(x.c_str())); a.push_back(nullptr); for (auto& x : e) ee.push_back(const_cast<char*>(x.c_str())); ee.push_back(nullptr);
        if (posix_spawn(&pid, argv[0].c_str(), &fa, nullptr, a.data(), ee.data())) throw std::runtime_error("cannot start " + argv[0]);
        posix_spawn_file_actions_destroy(&fa);
    }
    bool poll() { if (done) return true; int st; if (waitpid(pid, &st, WNOHANG) == pid) { done = true; rc = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st); } return done; }
    bool wait(double s) { for (double t = 0; t < s; t += 0.001) { if (poll()) return true; usleep(t < 0.2 ? 500 : 2000); if (t >= 0.2) t += 0.001; } return false; }
    ~Child() { if (pid > 0 && !done) { kill(pid, SIGKILL); int st; waitpid(pid, &st, 0); } }
};
const double PATIENCE = 20;
std::string bad(const std::string& t) { // signs of a crash in what a program printed
    for (auto s : {"ERROR: AddressSanitizer", "runtime error: ", "terminate called", "WARNING: ThreadSanitizer", "Assertion "}) { auto p = t.find(s); if (p != t.npos) return t.substr(p, 300); }
    return "";
}

// ---- expected pieces of output ---------------------------------------------------------------
struct Rd {
    const std::string& s; size_t p = 0;
    void ansi() { while (p + 1 < s.size() && s[p] == 27 && s[p + 1] == '[') { size_t q = p + 2; while (q < s.size() && (isdigit((unsigned char)s[q]) || s[q] == ';')) ++q; p = q < s.size() ? q + 1 : q; } }
    std::string lit(const std::string& t) {
        for (char x : t) { if (x != 27) ansi(); if (p >= s.size() || s[p] != x) return "expected " + jesc(t) + " at " + jesc(s.substr(std::min(p, s.size()), 200)); ++p; }
        return "";
    }
    std::string raw(const std::string& t) { if (s.compare(p, t.size(), t)) return "expected " + jesc(t) + " at " + jesc(s.substr(std::min(p, s.size()), 200)); p += t.size(); return ""; }
    std::string line() { std::string o; while (true) { ansi(); if (p >= s.size()) return o; char x = s[p++]; if (x == '\n') return o; o += x; } }
    bool end() { ansi(); return p >= s.size(); }
};
using P = std::function<std::string(Rd&)>;
using Ps = std::vector<P>;
P lit(const std::string& t) { return [t](Rd& r) { return r.lit(t); }; }
P rawp(const std::string& t) { return [t](Rd& r) { return r.raw(t); }; }
P any() { return [](Rd& r) { r.p = r.s.size(); return std::string(); }; }
P err() { return [](Rd& r) { auto e = r.lit("Error: "); if (!e.empty()) return e; r.p = r.s.size(); return std::string(); }; }
P answered() { return [](Rd& r) { if (r.end()) return std::string("the command was not answered"); r.p = r.s.size(); return std::string(); }; }
void cat(Ps& a, Ps b) { for (auto& x : b) a.push_back(std::move(x)); }

struct Cmd { std::string line; std::vector<Ps> alt; std::string delta; std::string key; size_t silent = 0; bool first = false; }; // silent: markers of further lines read by the command before

struct Cli {
    Ctx& c; Rng& g; Tmp tmp; Program prog; World w; std::map<size_t, uint64_t> map; std::vector<std::string> src; bool haveMap = false, haveSrc = false, haveInfo = false;
    Model md; size_t regs = 8, fregs = 4, mem = 1024; bool active = false, running = false, faulted = false; std::set<int64_t> blank; size_t idx = 0;
    std::vector<Cmd> cmds; bool attached = false; std::string attachedOut; uint64_t h = 7; bool srcLoaded = false;
    explicit Cli(Ctx& c) : c(c), g(c.rng) {}

    // --- spelling
    std::string sp() { return g.chance(1, 12) ? std::string(g.range(2, 3), ' ') : " "; }
    std::string word(const std::vector<const char*>& all, const std::string& w) {
        if (g.chance(1, 2)) return w;
        std::vector<std::string> ok; for (size_t n = 1; n <= w.size(); ++n) { auto p = w.substr(0, n); int k = 0; for (auto a : all) k += std::string(a).rfind(p, 0) == 0; if (k == 1) ok.push_back(p); }
        return ok.empty() ? w : g.pick(ok);
    }
    std::string top(const std::string& w) {
        static const std::vector<const char*> all = {"run", "attach", "help", "breakpoint", "istep", "inext", "disassemble", "assemble", "continue", "register", "memory", "watchpoint", "next", "step", "finish", "frame", "source", "expression", "print"};
        return word(all, w);
    }
    std::string sub(const std::string& t, const std::string& w) {
        if (t == "breakpoint") { static const std::vector<const char*> v = {"iset", "set", "unset", "remove", "enable", "disable", "idisable", "ienable", "iunset", "iremove", "list"}; return word(v, w); }
        if (t == "register") return word({"set", "get", "fget", "fset"}, w);
        if (t == "disassemble") return word({"range", "from", "function"}, w);
        if (t == "watchpoint") return word({"iset", "irem", "list"}, w);
        return w;
    }
    std::string cmd(const std::string& t, const std::string& s = "", const std::vector<std::string>& args = {}) {
        std::string o = (g.chance(1, 20) ? " " : "") + top(t); if (!s.empty()) o += sp() + sub(t, s); for (auto& a : args) o += sp() + a; if (g.chance(1, 20)) o += " "; return o;
    }
    void add(const std::string& key, const std::string& line, std::vector<Ps> alt, const std::string& delta = "") { cmds.push_back({line, std::move(alt), delta, key}); c.detail += "> " + line + "\n"; h = Rng::mix(h * 31 + std::hash<std::string>{}(key)); c.count("command-" + key.substr(0, key.find(' '))); }
    void add1(const std::string& key, const std::string& line, Ps p, const std::string& delta = "") { add(key, line, {std::move(p)}, delta); }
    void fails(const std::string& key, const std::string& line) { add1(key + " refused", line, {err()}); }

    // --- reference of what is shown
    std::vector<int64_t> ips() const { if (faulted) return {md.st.ip, md.st.ip + 1}; return {md.st.ip}; }
    std::optional<size_t> lineOf(uint64_t a) const { std::optional<size_t> r; if (srcLoaded) for (auto& [l, x] : map) if (x == a && (!r || l > *r)) r = l; return r; }
    std::optional<std::string> text(size_t l) const { if (!srcLoaded || !haveSrc || l >= src.size()) return {}; return src[l]; }
    static P insText(const Ins& want, bool free) { return [want, free](Rd& r) -> std::string { auto l = r.line(); if (free) return ""; auto x = readIns(l); return x && *x == want ? "" : "instruction shown as '" + l + "', expected '" + m::show(want) + "'"; }; }
    // ' ', or the sign of a breakpoint: 1 enabled, 0 disabled, -1 none
    static P bpMark(int want) { return [want](Rd& r) -> std::string {
        size_t q = r.p; std::string esc; while (q + 1 < r.s.size() && r.s[q] == 27) { size_t e = q + 2; while (e < r.s.size() && !isalpha((unsigned char)r.s[e])) ++e; esc = r.s.substr(q, e + 1 - q); q = e + 1; }
        int got = q < r.s.size() && r.s[q] == '@' ? esc.find("38;2;255;000;000") != esc.npos : -1;
        if (got < 0) { auto e = r.lit(" "); if (!e.empty()) return e; } else { r.p = q + 1; r.ansi(); }
        return got == want ? "" : std::string("breakpoint shown as ") + (got < 0 ? "none" : got ? "enabled" : "disabled"); }; }
    int bpAt(int64_t a) const { auto it = md.bps.find(a); return it == md.bps.end() ? -1 : it->second; }
    static P arrow(bool yes, bool maybe) { return [yes, maybe](Rd& r) -> std::string { Rd q = r; if (q.lit("->").empty()) { r.p = q.p; return yes || maybe ? "" : "marked as the current one"; } auto e = r.lit("  "); if (!e.empty()) return e; return !yes || maybe ? "" : "not marked as the current one"; }; }
    static std::string pad(uint64_t v) { auto s = U(v); return s.size() < 4 ? std::string(4 - s.size(), ' ') + s : s; }
    Ps insLines(int64_t b, int64_t e) const { Ps o; for (int64_t a = b; a < e; ++a) { auto v = ips(); bool cur = std::find(v.begin(), v.end(), a) != v.end(); o.push_back(bpMark(bpAt(a))); o.push_back(arrow(cur, cur && v.size() > 1)); o.push_back(lit(pad(a) + ":  ")); o.push_back(insText(md.text[a], blank.count(a))); } return o; }
    Ps fnInfo(uint64_t a, bool vars) const {
        if (!srcLoaded || !haveInfo) return {}; auto f = w.fnAt(a); if (!f) return {}; std::string o = "function " + f->name + " at " + U(f->b) + "-" + U(f->e); bool first = true;
        if (vars) for (auto& [n, v] : w.visible(a)) { o += (first ? "; active variables: " : ", ") + n; first = false; }
        return {lit(o + "\n")};
    }
    Ps prettyText(int64_t ip) const { if (ip < 0 || ip >= (int64_t)md.text.size()) return {}; Ps o = fnInfo(ip, true); cat(o, insLines(std::max<int64_t>(0, ip - 2), std::min<int64_t>(md.text.size(), ip + 3))); return o; }
    Ps codeLines(size_t b, size_t e) const {
        Ps o; auto cur = lineOf(md.st.ip);
        for (size_t l = b; l < e; ++l) {
            auto t = text(l); if (!t) break; int mark = -1; if (auto it = map.find(l); it != map.end()) { auto back = lineOf(it->second); if (back && *back == l) mark = bpAt((int64_t)it->second); }
            o.push_back(bpMark(mark)); o.push_back(arrow(cur && *cur == l, false)); o.push_back(lit(pad(l + 1) + ":")); o.push_back(lit(*t + "\n"));
        }
        return o;
    }
    Ps prettyCode(size_t l) const { Ps o = fnInfo(md.st.ip, true); cat(o, codeLines(l >= 2 ? l - 2 : 0, l + 3)); return o; }
    Ps where(bool source) const { if (auto l = lineOf(md.st.ip); l && source) return prettyCode(*l); return prettyText(md.st.ip); }
    Ps reason(const Ev& e) const {
        std::string d;
        switch (e.k) {
            case Ev::Step: d = "Singlestep done"; break; case Ev::Bp: if (auto l = lineOf(e.addr)) d = "Software breakpoint hit at line " + U(*l + 1); else d = "Software breakpoint hit at address " + S(e.addr); break;
            case Ev::Watch: d = "Watchpoint triggered at memory address " + S(e.addr); break; case Ev::End: d = "The program finished execution"; break; case Ev::Begin: d = "Execution started"; break;
            case Ev::Err: return {lit("Process stopped, reason: Inner CPU error occured."), any()};
        }
        return {lit("Process stopped, reason: " + d + "\n")};
    }
    St state() const { St s; s.mem = md.st.mem; for (size_t k = 0; k < regs; ++k) s.regs["R" + S(k)] = md.st.R[k]; s.regs["SP"] = md.st.sp; s.regs["BP"] = md.st.bp; s.regs["IP"] = md.st.ip; return s; }

    // --- commands
    Ps atBp(const std::string& what, uint64_t a) const { auto l = lineOf(a); if (!l) return {lit("Breakpoint " + what + " address " + U(a) + "\n")}; auto t = text(*l); return {lit("Breakpoint " + what + " line " + U(*l + 1) + " (addr " + U(a) + ")" + (t ? ": " + *t : "") + "\n")}; }
    std::string flat(const std::string& key, const std::string& s) { return s; }
    void start() { // run [options]
        size_t r = 8, f = 4, m = 1024; std::vector<std::string> a;
        if (g.chance(1, 2)) { r = g.chance(1, 15) ? g.range(15, 300) : g.range(5, 14); a.push_back("--reg-count=" + U(r)); } if (g.chance(1, 3)) { f = g.chance(1, 15) ? g.range(7, 100) : g.range(1, 6); a.push_back("--float-reg-count=" + U(f)); } if (g.chance(1, 3)) { m = g.chance(1, 15) ? g.range(301, 4000) : g.range(64, 300); a.push_back("--data-size=" + U(m)); }
        for (int64_t x : md.wps) if (x >= (int64_t)m) return;
        for (size_t k = a.size(); k > 1; --k) std::swap(a[k - 1], a[g.below(k)]);
        if (!prog.data.empty() && g.chance(1, 10)) { // a run which fails: what was set isn't lost
            fails("run-too-small", cmd("run", "", {"--data-size=" + U(g.below(prog.data.size()))})); srcLoaded = true; active = true; running = false;
            if (g.chance(1, 2)) lists();
            if (g.chance(1, 2)) wlist();
        }
        begin(r, f, m); srcLoaded = true;
        add1("run", cmd("run", "", a), {lit("Started process '" + tmp.at("prog.t86") + "'\n")});
    }
    void begin(size_t r, size_t f, size_t m, bool carry = true) {
        if (attached) { attachedOut = md.st.out; attached = false; }
        regs = r; fregs = f; mem = m; auto b = md.bps; auto wp = md.wps; md = Model(); md.text = prog.text; md.st = Machine(r, f, m); md.st.load(prog); blank.clear();
        if (carry) { md.bps = b; md.wps = wp; for (auto& [x, en] : b) if (!en) blank.insert(x); }
        active = running = true; faulted = false; idx = 0;
    }
    bool exec(const std::string& kind) {
        Model x = md; x.steps = 0; bool user = false; std::optional<Ev> e; bool source = kind == "step" || kind == "next";
        if (!running) { fails(kind, cmd(kind)); return true; }
        if (!md.inText(md.st.ip)) return false;
        if (kind == "istep") e = x.singleStep(); else if (kind == "continue") e = x.cont(BUDGET); else if (kind == "inext") e = x.stepOver(BUDGET, true, &user); else if (kind == "finish") e = x.stepOut(BUDGET);
        else if (kind == "step") { e = x.singleStep(); while (e && e->k == Ev::Step && !lineOf(x.st.ip)) { if (x.steps > BUDGET) return false; if (x.enabled(x.st.ip)) { e = Ev{Ev::Bp, x.st.ip}; break; } e = x.singleStep(); } }
        else { e = x.stepOver(BUDGET, true, &user); while (e && e->k == Ev::Step && !lineOf(x.st.ip)) { if (user || x.steps > BUDGET) return false; e = x.stepOver(BUDGET, false, &user); } }
        if (!e || x.st.ambiguous) return false;
        std::string delta = attached ? "" : x.st.out.substr(md.st.out.size());
        md = x;
        if (e->k == Ev::Err) { running = false; faulted = true; } if (e->k == Ev::End) running = false;
        auto report = [&](const Ev& ev) {
            Ps o; if (kind == "continue" || ev.k != Ev::Step) o = reason(ev);
            if (ev.k == Ev::Err || ev.k == Ev::End) return o;
            if (source) { if (auto l = lineOf(md.st.ip)) cat(o, prettyCode(*l)); } else cat(o, where(kind == "continue" || kind == "finish"));
            return o;
        };
        std::vector<Ps> alt{report(*e)}; if (user) alt.push_back(report(Ev{Ev::Bp, md.st.ip}));
        add(kind + " " + show(Ev{e->k, 0}).substr(0, 5), cmd(kind), std::move(alt), delta); c.count("event-" + show(Ev{e->k, 0}).substr(0, 5));
        return true;
    }
    int64_t anyAddr() { if (g.chance(2, 3) && !faulted) { Model x = md; x.bps.clear(); x.wps.clear(); size_t n = g.below(12); for (size_t k = 0; k < n && x.st.status == Machine::Running; ++k) { auto e = x.exec1(); if (e && (e->k == Ev::End || e->k == Ev::Err)) break; } if (md.inText(x.st.ip)) return x.st.ip; } return (int64_t)g.below(md.text.size()); }
    int64_t cell() { if (g.chance(1, 2)) { Model x = md; x.bps.clear(); x.wps.clear(); std::vector<int64_t> v; for (int k = 0; k < 40 && x.st.status == Machine::Running; ++k) { auto inf = m::step(x.text, x.st); if (x.st.status == Machine::Breakpoint) x.st.status = Machine::Running; if (inf.wrote) v.push_back(inf.addr); } if (!v.empty()) return g.pick(v); } return (int64_t)g.below(mem); }
    std::optional<uint64_t> resolve(const std::string& t) const {
        bool num = !t.empty() && t.find_first_not_of("0123456789") == t.npos;
        if (num) { uint64_t n = t.size() > 18 ? 0 : std::stoull(t); if (!n || !srcLoaded) return {}; auto it = map.find(n - 1); if (it == map.end()) return {}; return it->second; }
        if (srcLoaded && haveInfo) for (auto& f : w.fns) if (f.name == t) return f.b;
        return {};
    }
    void bpAct(const std::string& what, const std::string& line, std::optional<uint64_t> a, Ps ok) {
        bool in = a && md.inText((int64_t)*a), has = a && md.bps.count((int64_t)*a);
        if (what == "set" ? !in || has : !has) { fails("breakpoint-" + what, line); return; }
        if (what == "set") { md.bps[*a] = true; } else if (what == "enable") { md.bps[*a] = true; blank.erase(*a); } else if (what == "disable") md.bps[*a] = false; else { md.bps.erase(*a); }
        add1("breakpoint-" + what, line, std::move(ok));
    }
    void breakpoints() {
        std::string what = g.pick<const char*>({"set", "set", "set", "unset", "enable", "disable"}); bool have = !md.bps.empty();
        auto any = [&]() -> int64_t { if (what != "set" && have && !g.chance(1, 8)) { auto it = md.bps.begin(); std::advance(it, g.below(md.bps.size())); return it->first; } return g.chance(1, 15) ? g.pick<int64_t>({(int64_t)md.text.size(), (int64_t)md.text.size() + 7, 100000, INT64_MAX}) : anyAddr(); };
        std::string name = what == "unset" ? g.chance(1, 2) ? "remove" : "unset" : what;
        if (g.chance(1, 2) || !srcLoaded) { // by address
            int64_t a = any(); Ps ok; static const std::map<std::string, std::string> m = {{"unset", "removed from"}, {"enable", "enabled at"}, {"disable", "disabled at"}};
            if (what == "set") { if (md.inText(a) && !md.bps.count(a)) ok = {lit("Breakpoint set on address " + S(a) + ": '"), [ins = md.text[a], fr = blank.count(a) > 0](Rd& r) -> std::string { auto l = r.line(); if (fr) return ""; if (l.empty() || l.back() != '\'') return "no instruction: " + l; l.pop_back(); auto x = readIns(l); return x && *x == ins ? "" : "instruction shown as '" + l + "'"; }}; }
            else ok = {lit("Breakpoint " + m.at(what) + " address " + S(a) + "\n")};
            bpAct(what, cmd("breakpoint", "i" + name, {S(a)}), a, ok); return;
        }
        std::string loc; if (g.chance(1, 3) && !w.fns.empty()) loc = g.pick(w.fns).name; else if (g.chance(1, 10)) loc = g.pick<const char*>({"0", "nosuch", "-3", "99999", "1x", "18446744073709551615"});
        else { std::optional<size_t> l; if (what != "set" || g.chance(2, 3)) l = lineOf(any()); if (!l && !map.empty()) { auto it = map.begin(); std::advance(it, g.below(map.size())); l = it->first; } loc = l ? U(*l + 1) : "1"; }
        auto a = resolve(loc); static const std::map<std::string, std::string> m = {{"set", "set on"}, {"unset", "removed from"}, {"enable", "enabled on"}, {"disable", "disabled on"}};
        bpAct(what, cmd("breakpoint", name, {loc}), a, a ? atBp(m.at(what), *a) : Ps{});
    }
    void lists() {
        Ps o; for (auto& [a, en] : md.bps) { auto l = lineOf(a); std::string t = "addr: " + S(a) + (l ? ", line: " + U(*l + 1) : "") + "; " + (en ? "enabled" : "disabled"); if (srcLoaded && haveInfo) if (auto f = w.fnAt(a)) t += "; function: " + f->name; o.push_back(lit(t + "\n")); }
        add1("breakpoint-list", cmd("breakpoint", "list"), o);
    }
    void wlist() {
        if (md.wps.empty()) { add1("watchpoint-list", cmd("watchpoint", "list"), {answered()}); return; }
        add1("watchpoint-list", cmd("watchpoint", "list"), {lit("Active watchpoints:\n"), [ws = md.wps](Rd& r) -> std::string { std::set<int64_t> got; while (!r.end()) { auto l = r.line(); if (l.rfind(" - address ", 0)) return "line " + jesc(l); if (!got.insert(std::stoll(l.substr(11))).second) return "listed twice"; } return got == ws ? "" : "another list of watchpoints"; }});
    }
    void watch() {
        if (g.chance(2, 3)) { int64_t a = cell(); if (md.wps.count(a) || md.wps.size() == 4) fails("watchpoint-set", cmd("watchpoint", "iset", {S(a)})); else { md.wps.insert(a); add1("watchpoint-set", cmd("watchpoint", "iset", {S(a)}), {}); } }
        else { int64_t a = md.wps.empty() || g.chance(1, 6) ? cell() : *md.wps.begin(); if (md.wps.erase(a)) add1("watchpoint-remove", cmd("watchpoint", "irem", {S(a)}), {}); else fails("watchpoint-remove", cmd("watchpoint", "irem", {S(a)})); }
    }
    std::string regName() { return g.chance(1, 6) ? g.pick<const char*>({"SP", "BP", "IP"}) : "R" + U(g.below(regs)); }
    int64_t* regPtr(const std::string& n) { if (n == "SP") return &md.st.sp; if (n == "BP") return &md.st.bp; if (n == "IP") return &md.st.ip; return &md.st.R[std::stoull(n.substr(1))]; }
    void registers() {
        auto ft = [this](uint64_t b) -> P { return [b](Rd& r) -> std::string { auto l = r.line(); char* e; double d = strtod(l.c_str(), &e); if (l.empty() || *e) return "not a number: " + l; double x = ofBits(b); return (std::isnan(x) && std::isnan(d)) || bitsOf(d) == b ? "" : "float shown as " + l + ", expected " + m::showFloat(x); }; };
        switch (g.below(9)) {
            case 0: case 1: regDump(); break;
            case 2: case 3: { auto n = regName(); if (n == "IP" && faulted) return; add1("register-get", cmd("register", "get", {n}), {lit(S(*regPtr(n)) + "\n")}); break; }
            case 4: case 5: { auto n = regName(); if (!running || (n == "IP" && !g.chance(1, 2))) return; int64_t v = n == "IP" ? (int64_t)g.below(md.text.size()) : n[0] != 'R' ? g.range(0, (int64_t)mem) : g.value(); *regPtr(n) = v; add1("register-set", cmd("register", "set", {n, S(v)}), {}); break; }
            case 6: { size_t k = g.below(fregs); add1("register-fget", cmd("register", "fget", {"F" + U(k)}), {ft(md.st.F[k])}); break; }
            case 7: { size_t k = g.below(fregs); if (!running) return; double v = g.pick({0.5, -1.25, 3.0, 1e100, 0.1, 123456.789, -0.0, 5e-324}); md.st.F[k] = bitsOf(v); add1("register-fset", cmd("register", "fset", {"F" + U(k), m::showFloat(v)}), {}); break; }
            default: { auto n = g.pick<const char*>({"R1000", "X", "R", "r0", "F0", "R-1"}); if (g.chance(1, 2)) fails("register-get", cmd("register", "get", {n})); else fails("register-set", cmd("register", "set", {n, "1"})); }
        }
    }
    void regDump() {
        std::map<std::string, std::set<std::string>> want; for (auto& [n, v] : state().regs) { want[n] = {S(v)}; if (n == "IP" && faulted) want[n].insert(S(v + 1)); }
        add1("register-all", cmd("register"), {[want](Rd& r) -> std::string { std::set<std::string> seen; while (!r.end()) { auto l = r.line(); auto p = l.find(':'); if (p == l.npos) return "line " + jesc(l); auto n = l.substr(0, p); auto it = want.find(n); if (it == want.end() || !seen.insert(n).second) return "register " + n; if (!it->second.count(l.substr(p + 1))) return n + " is shown as " + l.substr(p + 1) + ", expected " + *it->second.begin(); } return seen.size() == want.size() ? "" : "registers are missing"; }});
    }
    void memGet(uint64_t a, uint64_t n) { std::string o; for (uint64_t k = a; k < a + n; ++k) o += U(k) + ":" + S(md.st.mem[k]) + "\n"; add1("memory-get", cmd("memory", "get", {U(a), U(n)}), {lit(o)}); }
    void memory() {
        uint64_t a = g.chance(1, 2) ? g.below(mem) : g.below(std::min<size_t>(mem, 16)), n = g.range(1, 5);
        switch (g.below(8)) {
            case 0: case 1: if (a + n > mem) fails("memory-get", cmd("memory", "get", {U(a), U(n)})); else memGet(a, n); break;
            case 2: { n = g.range(1, 8); if (a + n > mem) return; std::string o; for (uint64_t k = a; k < a + n; ++k) o += (char)md.st.mem[k]; if (md.st.mem[a + n - 1] != '\n') o += "\\%\n"; add1("memory-gets", cmd("memory", "gets", {U(a), U(n)}), {rawp(o)}); break; }
            case 3: case 4: { if (!running) return; std::vector<std::string> v{U(a)}; std::vector<int64_t> x; for (uint64_t k = 0; k < n; ++k) { x.push_back(g.value()); v.push_back(S(x.back())); } if (a + n > mem) { fails("memory-set", cmd("memory", "set", v)); break; } std::copy(x.begin(), x.end(), md.st.mem.begin() + a); add1("memory-set", cmd("memory", "set", v), {}); break; }
            case 5: case 6: { if (!running) return; std::string q = "\"", raw; size_t len = g.below(10); for (size_t k = 0; k < len; ++k) switch (g.below(8)) { case 0: q += "\\n"; raw += '\n'; break; case 1: q += "\\t"; raw += '\t'; break; case 2: q += ' '; raw += ' '; break; default: { char x = (char)g.range(33, 126); if (x == '\\' || x == '"') x = '.'; q += x; raw += x; } } q += "\""; raw += '\0';
                if (a + raw.size() > mem) { fails("memory-sets", cmd("memory", "sets", {U(a), q})); break; } for (size_t k = 0; k < raw.size(); ++k) md.st.mem[a + k] = raw[k]; add1("memory-sets", cmd("memory", "sets", {U(a), q}), {}); break; }
            default: switch (g.below(6)) { case 0: fails("memory-get", cmd("memory", "get", {g.pick<const char*>({"x", "-1", "1x", "99999999999999999999"}), "1"})); break; case 1: fails("memory-set", cmd("memory", "set", {g.pick<const char*>({"x", "-1", "1x", "99999999999999999999"}), "1"})); break; case 2: fails("memory-set", cmd("memory", "set", {U(g.below(mem)), "1", g.pick<const char*>({"x", "1.5", "9223372036854775808", "-"})})); break;
                case 3: fails("memory-get", cmd("memory", "get", {U(mem - 1), g.pick<const char*>({"2", "18446744073709551615", "x"})})); break; case 4: fails("memory-sets", cmd("memory", "sets", {U(g.below(mem - 8)), g.pick<const char*>({"abc", "\"abc", "abc\"", "\"a\\q\"", "\"", "\"\\\""})})); break; default: fails("memory-sets", cmd("memory", "sets", {"x", "\"a\""})); }
        }
    }
    void disas() {
        int64_t L = md.text.size(); int64_t a = g.below(L);
        switch (g.below(7)) {
            case 0: case 1: if (faulted) return; add1("disassemble", cmd("disassemble"), prettyText(md.st.ip)); break;
            case 2: { int64_t e = std::min<int64_t>(L - 1, a + g.below(5)); add1("disassemble-range", cmd("disassemble", "range", {S(a), S(e)}), insLines(a, e + 1)); break; }
            case 3: { if (g.chance(1, 2)) add1("disassemble-from", cmd("disassemble", "from", {S(a)}), insLines(a, L)); else { int64_t n = g.range(1, L - a); add1("disassemble-from", cmd("disassemble", "from", {S(a), S(n)}), insLines(a, a + n)); } break; }
            case 4: { if (w.fns.empty() || !srcLoaded || !haveInfo) { fails("disassemble-function", cmd("disassemble", "function", {"main"})); return; } auto& f = g.pick(w.fns); if (f.e > (uint64_t)L) fails("disassemble-function", cmd("disassemble", "function", {f.name})); else if (f.e > f.b) add1("disassemble-function", cmd("disassemble", "function", {f.name}), insLines(f.b, f.e)); break; }
            case 5: fails("disassemble", g.pick({cmd("disassemble", "range", {S(a), S(L)}), cmd("disassemble", "from", {S(L)}), cmd("disassemble", "from", {S(a), S(L - a + 1)}), cmd("disassemble", "function", {"nosuch"}), cmd("disassemble", "range", {"x", "2"}), cmd("disassemble", "from", {"-1"}), cmd("disassemble", "range", {S(a + 1), S(a)})})); break;
            default: fullText();
        }
    }
    void fullText() { add1("disassemble-all", cmd("disassemble", "from", {"0"}), insLines(0, md.text.size())); }
    void source() {
        if (g.chance(1, 2)) { if (faulted) return; auto l = lineOf(md.st.ip); if (!l) fails("source", cmd("source")); else add1("source", cmd("source"), codeLines(*l >= 2 ? *l - 2 : 0, *l + 3)); return; }
        if (faulted) return; if (!srcLoaded || !haveSrc) { return; }
        size_t l = g.range(1, (int64_t)src.size() + 2); if (g.chance(1, 2)) add1("source-from", cmd("source", "from", {U(l)}), codeLines(l - 1, src.size())); else { size_t n = g.chance(1, 8) ? (size_t)INT64_MAX : g.below(6); add1("source-from", cmd("source", "from", {U(l), U(n)}), codeLines(l - 1, std::min(src.size(), l - 1 + n))); }
        if (g.chance(1, 8)) fails("source-from", cmd("source", "from", {g.pick<const char*>({"0", "x", "-1"})}));
    }
    std::optional<Val> value(const Var& v, bool& open) const { try { if (!v.loc || v.loc->empty() || !v.type || !w.ty(*v.type)) return {}; auto s = state(); return w.value(w.location(*v.loc, s), *v.type, s); } catch (EErr&) {} catch (EOpen&) { open = true; } return {}; }
    void frame() {
        if (!running) { fails("frame", cmd("frame")); return; } if (!srcLoaded) return;
        Ps o = fnInfo(md.st.ip, false);
        if (!o.empty()) for (auto& [n, v] : w.visible(md.st.ip)) { bool open = false; auto x = value(*v, open); if (open) return; if (!x) continue; std::string t; try { t = w.shown(*x, state()); } catch (EErr&) { continue; } o.push_back(rawp("(" + w.typeName(*v->type) + ") " + n + " = " + t + "\n")); c.count("frame-variables"); }
        add1("frame", cmd("frame"), o);
    }
    void print() {
        if (faulted) return; std::string pr = g.chance(1, 2) ? "print" : "expression"; auto vis = srcLoaded && haveInfo ? w.visible(md.st.ip) : std::map<std::string, const Var*>{};
        if (g.chance(1, 4) || vis.empty()) { int64_t a = g.range(0, 1000), b = g.range(1, 1000); auto [op, r] = g.pick<std::pair<const char*, int64_t>>({{"+", a + b}, {"-", a - b}, {"*", a * b}, {"/", a / b}, {"%", a % b}, {"<", a < b}, {"==", a == b}}); add1("print-number", cmd(pr, "", {S(a), op, S(b)}), {lit("(int) $" + U(idx++) + " = " + S(r) + "\n")}); return; }
        auto it = vis.begin(); std::advance(it, g.below(vis.size())); bool open = false; auto x = value(*it->second, open); if (open) return;
        if (x && x->k == Ty::Int && running && g.chance(1, 3) && !(x->loc->reg && x->loc->name[0] != 'R')) { // assignment
            int64_t v = g.range(0, 100000); if (x->loc->reg) *regPtr(x->loc->name) = v; else md.st.mem[x->loc->v] = v;
            add1("print-assign", cmd(pr, "", {it->first, "=", S(v)}), {lit("(int) $" + U(idx++) + " = " + S(v) + "\n")}); return;
        }
        if (!x) { fails("print-variable", cmd(pr, "", {it->first})); return; }
        size_t k = idx++; std::string t; try { t = w.shown(*x, state()); } catch (EErr&) { fails("print-variable", cmd(pr, "", {it->first})); return; }
        add1("print-variable", cmd(pr, "", {it->first}), {rawp("(" + w.typeName(*it->second->type) + ") $" + U(k) + " = " + t + "\n")});
    }
    void assemble() {
        if (!running) return; int64_t L = md.text.size(), a = g.below(L); size_t n = g.range(1, std::min<int64_t>(3, L - a)); std::vector<Ins> v; vm::Cfg cf{regs, fregs, 1, 2, mem, 4}; FnGen fg(g, cf);
        bool bad = g.chance(1, 8); for (size_t k = 0; k < n; ++k) { fg.text.clear(); while (fg.text.empty()) fg.simple(); v.push_back(fg.text[0]); }
        for (size_t k = 0; k < n; ++k) if (blank.count(a + k)) return;
        Cmd x; x.line = cmd("assemble", "interactive", {S(a)}); x.key = bad ? "assemble refused" : "assemble"; for (size_t k = 0; k < n; ++k) x.line += "\n" + (bad && k == n - 1 ? g.pick<const char*>({"MOV R0", "FOO", "ADD 1, 2", "NOP NOP", "@"}) : m::show(v[k])); x.line += "\n"; x.silent = n + 1;
        x.alt = {bad ? Ps{err()} : Ps{}}; if (!bad) for (size_t k = 0; k < n; ++k) md.text[a + k] = v[k];
        c.detail += "> " + x.line + "\n"; c.count(x.key); cmds.push_back(x);
    }
    void noise() { // has to be answered and to change nothing
        static const std::vector<const char*> v = {"help", "help breakpoint", "help run", "help x", "help frame", "bogus", "registerx", "breakpoint", "breakpoint set", "breakpoint bogus 1", "breakpoint iset x", "breakpoint iset -1", "breakpoint set nosuch", "watchpoint", "watchpoint iset x", "watchpoint irem", "memory", "memory get 1", "memory set 1", "memory sets 1", "register set R0", "register get", "register set R0 x", "register fset F0 x", "register fget F99", "disassemble bogus", "disassemble range 1", "source bogus", "assemble", "assemble x 1", "assemble interactive x", "print", "print )", "print 1 +", "print $99", "print nosuch", "expression a.b", "istep 5", "inext x", "continuex", "attach", "attach x", "attach 0", "attach 1", "attach 70000", "attach -5", "\"", "breakpoint \"", "? ?", "-", "step x", "next 1", "finish 2", "h", "x\ty"};
        std::string l = g.pick(v); add1("noise", l, {answered()});
    }
    void dump() { regDump(); fullText(); lists(); wlist(); for (uint64_t a = 0; a < mem; a += 200) memGet(a, std::min<uint64_t>(200, mem - a)); for (size_t k = 0; k < fregs; ++k) { uint64_t b = md.st.F[k]; add1("register-fget", cmd("register", "fget", {"F" + U(k)}), {[b](Rd& r) -> std::string { auto l = r.line(); double d = strtod(l.c_str(), nullptr); return (std::isnan(ofBits(b)) && std::isnan(d)) || bitsOf(d) == b ? "" : "float register shown as " + l; }}); } }
    // --- debug sections
    static std::string name(Rng& g, const std::string& n) { bool id = n.find(' ') == n.npos; return id && g.chance(1, 2) ? n : "\"" + n + "\""; }
    std::string txt(const Var& v, std::string ind) { std::string o = ind + "DIE_variable: {\n" + ind + " ATTR_name: " + name(g, v.name) + ",\n"; if (v.type) o += ind + " ATTR_type: " + U(*v.type) + ",\n"; if (v.loc) { if (v.loc->size() == 1 && g.chance(1, 2)) o += ind + " ATTR_location: `" + se::show((*v.loc)[0]) + "`,\n"; else { o += ind + " ATTR_location: ["; for (size_t k = 0; k < v.loc->size(); ++k) o += (k ? "; " : "") + se::show((*v.loc)[k]); o += "],\n"; } } return o + ind + "},\n"; }
    std::string txt(const Scope& s, std::string ind) { std::string o = ind + (s.fn ? "DIE_function: {\n" + ind + " ATTR_name: " + name(g, s.name) + ",\n" : "DIE_scope: {\n") + ind + " ATTR_begin_addr: " + U(s.b) + ",\n" + ind + " ATTR_end_addr: " + U(s.e) + ",\n"; for (auto& v : s.vars) o += txt(v, ind + " "); for (auto& x : s.subs) o += txt(x, ind + " "); return o + ind + "},\n"; }
    std::string txt(const Ty& t) {
        std::string tag = "primitive", o = " ATTR_id: " + U(t.id) + ",\n"; if (t.k != Ty::Arr) o += " ATTR_size: " + U(t.n) + ",\n";
        switch (t.k) { case Ty::Int: o += " ATTR_name: int,\n"; break; case Ty::Float: o += " ATTR_name: float,\n"; break; case Ty::Char: o += " ATTR_name: char,\n"; break; case Ty::Unsigned: o += " ATTR_name: unsigned,\n"; break;
            case Ty::Ptr: tag = "pointer"; o += " ATTR_type: " + U(t.to) + ",\n"; break; case Ty::Arr: tag = "array"; o += " ATTR_size: " + U(t.n) + ",\n ATTR_type: " + U(t.to) + ",\n"; break;
            case Ty::Struct: tag = "structured"; o += " ATTR_name: " + name(g, t.name) + ",\n ATTR_members: {\n"; for (auto& m : t.mem) o += "  " + S(m.off) + ":{" + U(m.to) + ":" + m.name + "},\n"; o += " },\n"; break; }
        return "DIE_" + tag + "_type: {\n" + o + "},\n";
    }
    void build() {
        vm::Cfg cfg; cfg.mem = 64; cfg.regs = 5; cfg.fregs = 1;
        if (g.chance(2, 3)) { FnGen fg(g, cfg); prog = fg.make(); size_t k = 0; for (size_t q = 0; q < fg.fnAt.size(); ++q) if (g.chance(3, 4)) { Scope f; f.fn = true; f.name = std::vector<std::string>{"main", "f", "swap", "g2"}[q % 4] + (q > 3 ? U(q) : ""); f.b = fg.fnAt[q]; f.e = q + 1 < fg.fnAt.size() ? fg.fnAt[q + 1] : prog.text.size(); w.fns.push_back(f); ++k; } }
        else { vm::GenOpt o; o.io = true; o.getchar = false; o.maxLen = 30; o.maxSteps = 200; if (g.chance(1, 4)) { o.faultPct = 4; o.wantFault = true; } auto gg = vm::gen(g, cfg, o); prog = gg.p; for (auto& x : prog.text) if (x.op == GETCHAR) throw Discard{}; if (g.chance(1, 2)) { Scope f; f.fn = true; f.name = "main"; f.b = 0; f.e = prog.text.size(); w.fns.push_back(f); } }
        finiteLiterals(prog); size_t L = prog.text.size();
        haveInfo = g.chance(3, 4); haveMap = g.chance(3, 4); haveSrc = g.chance(3, 4);
        if (haveMap) { size_t nl = g.range(1, (int64_t)L); int style = (int)g.below(3); for (size_t k = 0; k < nl; ++k) map[style == 2 ? g.below(L + 2) : k] = style == 0 ? std::min(L - 1, k * L / nl) : g.below(L); if (g.chance(1, 10)) map[L + 1] = L + g.below(3); }
        if (haveSrc) { size_t ns = g.range(1, (int64_t)L + 3); for (size_t k = 0; k < ns; ++k) { std::string l; size_t n = g.below(14); for (size_t q = 0; q < n; ++q) l += (char)g.range(32, 126); src.push_back(l); } if (src.back().empty()) src.back() = "}"; }
        if (haveInfo) {
            WorldOpt o; genTypes(g, w, o); std::vector<size_t> ids; for (auto& [id, t] : w.types) ids.push_back(id);
            auto mk = [&](std::set<std::string>& used) { Var v; do v.name = varName(g); while (!used.insert(v.name).second); if (!g.chance(1, 20)) v.type = g.pick(ids); if (!g.chance(1, 20)) { v.loc = anyLoc(g, cfg, false); for (auto& q : *v.loc) if (q.v == INT64_MIN) ++q.v; } return v; };
            std::set<std::string> used; size_t ng = g.below(3); for (size_t k = 0; k < ng; ++k) w.globals.push_back(mk(used));
            for (auto& f : w.fns) genScopes(g, w, f, 2, mk);
        } else w = World();
        std::string t = m::show(prog); if (t.empty() || t.back() != '\n') t += "\n";
        std::vector<std::string> secs; if (haveMap) { std::string s = ".debug_line\n"; for (auto& [l, a] : map) s += U(l) + ": " + U(a) + "\n"; secs.push_back(s); }
        if (haveInfo) { std::string s = ".debug_info\nDIE_compilation_unit: {\n"; for (auto& [id, ty] : w.types) s += txt(ty); for (auto& v : w.globals) s += txt(v, ""); for (auto& f : w.fns) s += txt(f, ""); secs.push_back(s + "}\n"); }
        World::shuffle(g, secs); for (auto& s : secs) t += s;
        if (haveSrc) { t += ".debug_source\n"; for (auto& l : src) t += l + "\n"; }
        tmp.put("prog.t86", t); c.detail = t + "---- session\n";
    }
    void session(bool steps) {
        size_t n = g.range(8, 40);
        for (size_t k = 0; k < n; ++k) {
            size_t x = g.below(steps ? 26 : 20);
            if (x < 3) breakpoints(); else if (x == 3) lists(); else if (x == 4) watch(); else if (x == 5) wlist(); else if (x < 8) registers(); else if (x < 11) memory(); else if (x == 11) disas(); else if (x == 12) source(); else if (x == 13) frame(); else if (x == 14) print(); else if (x == 15) { if (g.chance(1, 3)) assemble(); else noise(); } else if (x == 16) { if (g.chance(1, 3)) dump(); }
            else if (x == 17 && !attached && g.chance(1, 3)) start();
            else exec(g.pick<const char*>({"istep", "istep", "continue", "inext", "step", "step", "next", "finish"}));
            if (!running && active && g.chance(1, 3)) { if (attached && g.chance(1, 2)) break; start(); }
            if (md.st.ambiguous) throw Discard{};
        }
        dump();
    }
    // the input, and judging of the transcript
    std::string script() { std::string s; for (auto& x : cmds) s += x.line + "\n"; return s; }
    void judge(const std::string& out) {
        std::vector<std::string> part; size_t p = 0; while (true) { size_t q = out.find(MARK, p); if (q == out.npos) { part.push_back(out.substr(p)); break; } part.push_back(out.substr(p, q - p)); p = q + MARK.size(); }
        if (!part[0].empty()) c.fail("output", "output before the first command: " + jesc(part[0].substr(0, 300)));
        size_t at = 1;
        for (auto& x : cmds) {
            for (size_t k = 0; k < x.silent; ++k) { if (at < part.size() && !part[at].empty()) c.fail("transcript:" + x.key, "output while reading: " + jesc(part[at])); ++at; }
            if (at >= part.size() || (at + 1 == part.size())) c.fail("ended:" + x.key, "the program ended at the command '" + x.line + "': " + (at < part.size() ? jesc(part[at].substr(0, 400)) : ""));
            const std::string& seg = part[at++]; std::string why;
            if (seg.compare(0, x.delta.size(), x.delta)) c.fail("program-output", "'" + x.line + "' gives " + jesc(seg.substr(0, 300)) + ", expected to begin with the program's output " + jesc(x.delta));
            std::string rest = seg.substr(x.delta.size());
            for (auto& a : x.alt) { Rd r{rest}; std::string e; for (auto& pc : a) { e = pc(r); if (!e.empty()) break; } if (e.empty() && !r.end()) e = "surplus output " + jesc(rest.substr(r.p, 200)); if (e.empty()) { why.clear(); break; } if (why.empty()) why = e; }
            if (!why.empty()) c.fail("transcript:" + x.key, "'" + x.line + "': " + why + "\n  full answer: " + jesc(rest.substr(0, 1500)));
            c.eval();
        }
        if (at + 1 != part.size() || !part[at].empty()) c.fail("output", "output after the last command: " + jesc(out.substr(out.size() > 300 ? out.size() - 300 : 0)));
    }
    void finish(Child& d) {
        if (!d.wait(PATIENCE)) { std::string o = tmp.get("out"); c.fail("hang", "dbg-cli does not end; last output: " + jesc(o.substr(o.size() > 600 ? o.size() - 600 : 0))); }
        std::string o = tmp.get("out"); auto b = bad(o); if (!b.empty()) c.fail("crash", b); if (d.rc != 0) { c.fail("exit", "dbg-cli ended with " + S(d.rc) + ": " + jesc(o.substr(o.size() > 600 ? o.size() - 600 : 0))); }
    }
};

// predicted sessions
void cliSession(Ctx& c) {
    Cli s(c); s.build(); Rng& g = c.rng;
    if (g.chance(1, 8)) { s.add1("not-running", g.pick<const char*>({"continue", "register", "memory get 0 1", "breakpoint iset 0", "step", "print 1", "frame", "disassemble", "attach 1"}), {answered()}); }
    s.start(); s.session(true);
    s.tmp.put("in", s.script());
    Child d; d.start({bindir() + "/mon_dbgcli", s.tmp.at("prog.t86")}, s.tmp.at("in"), s.tmp.at("out"), "", {}); s.finish(d);
    s.judge(s.tmp.get("out")); c.feature(s.h); c.count("sessions");
}
// the same against a t86-cli --debug which is attached to
void cliAttach(Ctx& c) {
    Cli s(c); s.build(); Rng& g = c.rng; size_t r = 8, f = 4, m = 1024; std::vector<std::string> a{bindir() + "/mon_t86cli", "--debug"};
    if (g.chance(1, 2)) { r = g.chance(1, 12) ? g.range(11, 300) : g.range(5, 10); a.insert(a.end(), {"--register-cnt", U(r)}); } if (g.chance(1, 3)) { f = g.chance(1, 6) ? g.range(1, 60) : g.range(1, 8); a.insert(a.end(), {"--float-register-cnt", U(f)}); } if (g.chance(1, 2)) { m = g.chance(1, 5) ? g.range(1025, 4000) : g.range(64, 1024); a.insert(a.end(), {"--memory-size", U(m)}); }
    a.push_back(s.tmp.at("prog.t86"));
    s.tmp.put("tin", ""); Child t; t.start(a, s.tmp.at("tin"), s.tmp.at("tout"), s.tmp.at("terr"), {"MON_PORTFILE=" + s.tmp.at("port")});
    std::string port; for (int k = 0; k < 20000 && port.empty() && !t.poll(); ++k) { port = s.tmp.get("port"); usleep(1000); }
    if (port.empty()) c.fail("no-port", "t86-cli --debug does not listen: " + s.tmp.get("terr").substr(0, 500));
    if (s.tmp.get("port.asked") != "9110") c.fail("port", "t86-cli --debug listens at " + s.tmp.get("port.asked") + ", documented is 9110");
    bool withFile = g.chance(3, 4); s.begin(r, f, m, false); s.attached = true; s.srcLoaded = withFile; s.add1("attach", "attach " + port, {});
    if (!withFile) { size_t n = g.range(4, 20); for (size_t k = 0; k < n; ++k) { if (g.chance(1, 3)) s.registers(); else if (g.chance(1, 3)) s.memory(); else if (g.chance(1, 3)) s.breakpoints(); else s.exec(g.pick<const char*>({"istep", "continue", "inext", "step", "finish"})); } s.dump(); }
    else s.session(true);
    if (s.md.st.ambiguous) throw Discard{};
    s.tmp.put("in", s.script());
    std::vector<std::string> da{bindir() + "/mon_dbgcli"}; if (withFile) da.push_back(s.tmp.at("prog.t86"));
    Child d; d.start(da, s.tmp.at("in"), s.tmp.at("out"), "", {}); s.finish(d);
    // the port number is no part of the case
    s.judge(s.tmp.get("out"));
    if (!t.wait(PATIENCE)) c.fail("hang-t86", "t86-cli does not end after the debugger left"); auto b = bad(s.tmp.get("terr")); if (!b.empty()) c.fail("crash-t86", b); if (t.rc != 0) c.fail("exit-t86", "t86-cli ended with " + S(t.rc));
    std::string want = s.attached ? s.md.st.out : s.attachedOut; if (s.tmp.get("tout") != want) c.fail("program-output", "the attached program printed " + jesc(s.tmp.get("tout")) + ", expected " + jesc(want));
    c.feature(s.h); c.count("sessions");
}
// arbitrary input lines: every line is answered or silent, nothing crashes or hangs, the program ends with the input
void cliNoise(Ctx& c) {
    Rng& g = c.rng; Tmp tmp; Program p; auto put = [&](Op op, Opnd a = {}, Opnd b = {}) { Ins x; x.op = op; x.a = a; x.b = b; p.text.push_back(x); };
    size_t L = g.range(2, 20); for (size_t k = 0; k < L; ++k) switch (g.below(6)) { case 0: put(MOV, r(g.below(5)), i(g.value(true))); break; case 1: put(ADD, r(g.below(5)), r(g.below(5))); break; case 2: { Opnd o; o.k = MI; o.imm = g.below(20); put(MOV, o, r(1)); break; } case 3: put(DIV, r(1), r(2)); break; case 4: put(PUTCHAR, r(0)); break; default: put(PUSH, r(3)); } put(HALT);
    size_t nd = g.below(4); for (size_t k = 0; k < nd; ++k) p.data.push_back(g.value(true));
    std::string t = m::show(p) + ".debug_line\n0: 0\n1: 1\n3: 2\n.debug_info\nDIE_compilation_unit: {\nDIE_primitive_type: { ATTR_name: int, ATTR_id: 0, ATTR_size: 1 },\nDIE_primitive_type: { ATTR_name: char, ATTR_id: 1, ATTR_size: 1 },\nDIE_pointer_type: { ATTR_type: 1, ATTR_id: 2, ATTR_size: 1 },\nDIE_function: { ATTR_name: main, ATTR_begin_addr: 0, ATTR_end_addr: " + U(L) + ", DIE_variable: { ATTR_name: a, ATTR_type: 0, ATTR_location: `PUSH 3` }, DIE_variable: { ATTR_name: s, ATTR_type: 2, ATTR_location: `PUSH R0` } }\n}\n.debug_source\nint main() {\n  int a = 5;\n\n}\n";
    int how = (int)g.below(8); // 0: no file named, 1: missing file, 2,3: damaged file
    if (how == 2 || how == 3) { size_t n = g.range(1, 4); for (size_t k = 0; k < n && !t.empty(); ++k) switch (g.below(4)) { case 0: t.erase(g.below(t.size()), g.range(1, 10)); break; case 1: t.insert(g.below(t.size() + 1), std::string(1, (char)g.below(256))); break; case 2: t[g.below(t.size())] = (char)g.range(32, 126); break; default: t.resize(g.below(t.size() + 1)); } }
    bool safe = how >= 4; // executing is known to end
    tmp.put("prog.t86", how == 1 ? "" : t); std::string f = how == 1 ? tmp.at("missing.t86") : tmp.at("prog.t86");
    std::vector<std::string> vocab = {"run", "help", "breakpoint", "istep", "disassemble", "assemble", "register", "memory", "watchpoint", "frame", "source", "expression", "print", "iset", "set", "unset", "remove", "enable", "disable", "ienable", "idisable", "iremove", "list", "irem", "get", "gets", "sets", "fget", "fset", "range", "from", "function", "interactive", "main", "a", "s", "R0", "R9", "SP", "F0", "F9", "x", "\"", "\"ab c\"", "\\", "$0", "+", "a+1", "*s", "s[0]", "(", ")", "-1", "0", "1", "2", "3", "5", "20", "1023", "1024", "99999999", "9223372036854775807", "9223372036854775808", "18446744073709551615", "1.5", "nan", "--reg-count=3", "--reg-count=x", "--data-size=4", "--data-size=0", "--data-size=100000", "--float-reg-count=0", "--reg-count=1000"};
    if (safe) vocab.insert(vocab.end(), {"inext", "continue", "next", "step", "finish", "continue"});
    std::string in; size_t n = g.range(3, 30), lines = 0; if (g.chance(5, 6)) { in += "run\n"; ++lines; }
    for (size_t k = 0; k < n; ++k) {
        std::string l; size_t nw = g.range(1, 4);
        if (g.chance(1, 12)) { size_t q = g.below(20); for (size_t z = 0; z < q; ++z) { char ch = (char)g.below(256); l += ch == '\n' || !ch ? ' ' : ch; } }
        else for (size_t q = 0; q < nw; ++q) { std::string w = g.pick(vocab); if (g.chance(1, 6) && w.size() > 1) w.resize(g.range(1, (int64_t)w.size())); l += (q ? g.chance(1, 15) ? "  " : " " : "") + w; }
        if (l.find("IP") != l.npos) continue; // execution must stay within the text
        std::istringstream ws(l); std::string w0, w1; ws >> w0 >> w1; if (w0 == "a" || (w0.size() > 1 && std::string("attach").rfind(w0, 0) == 0)) continue;
        if (!w0.empty() && std::string("assemble").rfind(w0, 0) == 0 && w0 != "a") { l = "assemble interactive " + U(g.chance(1, 6) ? L + 1 + g.below(3) : g.below(L)) + "\n" + g.pick<const char*>({"NOP", "MOV R0, 1", "HALT", "FOO", "ADD R0", "1", "PUTCHAR R1"}) + "\n"; lines += 2; }
        if (!safe && !w0.empty() && (std::string("continue").rfind(w0, 0) == 0 || std::string("next").rfind(w0, 0) == 0 || std::string("step").rfind(w0, 0) == 0 || std::string("inext").rfind(w0, 0) == 0 || std::string("finish").rfind(w0, 0) == 0)) continue;
        in += l + "\n"; ++lines;
    }
    bool cut = g.chance(1, 6); if (cut && !in.empty()) in.pop_back();
    tmp.put("in", in); c.detail = t + "---- input\n" + in;
    Child d; std::vector<std::string> av{bindir() + "/mon_dbgcli"}; if (how) av.push_back(f); d.start(av, tmp.at("in"), tmp.at("out"), "", {});
    if (!d.wait(PATIENCE)) { std::string o = tmp.get("out"); c.fail("hang", "dbg-cli does not end; last output: " + jesc(o.substr(o.size() > 600 ? o.size() - 600 : 0))); }
    std::string o = tmp.get("out"); auto b = bad(o); if (!b.empty()) c.fail("crash", b); if (d.rc) c.fail("exit", "dbg-cli ended with " + S(d.rc) + ": " + jesc(o.substr(o.size() > 600 ? o.size() - 600 : 0)));
    size_t marks = 0; for (size_t p2 = o.find(MARK); p2 != o.npos; p2 = o.find(MARK, p2 + 1)) ++marks; if (marks < lines / 2) c.fail("not-read", "only " + U(marks) + " of " + U(lines) + " lines were read");
    if (how == 0 || how == 1) if (o.find("Started process") != o.npos) c.fail("started", "a program that does not exist was started");
    c.eval(lines); c.count("lines", lines); c.count("outputs", o.size()); c.feature(std::hash<std::string>{}(in)); c.count("kind-" + U(how));
}
// t86-cli
void t86Run(Ctx& c) {
    Rng& g = c.rng; Tmp tmp; vm::Cfg cfg; cfg.mem = 1024; std::vector<std::string> opt; bool bare = g.chance(1, 3);
    if (!bare) { if (g.chance(2, 3)) { cfg.regs = g.chance(1, 12) ? g.range(13, 400) : g.range(2, 12); opt.insert(opt.end(), {"--register-cnt", U(cfg.regs)}); } if (g.chance(1, 2)) { cfg.fregs = g.chance(1, 12) ? g.range(7, 300) : g.range(1, 6); opt.insert(opt.end(), {"--float-register-cnt", U(cfg.fregs)}); } if (g.chance(2, 3)) { cfg.mem = g.chance(1, 12) ? g.range(1025, 140000) : g.range(16, 300); opt.insert(opt.end(), {"--memory-size", U(cfg.mem)}); } }
    vm::GenOpt o; o.io = true; o.getchar = true; o.maxLen = 40; o.maxSteps = 300; if (g.chance(1, 5)) { o.faultPct = 5; o.wantFault = true; } auto gg = vm::gen(g, cfg, o); finiteLiterals(gg.p);
    if (g.chance(1, 8)) { // the last register and cell there are, and the first there are not
        gg.p = m::Program(); gg.shape = 77; auto put = [&](m::Op op, m::Opnd a = {}, m::Opnd b = {}) { m::Ins x; x.op = op; x.a = a; x.b = b; gg.p.text.push_back(x); };
        auto opnd = [](m::Kind k, int64_t n) { m::Opnd x; x.k = k; (k == m::I || k == m::MI ? x.imm : x.r1) = n; return x; };
        size_t beyond = g.below(4); auto R = [&](bool out) { return opnd(m::R, (int64_t)cfg.regs - 1 + out); };
        for (size_t k = 0; k < 3; ++k) { bool out = false; size_t what = (k + gg.input.size()) % 3;
            auto one = [&] { switch (what) { case 0: put(MOV, R(out), opnd(m::I, g.small())); put(PUTNUM, R(out)); break; case 1: { m::Opnd f; f.k = m::F; f.f = 2.5; put(MOV, opnd(m::FR, (int64_t)cfg.fregs - 1 + out), f); put(FADD, opnd(m::FR, (int64_t)cfg.fregs - 1 + out), f); break; } default: put(MOV, opnd(m::MI, (int64_t)cfg.mem - 1 + out), R(false)); put(MOV, R(false), opnd(m::MI, (int64_t)cfg.mem - 1 + out)); } put(PUTNUM, opnd(m::R, 0)); };
            one(); if (k == beyond) { out = true; one(); } }
        put(HALT); c.count("limits");
    }
    for (auto& x : gg.p.text) if (x.op == BKPT || x.op == BREAK) throw Discard{};
    Machine ref(cfg.regs, cfg.fregs, cfg.mem); ref.in = gg.input; if (!ref.load(gg.p)) throw Discard{}; for (size_t k = 0; k < 20000 && ref.status == Machine::Running; ++k) m::step(gg.p.text, ref); if (ref.status == Machine::Running || ref.ambiguous) throw Discard{};
    std::string t = m::show(gg.p, &g); tmp.put("prog.t86", t); tmp.put("in", gg.input);
    std::vector<std::string> av{bindir() + "/mon_t86cli"}; bool pipe = g.chance(1, 6); std::string file = tmp.at(pipe ? "prog.fifo" : "prog.t86"); if (g.chance(1, 2)) { av.insert(av.end(), opt.begin(), opt.end()); av.push_back(file); } else { av.push_back(file); av.insert(av.end(), opt.begin(), opt.end()); }
    c.detail = t + "---- input " + jesc(gg.input) + "\n---- options"; for (size_t k = 1; k < av.size(); ++k) c.detail += " " + av[k]; c.detail += "\n";
    Child d; std::jthread writer; // a program may also come through a pipe, in pieces
    if (pipe) { if (mkfifo(tmp.at("prog.fifo").c_str(), 0600)) throw std::runtime_error("mkfifo"); c.count("piped"); }
    d.start(av, tmp.at("in"), tmp.at("out"), tmp.at("err"), {});
    if (pipe) writer = std::jthread([path = tmp.at("prog.fifo"), t, cut = g.range(1, 60), slow = g.chance(1, 3)](std::stop_token st) {
        sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGPIPE); pthread_sigmask(SIG_BLOCK, &ss, nullptr);
        int fd; while ((fd = open(path.c_str(), O_WRONLY | O_NONBLOCK | O_CLOEXEC)) < 0) { if (st.stop_requested()) return; usleep(500); }
        for (size_t k = 0; k < t.size() && !st.stop_requested();) { ssize_t n = write(fd, t.data() + k, std::min<size_t>(cut, t.size() - k)); if (n > 0) k += n; else if (errno != EAGAIN) break; if (slow || n < 0) usleep(300); }
        close(fd); });
    if (!d.wait(PATIENCE)) c.fail("hang", "t86-cli does not end");
    auto b = bad(tmp.get("err")); if (!b.empty()) c.fail("crash", b); if (tmp.get("out") != ref.out) c.fail("output", "printed " + jesc(tmp.get("out")) + ", expected " + jesc(ref.out));
    if (ref.status == Machine::Halted && d.rc) c.fail("exit", "ended with " + S(d.rc) + " after HALT: " + tmp.get("err").substr(0, 300));
    if (d.rc < 0) c.fail("exit", "killed by signal " + S(-d.rc));
    c.eval(); c.feature(gg.shape ^ std::hash<std::string>{}(ref.out)); c.count(ref.status == Machine::Halted ? "halted" : "faulted"); c.count("output-bytes", ref.out.size());
}
// t86-cli --debug and a debugger which speaks the protocol itself and leaves in all possible ways
void t86Debug(Ctx& c) {
    Rng& g = c.rng; Tmp tmp; vm::Cfg cfg; cfg.mem = 1024; vm::GenOpt o; o.io = true; o.maxLen = 25; o.maxSteps = 80; auto gg = vm::gen(g, cfg, o); finiteLiterals(gg.p);
    for (auto& x : gg.p.text) if (x.op == BKPT || x.op == BREAK || x.op == GETCHAR) throw Discard{};
    Machine ref(cfg.regs, cfg.fregs, cfg.mem); if (!ref.load(gg.p)) throw Discard{};
    std::vector<std::string> outs{ref.out}; for (size_t k = 0; k < 20000 && ref.status == Machine::Running; ++k) { m::step(gg.p.text, ref); outs.push_back(ref.out); } if (ref.status != Machine::Halted || ref.ambiguous) throw Discard{};
    std::string t = m::show(gg.p, &g); tmp.put("prog.t86", t); tmp.put("tin", ""); c.detail = t + "----\n";
    Child d; d.start({bindir() + "/mon_t86cli", "--debug", tmp.at("prog.t86")}, tmp.at("tin"), tmp.at("tout"), tmp.at("terr"), {"MON_PORTFILE=" + tmp.at("port")});
    std::string port; for (int k = 0; k < 20000 && port.empty() && !d.poll(); ++k) { port = tmp.get("port"); usleep(1000); }
    if (port.empty()) c.fail("no-port", "t86-cli --debug does not listen: " + tmp.get("terr").substr(0, 500));
    struct Sock { int fd = -1; ~Sock() { if (fd >= 0) close(fd); } } s; s.fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in ad{}; ad.sin_family = AF_INET; ad.sin_port = htons((uint16_t)std::stoul(port)); ad.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (g.chance(1, 20)) { usleep(g.below(20000)); if (!tmp.get("tout").empty()) c.fail("ran", "the program runs without its debugger"); }
    if (connect(s.fd, (sockaddr*)&ad, sizeof ad)) c.fail("connect", "cannot connect to the announced port");
    timeval tv{(time_t)PATIENCE, 0}; setsockopt(s.fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
    auto raw = [&](const std::string& b) { size_t p = 0; while (p < b.size()) { size_t n = g.chance(1, 3) ? g.range(1, 9) : b.size() - p; ssize_t w = send(s.fd, b.data() + p, std::min(n, b.size() - p), MSG_NOSIGNAL); if (w <= 0) return false; p += w; } return true; };
    auto frame = [&](const std::string& m) { uint64_t n = m.size(); return std::string((char*)&n, 8) + m; };
    auto get = [&]() { auto all = [&](char* p, size_t n) { while (n) { ssize_t q = recv(s.fd, p, n, 0); if (q <= 0) return false; p += q; n -= q; } return true; }; uint64_t n; if (!all((char*)&n, 8) || n > (1u << 24)) return std::string("(nothing)"); std::string m(n, 0); return all(m.data(), n) ? m : std::string("(nothing)"); };
    auto ask = [&](const std::string& q, const std::string& want) { c.detail += q + "\n"; raw(frame(q)); std::string a = get(); c.eval(); if (want.back() == '*' ? a.compare(0, want.size() - 1, want, 0, want.size() - 1) : a != want) c.fail("answer", "'" + q + "' answered " + jesc(a.substr(0, 200)) + ", expected " + want); };
    auto stopped = [&] { std::string a = get(); if (a != "STOPPED") c.fail("stop", "expected STOPPED, got " + jesc(a.substr(0, 200))); };
    stopped(); size_t k = 0, n = g.below(12); bool over = false; uint64_t h = 0;
    for (size_t q = 0; q < n && !over; ++q) {
        size_t x = g.below(6); h = h * 7 + x;
        if (x < 2) { ask("SINGLESTEP", "OK"); ++k; stopped(); over = k + 1 == outs.size(); ask("REASON", over ? "HALT" : "SINGLESTEP"); }
        else if (x == 2) ask("PEEKDATA 0 " + U(g.range(1, 9)), "*"); else if (x == 3) ask("TEXTSIZE", "TEXTSIZE:" + U(gg.p.text.size())); else if (x == 4) ask(g.pick<const char*>({"FOO", "", "\n", "CONT", "PEEKREG"}), "UNKNOWN*"); else if (g.chance(1, 3)) { ask("CONTINUE", "OK"); k = outs.size() - 1; over = true; stopped(); ask("REASON", "HALT"); }
        else { std::string two; two = frame("REASON") + frame("TEXTSIZE"); raw(two); get(); auto a = get(); if (a != "TEXTSIZE:" + U(gg.p.text.size())) c.fail("answer", "two requests at once: " + jesc(a.substr(0, 200))); }
    }
    std::vector<size_t> end{k}; int how = (int)g.below(9); c.detail += "end " + S(how) + "\n"; auto rst = [&] { linger l{1, 0}; setsockopt(s.fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); };
    bool zero = true; size_t z = outs.size() - 1;
    switch (how) {
        case 0: ask("TERMINATE", "OK"); break;
        case 1: break; // leaves
        case 2: rst(); break; // is lost
        case 3: { auto f = frame(g.pick<const char*>({"CONTINUE", "PEEKREGS", "TERMINATE"})); f.resize(g.range(1, (int64_t)f.size() - 1)); raw(f); if (g.chance(1, 2)) rst(); break; } // leaves within a message
        case 4: { uint64_t huge = g.pick<uint64_t>({~0ull, 1ull << 40, 1ull << 63, 1ull << 21}); raw(std::string((char*)&huge, 8) + std::string(g.below(3000), 'x')); break; }
        case 5: if (over) break; raw(frame("CONTINUE")); end = {k, z}; break; // leaves without waiting for the answer
        case 6: if (over) break; raw(frame("CONTINUE")); rst(); end = {k, z}; break;
        case 7: if (over) break; raw(frame("SINGLESTEP")); end = {k, k + 1}; break;
        default: shutdown(s.fd, SHUT_WR); break; // leaves, but keeps reading
    }
    if (how != 8) { close(s.fd); s.fd = -1; }
    if (!d.wait(PATIENCE)) c.fail("hang", "t86-cli does not end after the debugger left");
    auto e = tmp.get("terr"), b = bad(e), got = tmp.get("tout"); if (!b.empty()) c.fail("crash", b); if (d.rc < 0) c.fail("exit", "killed by signal " + S(-d.rc)); if (zero && d.rc) c.fail("exit", "ended with " + S(d.rc) + ": " + e.substr(0, 300));
    bool ok = false; for (auto x : end) ok = ok || got == outs[std::min(x, z)]; if (!ok) c.fail("output", "printed " + jesc(got) + ", expected " + jesc(outs[std::min(end[0], z)]));
    c.eval(); c.count("end-" + S(how)); c.feature(h * 9 + how); c.count("steps", k);
}
void t86Bad(Ctx& c) {
    Rng& g = c.rng; Tmp tmp; vm::Cfg cfg; vm::GenOpt o; o.maxLen = 12; o.maxSteps = 60; o.io = true; auto gg = vm::gen(g, cfg, o); finiteLiterals(gg.p); for (size_t k = 0; k < 1; ++k) { Ins x; x.op = PUTNUM; x.a = i(7); }
    std::string t = m::show(gg.p, &g); std::vector<std::string> av{bindir() + "/mon_t86cli"}; int kind = (int)g.below(8); int want = -1; tmp.put("in", "");
    if (kind == 0) { av.push_back(g.chance(1, 2) ? tmp.at("missing") : g.chance(1, 2) ? tmp.d : tmp.at("prog.t86") + "/"); want = 3; }
    else if (kind == 1) { av.push_back(g.pick<const char*>({"--memory-size", "--register-cnt"})); av.push_back(g.pick<const char*>({"x", "-1", "99999999999999999999999", "", "1.5"})); av.push_back(tmp.at("prog.t86")); want = 1; }
    else if (kind == 2) { if (g.chance(1, 2)) { av.push_back("--bogus"); av.push_back(tmp.at("prog.t86")); } want = 1; }
    else {
        if (g.chance(1, 4)) { t.clear(); size_t n = g.below(40); for (size_t k = 0; k < n; ++k) t += g.chance(1, 3) ? std::string(g.pick<const char*>({".text", "\n", "MOV", "R0", ".data", "HALT", "1"})) : std::string(1, (char)g.below(256)); }
        else { size_t n = g.range(1, 3); for (size_t k = 0; k < n && !t.empty(); ++k) switch (g.below(4)) { case 0: t.erase(g.below(t.size()), g.range(1, 10)); break; case 1: t.insert(g.below(t.size() + 1), std::string(1, (char)g.below(256))); break; case 2: t[g.below(t.size())] = (char)g.range(32, 126); break; default: t.resize(g.below(t.size() + 1)); } }
        auto rr = readProgram(t); if (rr.status != ReadResult::Reject || rr.why.find("register") != rr.why.npos || readProgram(t, true).status != ReadResult::Reject) throw Discard{}; want = 2; av.push_back(tmp.at("prog.t86"));
    }
    tmp.put("prog.t86", t); c.detail = t + "----"; for (size_t k = 1; k < av.size(); ++k) c.detail += " " + av[k]; c.detail += "\n";
    Child d; d.start(av, tmp.at("in"), tmp.at("out"), tmp.at("err"), {}); if (!d.wait(PATIENCE)) c.fail("hang", "t86-cli does not end");
    std::string e = tmp.get("err"); auto b = bad(e); if (!b.empty()) c.fail("crash", b);
    if (d.rc != want) c.fail("exit", "ended with " + S(d.rc) + ", expected " + S(want) + ": " + e.substr(0, 300)); if (e.empty()) c.fail("silent", "no message"); if (!tmp.get("out").empty() && want != 1) c.fail("ran", "a program that was refused printed " + jesc(tmp.get("out")));
    c.eval(); c.count("exit-" + S(want)); c.feature(std::hash<std::string>{}(t) ^ kind);
}
}
std::vector<ModeDef> modes() { return {{"cli-session", cliSession}, {"cli-attach", cliAttach}, {"cli-noise", cliNoise}, {"t86-run", t86Run}, {"t86-bad", t86Bad}, {"t86-debug", t86Debug}}; }
int main(int argc, char** argv) { return harnessMain(argc, argv); }
