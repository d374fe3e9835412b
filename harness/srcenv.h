// Debuggees with types, variables and functions, and the reference meaning of their storage.
#pragma once
#include "dbgsession.h"
#include "debugger/Source/Source.h"
#include "debugger/Source/ExpressionInterpreter.h"

namespace se {
struct Ty {
    enum K { Int, Float, Char, Unsigned, Ptr, Struct, Arr } k = Int; size_t id = 0; std::string name; size_t to = 0; uint64_t n = 1; // n: size, or element count
    struct Mem { std::string name; size_t to; int64_t off; }; std::vector<Mem> mem;
};
struct EErr { std::string why; bool type = false; }; // no value: has to be refused
struct EOpen { std::string why; };                     // nothing is specified

struct Loc { bool reg = false; std::string name; int64_t v = 0; };
struct Val {
    Ty::K k = Ty::Int; int64_t i = 0; double f = 0; std::string name; uint64_t n = 0; size_t to = 0; std::map<std::string, Val> mem; std::vector<Val> arr; std::optional<Loc> loc;
};
struct St { std::map<std::string, int64_t> regs; std::vector<int64_t> mem; bool operator==(const St&) const = default; };

struct LocIns { enum K { PushI, PushR, Add, Bro, Deref } k = PushI; int64_t v = 0; std::string r; };
struct Var { std::string name; std::optional<size_t> type; std::optional<std::vector<LocIns>> loc; };
struct Scope { bool fn = false; std::string name; uint64_t b = 0, e = 0; std::vector<Var> vars; std::vector<Scope> subs; };

inline std::string show(const LocIns& x) {
    switch (x.k) { case LocIns::PushI: return "PUSH " + std::to_string(x.v); case LocIns::PushR: return "PUSH " + x.r; case LocIns::Add: return "ADD"; case LocIns::Bro: return "BASE_REG_OFFSET " + std::to_string(x.v); default: return "DEREFERENCE"; }
}
inline std::string show(const Loc& l) { return l.reg ? l.name : "[" + std::to_string(l.v) + "]"; }

struct World {
    std::map<size_t, Ty> types; std::vector<Scope> fns; std::vector<Var> globals;
    const Ty* ty(size_t id) const { auto it = types.find(id); return it == types.end() ? nullptr : &it->second; }
    uint64_t size(size_t id) const {
        auto t = ty(id); if (!t) throw EErr{"unknown type " + std::to_string(id), true};
        return t->k == Ty::Arr ? t->n * size(t->to) : t->n;
    }
    std::string typeName(size_t id) const {
        auto t = ty(id); if (!t) return "<unknown>";
        switch (t->k) { case Ty::Int: return "int"; case Ty::Float: return "float"; case Ty::Char: return "char"; case Ty::Unsigned: return "unsigned"; case Ty::Struct: return t->name; case Ty::Ptr: return typeName(t->to) + "*"; default: return ty(t->to) ? typeName(t->to) + "[]" : "<unknown>*"; }
    }
    // variables visible at ip: innermost declaration of each name
    static void collect(const Scope& s, uint64_t ip, std::map<std::string, const Var*>& out) {
        if (ip < s.b || ip >= s.e) return;
        for (auto& v : s.vars) out[v.name] = &v;
        for (auto& x : s.subs) collect(x, ip, out);
    }
    std::map<std::string, const Var*> visible(uint64_t ip) const {
        std::map<std::string, const Var*> out;
        for (auto& v : globals) out[v.name] = &v;
        for (auto& f : fns) collect(f, ip, out);
        return out;
    }
    const Scope* fnAt(uint64_t ip) const { for (auto& f : fns) if (f.b <= ip && ip < f.e) return &f; return nullptr; }

    static int64_t reg(const St& s, const std::string& n) { auto it = s.regs.find(n); if (it == s.regs.end()) throw EErr{"no register " + n}; return it->second; }
    static int64_t cell(const St& s, int64_t a) { if (a < 0 || a >= (int64_t)s.mem.size()) throw EErr{"outside memory: " + std::to_string(a)}; return s.mem[a]; }
    static int64_t add(int64_t a, int64_t b) { return (int64_t)((uint64_t)a + (uint64_t)b); }
    Loc location(const std::vector<LocIns>& p, const St& s) const {
        std::vector<Loc> st;
        auto pop = [&] { if (st.empty()) throw EErr{"stack underflow in a location"}; Loc l = st.back(); st.pop_back(); return l; };
        auto num = [&](const Loc& l) { return l.reg ? reg(s, l.name) : l.v; };
        for (auto& x : p) switch (x.k) {
            case LocIns::PushI: st.push_back({false, "", x.v}); break;
            case LocIns::PushR: st.push_back({true, x.r, 0}); break;
            case LocIns::Add: { Loc a = pop(), b = pop(); st.push_back({false, "", add(num(a), num(b))}); break; }
            case LocIns::Bro: st.push_back({false, "", add(reg(s, "BP"), x.v)}); break;
            case LocIns::Deref: { Loc a = pop(); st.push_back({false, "", cell(s, num(a))}); break; }
        }
        if (st.empty()) throw EErr{"empty location"};
        return st.back();
    }
    // value of the storage at a location; a container with a part that cannot be read has no value
    Val value(const Loc& l, size_t id, const St& s) const {
        auto t = ty(id); if (!t) throw EErr{"unknown type", true};
        Val v; v.k = t->k; v.loc = l; v.n = t->n; v.to = t->to; v.name = t->name;
        auto raw = [&] { return l.reg ? reg(s, l.name) : cell(s, l.v); };
        switch (t->k) {
            case Ty::Int: case Ty::Ptr: v.i = raw(); break;
            case Ty::Char: v.i = (signed char)raw(); break;
            case Ty::Float: v.f = ofBits(raw()); break;
            case Ty::Unsigned: raw(); throw EErr{"unsigned", true};
            case Ty::Struct: if (l.reg) throw EOpen{"structure in a register"}; for (auto& m : t->mem) v.mem[m.name] = value({false, "", add(l.v, m.off)}, m.to, s); break;
            case Ty::Arr: { if (l.reg) throw EErr{"array in a register", true}; v.i = l.v; uint64_t sz = size(t->to); for (uint64_t k = 0; k < t->n; ++k) v.arr.push_back(value({false, "", add(l.v, (int64_t)(k * sz))}, t->to, s)); break; }
        }
        return v;
    }
    static std::string str(const St& s, uint64_t a, uint64_t max = UINT64_MAX) {
        std::string r;
        for (uint64_t k = 0; k < max; ++k) { char c = (char)cell(s, (int64_t)(a + k)); if (!c) break; if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else r += c; }
        return r;
    }
    std::string shown(const Val& v, const St& s) const {
        switch (v.k) {
            case Ty::Int: return std::to_string(v.i);
            case Ty::Char: return std::string("'") + (char)v.i + "'";
            case Ty::Float: return std::to_string(v.f);
            case Ty::Ptr: { auto t = ty(v.to); if (t && t->k == Ty::Char) return std::to_string((uint64_t)v.i) + " \"" + str(s, v.i) + "\""; return std::to_string((uint64_t)v.i); }
            case Ty::Arr: {
                if (!v.arr.empty() && v.arr.back().k == Ty::Char) return std::to_string((uint64_t)v.i) + " \"" + str(s, v.i, v.arr.size()) + "\"";
                std::string r = "["; bool first = true; for (auto& x : v.arr) { if (!first) r += ", "; first = false; r += shown(x, s); } return r + "]"; }
            case Ty::Struct: { std::string r = "{ "; bool first = true; for (auto& [n, x] : v.mem) { if (!first) r += ", "; first = false; r += n + " = " + shown(x, s); } return r + " }"; }
            default: return "?";
        }
    }
    std::string show() const {
        std::string o;
        for (auto& [id, t] : types) {
            o += "type " + std::to_string(id) + ": ";
            if (t.k == Ty::Struct) { o += t.name + " size " + std::to_string(t.n) + " {"; for (auto& m : t.mem) o += " " + std::to_string(m.off) + ":" + std::to_string(m.to) + ":" + m.name; o += " }\n"; }
            else if (t.k == Ty::Ptr) o += "pointer to " + std::to_string(t.to) + "\n"; else if (t.k == Ty::Arr) o += "array of " + std::to_string(t.n) + " " + std::to_string(t.to) + "\n"; else o += typeName(id) + "\n";
        }
        std::function<void(const Var&, std::string)> var = [&](const Var& v, std::string ind) { o += ind + v.name + " type " + (v.type ? std::to_string(*v.type) : "-") + " at "; if (v.loc) { o += "["; for (auto& x : *v.loc) o += se::show(x) + "; "; o += "]"; } else o += "-"; o += "\n"; };
        std::function<void(const Scope&, std::string)> sc = [&](const Scope& x, std::string ind) { o += ind + (x.fn ? "function " + x.name : "scope") + " " + std::to_string(x.b) + ".." + std::to_string(x.e) + "\n"; for (auto& v : x.vars) var(v, ind + "  "); for (auto& y : x.subs) sc(y, ind + "  "); };
        for (auto& v : globals) var(v, "");
        for (auto& f : fns) sc(f, "");
        return o;
    }
    // ---- as debugging information entries
    template<class T> static void shuffle(Rng& g, std::vector<T>& v) { for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[g.below(k)]); }
    static DIE die(Rng& g, const Var& v) {
        std::vector<DIE_ATTR> a{ATTR_name{v.name}};
        if (v.type) a.push_back(ATTR_type{*v.type});
        if (v.loc) { std::vector<expr::LocExpr> p; for (auto& x : *v.loc) switch (x.k) { case LocIns::PushI: p.push_back(expr::Push{expr::Offset{x.v}}); break; case LocIns::PushR: p.push_back(expr::Push{expr::Register{x.r}}); break; case LocIns::Add: p.push_back(expr::Add{}); break; case LocIns::Bro: p.push_back(expr::FrameBaseRegisterOffset{x.v}); break; case LocIns::Deref: p.push_back(expr::Dereference{}); break; } a.push_back(ATTR_location_expr{p}); }
        shuffle(g, a); return DIE(DIE::TAG::variable, a, {});
    }
    static DIE die(Rng& g, const Scope& s) {
        std::vector<DIE> ch; for (auto& v : s.vars) ch.push_back(die(g, v)); for (auto& x : s.subs) ch.push_back(die(g, x)); shuffle(g, ch);
        std::vector<DIE_ATTR> a{ATTR_begin_addr{s.b}, ATTR_end_addr{s.e}}; if (s.fn) a.push_back(ATTR_name{s.name}); shuffle(g, a);
        return DIE(s.fn ? DIE::TAG::function : DIE::TAG::scope, a, ch);
    }
    static DIE die(Rng& g, const Ty& t) {
        std::vector<DIE_ATTR> a{ATTR_id{t.id}, ATTR_size{t.n}}; DIE::TAG tag = DIE::TAG::primitive_type;
        switch (t.k) {
            case Ty::Int: a.push_back(ATTR_name{"int"}); break; case Ty::Float: a.push_back(ATTR_name{"float"}); break; case Ty::Char: a.push_back(ATTR_name{"char"}); break; case Ty::Unsigned: a.push_back(ATTR_name{"unsigned"}); break;
            case Ty::Ptr: a.push_back(ATTR_type{t.to}); tag = DIE::TAG::pointer_type; break;
            case Ty::Arr: a.push_back(ATTR_type{t.to}); tag = DIE::TAG::array_type; break;
            case Ty::Struct: { a.push_back(ATTR_name{t.name}); ATTR_members m; for (auto& x : t.mem) m.m.push_back({x.name, x.to, x.off}); a.push_back(m); tag = DIE::TAG::structured_type; break; }
        }
        shuffle(g, a); return DIE(tag, a, {});
    }
    DIE top(Rng& g) const {
        std::vector<DIE> ch; for (auto& [id, t] : types) ch.push_back(die(g, t)); for (auto& v : globals) ch.push_back(die(g, v)); for (auto& f : fns) ch.push_back(die(g, f));
        shuffle(g, ch); return DIE(DIE::TAG::compilation_unit, {}, ch);
    }
};

inline bool sameFloat(double a, double b) { return (std::isnan(a) && std::isnan(b)) || bitsOf(a) == bitsOf(b); }
// "" or what differs
inline std::string differs(const TypedValue& got, const Val& w) {
    auto kind = [](const TypedValue& v) { static const char* n[] = {"pointer", "int", "float", "char", "structure", "array"}; return std::string(n[v.index()]); };
    switch (w.k) {
        case Ty::Int: if (auto p = std::get_if<IntegerValue>(&got)) return p->value == w.i ? "" : "int " + std::to_string(p->value) + ", expected " + std::to_string(w.i); return kind(got) + ", expected int " + std::to_string(w.i);
        case Ty::Char: if (auto p = std::get_if<CharValue>(&got)) return (signed char)p->value == w.i ? "" : "char " + std::to_string((int)p->value) + ", expected " + std::to_string(w.i); return kind(got) + ", expected char";
        case Ty::Float: if (auto p = std::get_if<FloatValue>(&got)) return sameFloat(p->value, w.f) ? "" : "float " + std::to_string(p->value) + ", expected " + m::showFloat(w.f); return kind(got) + ", expected float";
        case Ty::Ptr: if (auto p = std::get_if<PointerValue>(&got)) return p->value != (uint64_t)w.i ? "pointer " + std::to_string(p->value) + ", expected " + std::to_string((uint64_t)w.i) : p->type.type_id != w.to ? "pointer to another type" : ""; return kind(got) + ", expected pointer";
        case Ty::Struct: if (auto p = std::get_if<StructuredValue>(&got)) {
            if (p->name != w.name || p->size != w.n) return "another structure"; if (p->members.size() != w.mem.size()) return "structure with other members";
            for (auto& [n, x] : w.mem) { auto it = p->members.find(n); if (it == p->members.end()) return "structure without " + n; auto d = differs(it->second, x); if (!d.empty()) return n + ": " + d; }
            return "";
        } return kind(got) + ", expected structure";
        case Ty::Arr: if (auto p = std::get_if<ArrayValue>(&got)) {
            if (p->members.size() != w.arr.size() || p->begin_address != (uint64_t)w.i || p->type.type_id != w.to) return "another array";
            for (size_t k = 0; k < w.arr.size(); ++k) { auto d = differs(p->members[k], w.arr[k]); if (!d.empty()) return "element " + std::to_string(k) + ": " + d; }
            return "";
        } return kind(got) + ", expected array";
        default: return "value of a type without values";
    }
}

struct WorldOpt { bool faulty = false; bool simple = false; };

inline void genTypes(Rng& g, World& w, const WorldOpt& o) {
    std::vector<size_t> ids; auto fresh = [&] { size_t id; do id = g.chance(4, 5) ? g.below(40) : g.below(100000); while (std::find(ids.begin(), ids.end(), id) != ids.end()); ids.push_back(id); return id; };
    auto prim = [&](Ty::K k) { Ty t; t.k = k; t.id = fresh(); w.types[t.id] = t; };
    prim(Ty::Int); prim(Ty::Float); prim(Ty::Char);
    if (o.faulty && g.chance(1, 6)) prim(Ty::Unsigned);
    size_t n = g.range(2, 9); std::vector<size_t> comp;
    std::vector<size_t> known = ids; std::vector<size_t> structs;
    auto pickTy = [&](bool basic) { if (o.faulty && g.chance(1, 25)) return (size_t)100001; return basic || g.chance(1, 2) ? known[g.below(3)] : g.pick(known); };
    for (size_t k = 0; k < n; ++k) {
        Ty t; t.id = fresh();
        switch (g.below(5)) {
            case 0: case 1: t.k = Ty::Ptr; t.to = pickTy(false); break;
            case 2: t.k = Ty::Arr; t.to = pickTy(g.chance(1, 2)); t.n = g.chance(1, 10) ? g.below(2) : g.range(1, 5); break;
            default: { t.k = Ty::Struct; t.name = std::string(g.chance(1, 2) ? "struct " : "") + "s" + std::to_string(t.id); size_t nm = g.chance(1, 10) ? 0 : g.range(1, 4); int64_t off = 0; std::set<std::string> used;
                for (size_t q = 0; q < nm; ++q) {
                    Ty::Mem m; do m.name = std::string(1, "abcdxyz"[g.below(7)]) + (g.chance(1, 3) ? std::to_string(g.below(3)) : ""); while (!used.insert(m.name).second);
                    if (g.chance(1, 5)) { // pointer to the structure itself
                        Ty p; p.k = Ty::Ptr; p.id = fresh(); p.to = t.id; w.types[p.id] = p; m.to = p.id; known.push_back(p.id);
                    } else m.to = pickTy(false);
                    m.off = off; uint64_t sz = 1; try { sz = w.size(m.to); } catch (EErr&) {} off += sz + (g.chance(1, 6) ? g.below(3) : 0); t.mem.push_back(m);
                }
                t.n = off || g.chance(1, 2) ? off : 1; if (g.chance(1, 8)) t.n += g.below(3); if (g.chance(1, 3)) World::shuffle(g, t.mem); break; }
        }
        if (t.k == Ty::Arr) { uint64_t sz = 0; try { sz = w.size(t.to) * t.n; } catch (EErr&) {} if (sz > 30) t.n = 1; }
        if (t.k == Ty::Struct && t.n > 40) continue;
        w.types[t.id] = t; known.push_back(t.id);
    }
}

inline std::vector<LocIns> anyLoc(Rng& g, const vm::Cfg& cfg, bool faulty) {
    std::vector<LocIns> p; auto num = [&] { return g.chance(1, 12) ? g.value() : g.range(-6, (int64_t)cfg.mem - 1); };
    auto regn = [&] { return faulty && g.chance(1, 20) ? std::string(g.pick<const char*>({"R99", "X", "r0", "F0"})) : g.chance(1, 5) ? std::string(g.pick<const char*>({"SP", "BP", "IP"})) : "R" + std::to_string(g.below(cfg.regs)); };
    switch (g.below(9)) {
        case 0: case 1: p = {{LocIns::Bro, g.range(-8, 8), ""}}; break;
        case 2: p = {{LocIns::PushI, num(), ""}}; break;
        case 3: p = {{LocIns::PushR, 0, regn()}}; break;
        case 4: p = {{LocIns::PushR, 0, regn()}, {LocIns::PushI, g.range(-4, 4), ""}, {LocIns::Add, 0, ""}}; break;
        case 5: p = {{LocIns::PushI, g.range(-4, 4), ""}, {LocIns::PushR, 0, regn()}, {LocIns::Add, 0, ""}}; break;
        case 6: p = {{LocIns::Bro, g.range(-4, 4), ""}, {LocIns::Deref, 0, ""}}; break;
        case 7: if (g.chance(1, 3)) { p = {{LocIns::PushI, g.pick<int64_t>({(int64_t)cfg.mem - 1, (int64_t)cfg.mem, 0, -1}), ""}, {LocIns::Deref, 0, ""}}; break; } [[fallthrough]];
        default: { size_t n = g.below(9); int depth = 0; for (size_t k = 0; k < n; ++k) { LocIns x; switch (g.below(7)) { case 0: x = {LocIns::PushR, 0, regn()}; break; case 1: x = {LocIns::Bro, g.range(-8, 8), ""}; break; case 2: case 3: if (depth >= 2 || faulty) { x = {LocIns::Add, 0, ""}; break; } [[fallthrough]]; case 4: if (depth >= 1 || faulty) { x = {LocIns::Deref, 0, ""}; if (g.chance(1, 2)) break; } [[fallthrough]]; default: x = {LocIns::PushI, num(), ""}; } depth += x.k == LocIns::Add ? -1 : x.k == LocIns::Deref ? 0 : 1; p.push_back(x); } }
    }
    return p;
}
struct Debuggee { // a machine with its state set through the debugger, stopped at the start
    Ctx& c; vm::Cfg cfg; size_t textLen; std::unique_ptr<Vm> machine; std::unique_ptr<Native> nat; St st;
    Debuggee(Ctx& c, size_t textLen) : c(c), textLen(textLen) {
        Rng& g = c.rng; cfg = vm::randomCfg(g); cfg.regs = std::max<size_t>(cfg.regs, 4); cfg.mem = 24 + g.below(64); cfg.rs = 2 * cfg.alus;
        Program p; Ins nop; nop.op = NOP; p.text.assign(textLen, nop); p.text.back().op = HALT;
        machine = std::make_unique<Vm>(cfg, p, "");
        nat = std::make_unique<Native>(std::make_unique<T86Process>(std::make_unique<DbgEnd>(machine->ch, nullptr), cfg.regs, cfg.fregs, cfg.mem));
        nat->WaitForDebugEvent();
        st.mem.resize(cfg.mem);
        for (auto& x : st.mem) switch (g.below(6)) { case 0: x = g.value(); break; case 1: x = (int64_t)bitsOf(vm::genFloat(g)); break; case 2: x = g.range(32, 126); break; default: x = g.range(0, (int64_t)cfg.mem - 1); }
        for (size_t k = 0; k < cfg.regs; ++k) st.regs["R" + std::to_string(k)] = g.chance(1, 6) ? g.value() : g.range(0, (int64_t)cfg.mem - 1);
        st.regs["SP"] = g.range(0, (int64_t)cfg.mem); st.regs["BP"] = g.range(4, (int64_t)cfg.mem - 2); st.regs["IP"] = (int64_t)g.below(textLen);
    }
    void push() { nat->SetMemory(0, st.mem); nat->SetRegisters(st.regs); }
    void ip(uint64_t a) { st.regs["IP"] = (int64_t)a; nat->SetRegister("IP", (int64_t)a); }
    St read() { St r; r.regs = nat->GetRegisters(); r.mem = nat->ReadMemory(0, cfg.mem); return r; }
    std::string show() { std::string o = "registers:"; for (auto& [n, v] : st.regs) o += " " + n + "=" + std::to_string(v); o += "\nmemory:"; for (auto v : st.mem) o += " " + std::to_string(v); return o + "\n"; }
    void finish() { nat->Terminate(); machine->join(); }
};
inline std::string varName(Rng& g) { return std::string(1, "abcxyzpq"[g.below(8)]) + (g.chance(1, 4) ? std::to_string(g.below(3)) : g.chance(1, 8) ? "_v" : ""); }
inline void genScopes(Rng& g, const World& w, Scope& s, int depth, const std::function<Var(std::set<std::string>&)>& mkVar) {
    std::set<std::string> used; size_t nv = g.below(4); if (s.fn && !g.chance(1, 3)) nv = 0;
    for (size_t k = 0; k < nv; ++k) s.vars.push_back(mkVar(used));
    if (!depth) return;
    size_t ns = s.fn ? g.range(0, 2) : g.below(3); uint64_t at = s.b;
    for (size_t k = 0; k < ns && at < s.e; ++k) {
        Scope x; x.b = s.fn && ns == 1 && g.chance(2, 3) ? s.b : at + g.below(3); x.e = s.fn && ns == 1 && g.chance(2, 3) ? s.e : x.b + g.range(0, (int64_t)(s.e - s.b)); x.e = std::min(x.e, s.e); if (x.b > s.e) break; if (x.e < x.b) x.e = x.b; at = x.e;
        genScopes(g, w, x, depth - 1, mkVar); s.subs.push_back(x);
    }
}
}
