#include "model.h"
#include <cmath>
#include <cstring>
#include <charconv>
#include <cstdio>
#include <limits>

namespace m {
static const char* names[] = {
#define X(n) #n,
  M_OPS(X)
#undef X
};
const char* opName(int op) { return names[op]; }
int opByName(const std::string& s) {
    for (int i = 0; i < OP_COUNT; ++i) if (s == names[i]) return i;
    return -1;
}
const char* kindName(int k) {
    static const char* n[] = {"-", "i", "f", "R", "F", "R+i", "[i]", "[R]", "[R+i]", "[R+R]", "[R*i]", "[R+i+R]", "[R+R*i]", "[R+i+R*i]"};
    return n[k];
}
uint64_t bitsOf(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
double ofBits(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
bool Opnd::operator==(const Opnd& o) const {
    if (k != o.k) return false;
    switch (k) {
        case None: return true;
        case I: return imm == o.imm;
        case F: return bitsOf(f) == bitsOf(o.f);
        case R: case FR: case MR: return r1 == o.r1;
        case RI: case MRI: return r1 == o.r1 && imm == o.imm;
        case MI: return imm == o.imm;
        case MRR: return r1 == o.r1 && r2 == o.r2;
        case MRS: return r1 == o.r1 && sc == o.sc;
        case MRIR: return r1 == o.r1 && r2 == o.r2 && imm == o.imm;
        case MRRS: return r1 == o.r1 && r2 == o.r2 && sc == o.sc;
        case MRIRS: return r1 == o.r1 && r2 == o.r2 && imm == o.imm && sc == o.sc;
    }
    return false;
}
Opnd i(int64_t v) { Opnd o; o.k = I; o.imm = v; return o; }
Opnd f(double v) { Opnd o; o.k = F; o.f = v; return o; }
Opnd r(int64_t n) { Opnd o; o.k = R; o.r1 = n; return o; }
Opnd fr(int64_t n) { Opnd o; o.k = FR; o.r1 = n; return o; }

// ---------------------------------------------------------------- printing
static std::string reg(int64_t n) {
    if (n == SP) return "SP";
    if (n == BP) return "BP";
    if (n == IP) return "IP";
    return "R" + std::to_string(n);
}
std::string showFloat(double d) {
    // shortest decimal (no exponent) that reads back exactly
    char buf[1200];
    auto res = std::to_chars(buf, buf + sizeof buf, d, std::chars_format::fixed);
    std::string s(buf, res.ptr);
    if (s.find('.') == std::string::npos) s += ".0";
    return s;
}
static std::string sp(Rng* g) {
    if (!g) return " ";
    switch (g->below(8)) { case 0: case 1: return ""; case 2: return "  "; case 3: return "\t"; case 4: return g->chance(1, 12) ? "\n  " : " "; default: return " "; }
}
static std::string num(int64_t v, Rng* g) {
    if (g && v >= 0 && g->chance(1, 20)) return "0" + std::to_string(v);
    if (v < 0) return "-" + (g && g->chance(1, 6) ? std::string(" ") : std::string()) + std::to_string(v).substr(1);
    return std::to_string(v);
}
// " + imm" or " - imm"
static std::string disp(int64_t v, Rng* g) {
    if (v < 0 && (!g || g->chance(1, 2))) return sp(g) + "-" + sp(g) + std::to_string(v).substr(1);
    return sp(g) + "+" + sp(g) + num(v, g);
}
std::string show(const Opnd& o, Rng* g) {
    auto br = [&](const std::string& s) { return g ? "[" + (g->chance(1, 4) ? sp(g) : "") + s + (g->chance(1, 4) ? sp(g) : "") + "]" : "[" + s + "]"; };
    auto plus = [&](const std::string& s) { return sp(g) + "+" + sp(g) + s; };
    auto times = [&](int64_t v) { return sp(g) + "*" + sp(g) + num(v, g); };
    switch (o.k) {
        case None: return "";
        case I: return num(o.imm, g);
        case F: return showFloat(o.f);
        case R: return reg(o.r1);
        case FR: return "F" + std::to_string(o.r1);
        case RI: return reg(o.r1) + disp(o.imm, g);
        case MI: return br(num(o.imm, g));
        case MR: return br(reg(o.r1));
        case MRI: return br(reg(o.r1) + disp(o.imm, g));
        case MRR: return br(reg(o.r1) + plus(reg(o.r2)));
        case MRS: return br(reg(o.r1) + times(o.sc));
        case MRIR: return br(reg(o.r1) + disp(o.imm, g) + plus(reg(o.r2)));
        case MRRS: return br(reg(o.r1) + plus(reg(o.r2)) + times(o.sc));
        case MRIRS: return br(reg(o.r1) + disp(o.imm, g) + plus(reg(o.r2)) + times(o.sc));
    }
    return "?";
}
std::string show(const Ins& x, Rng* g) {
    std::string s = opName(x.op);
    if (x.a.k != None) { s += g && g->chance(1, 6) ? "  " : " "; s += show(x.a, g); }
    if (x.b.k != None) { s += (g && g->chance(1, 6) ? " ," : ","); s += (g ? sp(g) : " ") + show(x.b, g); }
    return s;
}
static std::string quote(const std::string& s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\\') r += "\\\\"; else if (c == '"') r += "\\\""; else r += c;
    }
    return r + "\"";
}
static std::string comment(Rng* g) {
    static const char* c[] = {"# comment", "#", "# .text MOV R0, 1", "# \"unterminated", "#;;$$ [R1 + ", "## HALT"};
    return g->pick({c[0], c[1], c[2], c[3], c[4], c[5]});
}
std::string show(const Program& p, Rng* g) {
    auto dataSection = [&] {
        std::string s = ".data\n";
        size_t i = 0;
        while (i < p.data.size()) {
            if (g && g->chance(1, 2)) {
                // a run of character values ended by 0 may be written as a string
                size_t j = i; std::string str;
                while (j < p.data.size() && ((p.data[j] >= 32 && p.data[j] < 127) || p.data[j] == 10 || p.data[j] == 9)) str += (char)p.data[j++];
                if (j < p.data.size() && p.data[j] == 0) { s += quote(str) + (g->chance(1, 3) ? " " : "\n"); i = j + 1; continue; }
            }
            s += num(p.data[i], g) + (g && g->chance(1, 3) ? " " : "\n");
            if (g && g->chance(1, 8)) s += comment(g) + "\n";
            ++i;
        }
        return s;
    };
    auto textSection = [&] {
        std::string s = ".text\n";
        bool addrs = !g || g->chance(2, 3);
        for (size_t i = 0; i < p.text.size(); ++i) {
            if (addrs && !(g && g->chance(1, 10))) s += std::to_string(g && g->chance(1, 10) ? g->below(1000) : i) + (g && g->chance(1, 4) ? "\t" : " ");
            s += show(p.text[i], g);
            if (g && g->chance(1, 10)) s += " " + comment(g);
            s += g && g->chance(1, 15) ? (s.back() == '\n' || s.rfind('#') != std::string::npos ? "\n" : "   ") : "\n";
            if (g && g->chance(1, 12)) s += "\n  \n";
            if (g && g->chance(1, 12)) s += comment(g) + "\n";
        }
        return s;
    };
    std::string t;
    if (g && g->chance(1, 5)) t += comment(g) + "\n";
    auto skipped = [&] {
        if (!g || !g->chance(1, 4)) return std::string();
        return std::string(g->pick({".debug_line\n0:1\n1:2\n", ".debug_info\nDIE_compilation_unit: { ATTR_name: main }\n", ".other\n text 1 @@ ~ ? 2 3\n", ".foo # nothing\n", ".odd\n@ {1} ? x\n", ".odd \\ 7\n", ".odd\n~\n"}));
    };
    bool dataFirst = g ? g->chance(1, 2) : true;
    t += skipped();
    if (dataFirst && (!p.data.empty() || (g && g->chance(1, 4)))) t += dataSection();
    t += skipped();
    t += textSection();
    t += skipped();
    if (!dataFirst && (!p.data.empty() || g->chance(1, 4))) t += dataSection();
    t += skipped();
    if (g && g->chance(1, 8)) t += ".debug_source\nint main() { \"@ }\n";
    return t;
}

// ---------------------------------------------------------------- legal forms
static std::vector<Form> mkForms() {
    std::vector<Form> v;
    auto add = [&](Op op, std::initializer_list<Kind> as, std::initializer_list<Kind> bs) { for (Kind a : as) for (Kind b : bs) v.push_back({op, a, b}); };
    add(MOV, {R}, {R, I, MI, MR, MRI, MRS, MRR, MRRS, MRIR, MRIRS, FR});
    add(MOV, {FR}, {F, FR, R, MI, MR});
    add(MOV, {MI, MR, MRI, MRS, MRR, MRRS, MRIR, MRIRS}, {R, FR, I});
    add(LEA, {R}, {MRI, MRS, MRR, MRRS, MRIR, MRIRS});
    for (Op op : {ADD, SUB, MUL, DIV, IMUL, IDIV, AND, OR, XOR, LSH, RSH}) add(op, {R}, {R, I, RI, MI, MR, MRI});
    add(CMP, {R}, {R, I, MI, MR, MRI});
    add(LOOP, {R}, {R, I});
    for (Op op : {FADD, FSUB, FMUL, FDIV, FCMP}) add(op, {FR}, {FR, F});
    add(EXT, {FR}, {R});
    add(NRW, {R}, {FR});
    for (Op op : {INC, DEC, NEG, NOT, POP, PUTCHAR, PUTNUM, GETCHAR}) add(op, {R}, {None});
    for (Op op : {JMP, CALL, PUSH}) add(op, {R, I}, {None});
    for (int op = JZ; op <= JNS; ++op) add((Op)op, {R, I, MI, MR, MRI}, {None});
    add(FPUSH, {FR, F}, {None});
    add(FPOP, {FR}, {None});
    for (Op op : {HALT, NOP, BKPT, BREAK, RET}) add(op, {None}, {None});
    return v;
}
const std::vector<Form>& forms() { static std::vector<Form> v = mkForms(); return v; }
bool legal(const Ins& x) {
    for (auto& fo : forms()) if (fo.op == x.op && fo.a == x.a.k && fo.b == x.b.k) return true;
    return false;
}
bool isCondJump(int op) { return op >= JZ && op <= JNS; }

// ---------------------------------------------------------------- arithmetic
static int64_t sz(int64_t v) { return (v < 0 ? 1 : 0) | (v == 0 ? 2 : 0); }
AluOut alu(Op op, int64_t x, int64_t y) {
    typedef __int128 W; typedef unsigned __int128 UW;
    uint64_t ux = (uint64_t)x, uy = (uint64_t)y;
    int64_t v = 0; bool c = false, o = false;
    switch (op) {
        case ADD: case INC: { v = (int64_t)(ux + uy); c = ((UW)ux + uy) >> 64; W w = (W)x + y; o = w != (W)v; break; }
        case SUB: case DEC: case CMP: case LOOP: { v = (int64_t)(ux - uy); c = ux < uy; W w = (W)x - y; o = w != (W)v; break; }
        case NEG: v = (int64_t)(0 - ux); break;
        case MUL: { v = (int64_t)(ux * uy); c = ((UW)ux * uy) >> 64 != 0; break; }
        case IMUL: { v = (int64_t)(ux * uy); o = (W)x * y != (W)v; break; }
        case DIV: if (!uy) return {0, 0, true}; v = (int64_t)(ux / uy); break;
        case IDIV: if (!y || (x == INT64_MIN && y == -1)) return {0, 0, true}; v = x / y; break;
        case MOD: if (!y) return {0, 0, true}; v = y == -1 ? 0 : x % y; break;
        case AND: v = x & y; break;
        case OR: v = x | y; break;
        case XOR: v = x ^ y; break;
        case NOT: v = ~x; break;
        case LSH: // count taken as unsigned
            if (uy == 0) v = x;
            else if (uy < 64) { v = (int64_t)(ux << uy); c = (ux >> (64 - uy)) & 1; }
            else { v = 0; c = uy == 64 && (ux & 1); }
            break;
        case RSH: // arithmetic
            if (uy == 0) v = x;
            else if (uy < 64) { v = x >> uy; c = (x >> (uy - 1)) & 1; }
            else { v = x < 0 ? -1 : 0; c = uy == 64 && x < 0; }
            break;
        default: break;
    }
    return {v, sz(v) | (c ? 4 : 0) | (o ? 8 : 0), false};
}
double falu(Op op, double x, double y, int64_t& fl) {
    volatile double a = x, b = y; double v = 0;
    switch (op) {
        case FADD: v = a + b; break;
        case FSUB: case FCMP: v = a - b; break;
        case FMUL: v = a * b; break;
        case FDIV: v = a / b; break;
        default: break;
    }
    fl = (v < 0 ? 1 : 0) | (v == 0 ? 2 : 0) | (std::isinf(v) ? 8 : 0);
    return v;
}
bool cond(Op op, int64_t fl) {
    bool s = fl & 1, z = fl & 2, c = fl & 4, o = fl & 8;
    switch (op) {
        case JZ: case JE: return z;
        case JNZ: case JNE: return !z;
        case JG: return !z && s == o;
        case JGE: return s == o;
        case JL: return s != o;
        case JLE: return z || s != o;
        case JA: return !c && !z;
        case JAE: return !c;
        case JB: return c;
        case JBE: return c || z;
        case JO: return o;
        case JNO: return !o;
        case JS: return s;
        case JNS: return !s;
        default: return true;
    }
}

// ---------------------------------------------------------------- machine
bool Machine::load(const Program& p) {
    if (p.data.size() > mem.size()) return false;
    for (size_t i = 0; i < p.data.size(); ++i) mem[i] = p.data[i];
    return true;
}
double Machine::fval(size_t i) const { return ofBits(F[i]); }

namespace {
struct FaultEx { std::string why; };
struct Exec {
    Machine& s; int64_t next; StepInfo info;
    int64_t rd(int64_t n) {
        if (n == SP) return s.sp;
        if (n == BP) return s.bp;
        if (n == IP) return next;
        if (n < 0 || (uint64_t)n >= s.R.size()) throw FaultEx{"register"};
        return s.R[n];
    }
    void wr(int64_t n, int64_t v) {
        if (n == SP) s.sp = v; else if (n == BP) s.bp = v;
        else { if (n < 0 || (uint64_t)n >= s.R.size()) throw FaultEx{"register"}; s.R[n] = v; }
    }
    void okReg(int64_t n) { if (n != SP && n != BP && n != IP && (n < 0 || (uint64_t)n >= s.R.size())) throw FaultEx{"register"}; }
    void okF(int64_t n) { if (n < 0 || (uint64_t)n >= s.F.size()) throw FaultEx{"float register"}; }
    uint64_t addr(const Opnd& o) {
        auto u = [](int64_t x) { return (uint64_t)x; };
        switch (o.k) {
            case MI: return u(o.imm);
            case MR: return u(rd(o.r1));
            case MRI: case RI: return u(rd(o.r1)) + u(o.imm);
            case MRR: return u(rd(o.r1)) + u(rd(o.r2));
            case MRS: return u(rd(o.r1)) * u(o.sc);
            case MRIR: return u(rd(o.r1)) + u(o.imm) + u(rd(o.r2));
            case MRRS: return u(rd(o.r1)) + u(rd(o.r2)) * u(o.sc);
            case MRIRS: return u(rd(o.r1)) + u(o.imm) + u(rd(o.r2)) * u(o.sc);
            default: return 0;
        }
    }
    int64_t load(uint64_t a) { if (a >= s.mem.size()) throw FaultEx{"read"}; info.read = true; info.raddr = a; return s.mem[a]; }
    void okStore(uint64_t a) { if (a >= s.mem.size()) throw FaultEx{"write"}; }
    void store(uint64_t a, int64_t v) { okStore(a); s.mem[a] = v; info.wrote = true; info.addr = a; }
    int64_t val(const Opnd& o) { // integer value of a source operand
        switch (o.k) {
            case I: return o.imm;
            case R: return rd(o.r1);
            case RI: return (int64_t)addr(o);
            case FR: okF(o.r1); return (int64_t)s.F[o.r1];
            case F: return (int64_t)bitsOf(o.f);
            default: return load(addr(o));
        }
    }
};
}

StepInfo step(const std::vector<Ins>& text, Machine& s) {
    if ((uint64_t)s.ip >= text.size()) { s.ip = (int64_t)((uint64_t)s.ip + 1); return {}; }
    const Ins& x = text[s.ip];
    Exec e{s, (int64_t)((uint64_t)s.ip + 1), {}};
    int64_t npc = e.next;
    try {
        switch (x.op) {
            case MOV: {
                if (x.a.k == R) { e.okReg(x.a.r1); int64_t v = e.val(x.b); e.wr(x.a.r1, v); }
                else if (x.a.k == FR) { e.okF(x.a.r1); int64_t v = e.val(x.b); s.F[x.a.r1] = (uint64_t)v; }
                else { int64_t v = e.val(x.b); e.store(e.addr(x.a), v); }
                break;
            }
            case LEA: { e.okReg(x.a.r1); e.wr(x.a.r1, (int64_t)e.addr(x.b)); break; }
            case NOP: break;
            case BREAK: e.info.brk = true; break;
            case BKPT: s.status = Machine::Breakpoint; break;
            case HALT: s.status = Machine::Halted; break;
            case ADD: case SUB: case MUL: case DIV: case IMUL: case IDIV: case MOD: case AND: case OR: case XOR: case LSH: case RSH: {
                int64_t p = e.rd(x.a.r1), q = e.val(x.b);
                auto o = alu(x.op, p, q);
                if (o.fault) throw FaultEx{"division"};
                e.wr(x.a.r1, o.v); s.flags = o.fl; break;
            }
            case INC: case DEC: case NEG: case NOT: {
                auto o = alu(x.op, e.rd(x.a.r1), 1); e.wr(x.a.r1, o.v); s.flags = o.fl; break;
            }
            case CLF: s.flags = 0; break;
            case CMP: { int64_t p = e.rd(x.a.r1), q = e.val(x.b); s.flags = alu(CMP, p, q).fl; break; }
            case FADD: case FSUB: case FMUL: case FDIV: case FCMP: {
                e.okF(x.a.r1); double q = ofBits((uint64_t)e.val(x.b)); int64_t fl;
                double p0 = ofBits(s.F[x.a.r1]);
                if (std::isnan(p0) && std::isnan(q) && bitsOf(p0) != bitsOf(q)) s.ambiguous = true;
                double v = falu(x.op, p0, q, fl);
                if (x.op != FCMP) s.F[x.a.r1] = bitsOf(v);
                s.flags = fl; break;
            }
            case EXT: { e.okF(x.a.r1); s.F[x.a.r1] = bitsOf((double)e.rd(x.b.r1)); break; }
            case NRW: {
                e.okReg(x.a.r1); e.okF(x.b.r1); double d = ofBits(s.F[x.b.r1]);
                int64_t v = (d >= -9223372036854775808.0 && d < 9223372036854775808.0) ? (int64_t)d : INT64_MIN;
                e.wr(x.a.r1, v); break;
            }
            case JMP: { npc = e.val(x.a); e.info.jumped = e.info.taken = true; break; }
            case LOOP: {
                int64_t t = e.val(x.b); auto o = alu(LOOP, e.rd(x.a.r1), 1);
                e.wr(x.a.r1, o.v); s.flags = o.fl; e.info.jumped = true;
                if (o.v != 0) { npc = t; e.info.taken = true; }
                break;
            }
            case CALL: {
                int64_t t = e.val(x.a); uint64_t a = (uint64_t)s.sp - 1;
                e.store(a, e.next); s.sp = (int64_t)a; npc = t; e.info.jumped = e.info.taken = true; break;
            }
            case RET: { int64_t t = e.load((uint64_t)s.sp); s.sp = (int64_t)((uint64_t)s.sp + 1); npc = t; e.info.jumped = e.info.taken = true; break; }
            case PUSH: case FPUSH: { int64_t v = e.val(x.a); uint64_t a = (uint64_t)s.sp - 1; e.store(a, v); s.sp = (int64_t)a; break; }
            case POP: { e.okReg(x.a.r1); int64_t v = e.load((uint64_t)s.sp); s.sp = (int64_t)((uint64_t)s.sp + 1); e.wr(x.a.r1, v); break; }
            case FPOP: { e.okF(x.a.r1); int64_t v = e.load((uint64_t)s.sp); s.sp = (int64_t)((uint64_t)s.sp + 1); s.F[x.a.r1] = (uint64_t)v; break; }
            case PUTCHAR: s.out += (char)e.rd(x.a.r1); break;
            case PUTNUM: s.out += std::to_string(e.rd(x.a.r1)) + "\n"; break;
            case GETCHAR: {
                e.okReg(x.a.r1);
                while (s.inPos < s.in.size() && isspace((unsigned char)s.in[s.inPos])) ++s.inPos;
                int64_t v = -1;
                if (s.inPos < s.in.size()) v = (signed char)s.in[s.inPos++];
                e.wr(x.a.r1, v); break;
            }
            default:
                if (isCondJump(x.op)) { int64_t t = e.val(x.a); e.info.jumped = true; if (cond(x.op, s.flags)) { npc = t; e.info.taken = true; } }
        }
    } catch (FaultEx& fx) {
        s.status = Machine::Fault; s.fault = fx.why;
        return e.info;
    }
    s.ip = npc;
    return e.info;
}

bool same(const Machine& a, const Machine& b, std::string* why, bool ignoreFlags) {
    auto diff = [&](const std::string& w, int64_t x, int64_t y) { if (why) *why = w + ": expected " + std::to_string(x) + ", got " + std::to_string(y); return false; };
    for (size_t i = 0; i < a.R.size(); ++i) if (a.R[i] != b.R[i]) return diff("R" + std::to_string(i), a.R[i], b.R[i]);
    for (size_t i = 0; i < a.F.size(); ++i) {
        if (a.F[i] == b.F[i]) continue;
        if (std::isnan(ofBits(a.F[i])) && std::isnan(ofBits(b.F[i]))) continue; // NaN payload/sign is not specified
        if (why) *why = "F" + std::to_string(i) + ": expected " + showFloat(ofBits(a.F[i])) + ", got " + showFloat(ofBits(b.F[i]));
        return false;
    }
    if (a.sp != b.sp) return diff("SP", a.sp, b.sp);
    if (a.bp != b.bp) return diff("BP", a.bp, b.bp);
    if (a.ip != b.ip) return diff("IP", a.ip, b.ip);
    if (!ignoreFlags && a.flags != b.flags) return diff("FLAGS", a.flags, b.flags);
    for (size_t i = 0; i < a.mem.size(); ++i) if (a.mem[i] != b.mem[i]) return diff("[" + std::to_string(i) + "]", a.mem[i], b.mem[i]);
    if (a.out != b.out) { if (why) *why = "output: expected \"" + a.out + "\", got \"" + b.out + "\""; return false; }
    return true;
}
std::string dump(const Machine& s) {
    std::string o = "ip=" + std::to_string(s.ip) + " sp=" + std::to_string(s.sp) + " bp=" + std::to_string(s.bp) + " flags=" + std::to_string(s.flags);
    for (size_t i = 0; i < s.R.size(); ++i) o += " R" + std::to_string(i) + "=" + std::to_string(s.R[i]);
    for (size_t i = 0; i < s.F.size(); ++i) o += " F" + std::to_string(i) + "=" + showFloat(ofBits(s.F[i]));
    return o;
}
}
