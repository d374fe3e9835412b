// Strict reference reader of the T86 executable text format (docs/t86.md, docs/t86-isa.md).
#include "model.h"
#include <charconv>
#include <cstdlib>

namespace m {
namespace {
struct Tok { enum T { Id, Num, Float, Str, Punct, End, Bad, Grey } t; std::string s; size_t pos; };
struct Rejected { std::string why; };
struct Grey { std::string why; };

struct Lex {
    const std::string& in; size_t p = 0;
    Tok next() {
        while (p < in.size()) {
            unsigned char c = in[p];
            if (c == '#') { while (p < in.size() && in[p] != '\n') ++p; }
            else if (c == ' ' || (c >= 9 && c <= 13)) ++p;
            else break;
        }
        if (p >= in.size()) return {Tok::End, "", p};
        size_t b = p; unsigned char c = in[p];
        auto al = [](unsigned char ch) { return (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || ch == '_'; };
        auto dg = [](unsigned char ch) { return ch >= '0' && ch <= '9'; };
        if (al(c)) { while (p < in.size() && (al(in[p]) || dg(in[p]))) ++p; return {Tok::Id, in.substr(b, p - b), b}; }
        if (dg(c)) {
            int dots = 0; while (p < in.size() && (dg(in[p]) || in[p] == '.')) { if (in[p] == '.') ++dots; ++p; }
            std::string s = in.substr(b, p - b);
            if (dots == 0) return {Tok::Num, s, b};
            if (dots > 1) return {Tok::Bad, s, b};
            if (s.back() == '.') return {Tok::Grey, s, b};
            return {Tok::Float, s, b};
        }
        if (c == '"') {
            std::string v; ++p;
            while (true) {
                if (p >= in.size()) return {Tok::Bad, "unterminated string", b};
                unsigned char ch = in[p++];
                if (ch == '"') return {Tok::Str, v, b};
                if (ch >= 0x80) return {Tok::Grey, "non-ascii string", b};
                if (ch == '\\') {
                    if (p >= in.size()) return {Tok::Bad, "unterminated string", b};
                    ch = in[p++];
                    if (ch == 'n') v += '\n'; else if (ch == 't') v += '\t'; else if (ch == '\\') v += '\\'; else if (ch == '"') v += '"';
                    else return {Tok::Bad, "escape", b};
                } else v += (char)ch;
            }
        }
        static const char* two[] = {"!=", "==", "->", ">=", ">>", "<=", "<<", "&&", "||"};
        for (auto* t : two) if (in.compare(p, 2, t) == 0) { p += 2; return {Tok::Punct, t, b}; }
        if (std::string(";,[]{}()!=%+->< :/*`$.&|^").find((char)c) != std::string::npos && c) { ++p; return {Tok::Punct, std::string(1, (char)c), b}; }
        return {Tok::Bad, std::string(1, (char)c), b};
    }
};

struct Reader {
    Lex lx; Tok t;
    bool lenient = false;
    explicit Reader(const std::string& s) : lx{s} { adv(); }
    void adv() {
        t = lx.next();
        if (t.t == Tok::Bad) throw Rejected{"token " + t.s};
        if (t.t == Tok::Grey) throw Grey{t.s};
    }
    bool is(const char* p) const { return t.t == Tok::Punct && t.s == p; }
    void want(const char* p) { if (!is(p)) throw Rejected{std::string("expected ") + p}; adv(); }
    int64_t number() {
        int64_t v; auto r = std::from_chars(t.s.data(), t.s.data() + t.s.size(), v);
        if (r.ec != std::errc()) throw Rejected{"number out of range"};
        adv(); return v;
    }
    bool immStart() const { return t.t == Tok::Num || is("-"); }
    int64_t imm() {
        bool neg = false;
        if (is("-")) { neg = true; adv(); }
        if (t.t != Tok::Num) throw Rejected{"expected i"};
        int64_t v = number(); return neg ? -v : v;
    }
    double flt(bool neg) {
        double v = std::strtod(t.s.c_str(), nullptr);
        if (v > 1.7976931348623157e308) throw Rejected{"float out of range"};
        if (v != 0 && v < 2.2250738585072014e-308) throw Grey{"subnormal literal"};
        if (v == 0 && t.s.find_first_not_of("0.") != std::string::npos) throw Grey{"underflowing literal"};
        adv(); return neg ? -v : v;
    }
    // names
    static bool digits(const std::string& s) { if (s.empty()) return false; for (char c : s) if (c < '0' || c > '9') return false; return true; }
    int64_t regName(const std::string& s) {
        if (s == "SP") return SP;
        if (s == "BP") return BP;
        if (s == "IP") return IP;
        if (lenient && s[0] == 'R') return std::atoi(s.c_str() + 1);
        if (s[0] != 'R' || !digits(s.substr(1))) throw Rejected{"register " + s};
        if (s.size() > 9) throw Grey{"register index"};
        return std::stoll(s.substr(1));
    }
    int64_t fregName(const std::string& s) {
        if (lenient && s[0] == 'F') return std::atoi(s.c_str() + 1);
        if (s[0] != 'F' || !digits(s.substr(1))) throw Rejected{"float register " + s};
        if (s.size() > 9) throw Grey{"register index"};
        return std::stoll(s.substr(1));
    }
    int64_t reg() { if (t.t != Tok::Id) throw Rejected{"expected R"}; int64_t n = regName(t.s); adv(); return n; }
    Opnd memory() {
        want("[");
        Opnd o;
        if (immStart()) { o.k = MI; o.imm = imm(); }
        else {
            o.r1 = reg();
            if (is("*")) { adv(); o.k = MRS; o.sc = imm(); }
            else if (is("+") || is("-")) {
                bool minus = is("-"); adv();
                if (immStart()) {
                    o.imm = imm(); if (minus) o.imm = -o.imm;
                    if (is("+")) {
                        adv(); o.r2 = reg();
                        if (is("*")) { adv(); o.k = MRIRS; o.sc = imm(); } else o.k = MRIR;
                    } else o.k = MRI;
                } else {
                    if (minus) throw Rejected{"R - R"};
                    o.r2 = reg();
                    if (is("*")) { adv(); o.k = MRRS; o.sc = imm(); } else o.k = MRR;
                }
            } else o.k = MR;
        }
        want("]");
        return o;
    }
    // any operand; registerPlus: R +- i is read as one operand when the opcode has such a form
    Opnd operand(bool registerPlus) {
        if (is("[")) return memory();
        if (t.t == Tok::Float) return f(flt(false));
        if (is("-")) {
            adv();
            if (t.t == Tok::Float) return f(flt(true));
            if (t.t != Tok::Num) throw Rejected{"expected number"};
            return i(-number());
        }
        if (t.t == Tok::Num) return i(number());
        if (t.t == Tok::Id) {
            if (t.s[0] == 'F') { int64_t n = fregName(t.s); adv(); return fr(n); }
            int64_t n = reg();
            if (registerPlus && (is("+") || is("-"))) {
                bool minus = is("-"); adv(); Opnd o; o.k = RI; o.r1 = n; o.imm = imm(); if (minus) o.imm = -o.imm; return o;
            }
            return r(n);
        }
        throw Rejected{"expected operand"};
    }
    Ins instruction() {
        if (t.t == Tok::Num) number();
        if (t.t != Tok::Id) throw Rejected{"expected instruction"};
        int op = opByName(t.s);
        if (op < 0 || op == MOD || op == CLF) throw Rejected{"unknown instruction " + t.s};
        adv();
        int arity = -1; bool plus = false;
        for (auto& fo : forms()) if (fo.op == op) { arity = fo.b != None ? 2 : fo.a != None ? 1 : 0; if (fo.b == RI) plus = true; }
        Ins x; x.op = (Op)op;
        if (arity >= 1) x.a = operand(false);
        if (arity == 2) { want(","); x.b = operand(plus); }
        if (!legal(x)) throw Rejected{"operands of " + std::string(opName(op))};
        return x;
    }
};
}

ReadResult readProgram(const std::string& text, bool lenientRegs) {
    ReadResult res;
    bool sawText = false;
    try {
        Reader rd(text); rd.lenient = lenientRegs;
        if (!rd.is(".")) throw Rejected{"no section"};
        while (rd.is(".")) {
            rd.adv();
            if (rd.t.t != Tok::Id) throw Rejected{"section name"};
            std::string name = rd.t.s;
            if (name == "debug_source") { res.status = sawText ? ReadResult::Ok : ReadResult::Unspecified; return res; }
            if (name == "text") {
                sawText = true; rd.adv();
                while (rd.t.t == Tok::Num || rd.t.t == Tok::Id) res.prog.text.push_back(rd.instruction());
            } else if (name == "data") {
                rd.adv();
                while (rd.t.t == Tok::Str || rd.immStart()) {
                    if (rd.t.t == Tok::Str) { for (char c : rd.t.s) res.prog.data.push_back(c); res.prog.data.push_back(0); rd.adv(); }
                    else res.prog.data.push_back(rd.imm());
                }
            } else {
                // other sections are skipped up to the next section; what counts as their content is only
                // specified for plain content
                size_t b = rd.lx.p, e = text.find('.', b);
                // comments may hide the dot
                std::string body = text.substr(b, e == std::string::npos ? std::string::npos : e - b);
                // first token is read normally
                for (unsigned char c : body) if (c == '"' || c == '#' || c >= 0x80) throw Grey{"foreign section content"};
                for (size_t q = 0; q < body.size(); ++q) { size_t d = 0; while (q < body.size() && isdigit((unsigned char)body[q])) ++q, ++d; if (d > 17) throw Grey{"long number in foreign section"}; }
                if (e != std::string::npos && e > b && isdigit((unsigned char)text[e - 1])) throw Grey{"float in foreign section"};
                size_t q = body.find_first_not_of(" \t\n\v\f\r");
                if (q != std::string::npos && (unsigned char)body[q] < 32) throw Grey{"foreign section start"};
                rd.lx.p = e == std::string::npos ? text.size() : e;
                rd.adv();
            }
        }
        if (rd.t.t != Tok::End) throw Rejected{"trailing input"};
        res.status = sawText ? ReadResult::Ok : ReadResult::Unspecified;
    } catch (Rejected& x) { res.status = ReadResult::Reject; res.why = x.why; }
    catch (Grey& x) { res.status = ReadResult::Unspecified; res.why = x.why; }
    return res;
}
std::optional<Ins> readIns(const std::string& text) {
    try {
        Reader rd(text);
        if (rd.t.t != Tok::Id) return std::nullopt;
        Ins x = rd.instruction();
        if (rd.t.t != Tok::End) return std::nullopt;
        return x;
    } catch (Rejected&) {} catch (Grey&) {}
    return std::nullopt;
}
}
