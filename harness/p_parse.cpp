// C05..C07: the program text reader and the instruction printer
#include "vm.h"
#include <cmath>
using namespace vm;

static m::Opnd anyOpnd(Rng& g, m::Kind k, size_t text) {
    m::Opnd o; o.k = k;
    auto reg = [&]() -> int64_t { switch (g.below(8)) { case 0: return m::SP; case 1: return m::BP; case 2: return m::IP; case 3: return g.range(0, 200); default: return g.range(0, 12); } };
    switch (k) {
        case m::I: o.imm = g.chance(1, 3) ? g.range(0, text) : g.value(true); break;
        case m::F: o.f = genFloat(g); break;
        case m::FR: o.r1 = g.range(0, 20); break;
        case m::MI: o.imm = g.chance(1, 2) ? g.range(0, 40) : g.value(true); break;
        default: o.r1 = reg(); o.r2 = reg(); o.imm = g.value(true); o.sc = g.value(true); break;
    }
    m::Opnd c; c.k = k; // only the fields the kind has
    switch (k) {
        case m::I: case m::MI: c.imm = o.imm; break; case m::F: c.f = o.f; break; case m::R: case m::FR: case m::MR: c.r1 = o.r1; break;
        case m::RI: case m::MRI: c.r1 = o.r1; c.imm = o.imm; break; case m::MRR: c.r1 = o.r1; c.r2 = o.r2; break; case m::MRS: c.r1 = o.r1; c.sc = o.sc; break;
        case m::MRIR: c.r1 = o.r1; c.imm = o.imm; c.r2 = o.r2; break; case m::MRRS: c.r1 = o.r1; c.r2 = o.r2; c.sc = o.sc; break;
        case m::MRIRS: c = o; break; default: break;
    }
    return c;
}
static m::Ins anyIns(Rng& g, size_t text, const m::Form* f = nullptr) {
    auto& fs = m::forms(); const m::Form& fo = f ? *f : fs[g.below(fs.size())];
    m::Ins x; x.op = fo.op; x.a = anyOpnd(g, fo.a, text); x.b = anyOpnd(g, fo.b, text); return x;
}
static m::Program anyProgram(Rng& g, size_t maxLen) {
    m::Program p; size_t n = g.chance(1, 12) ? 0 : g.range(1, maxLen);
    for (size_t k = 0; k < n; ++k) p.text.push_back(anyIns(g, n));
    if (g.chance(1, 2)) for (size_t k = g.range(1, 12); k--;) {
        if (g.chance(1, 2)) { for (size_t q = g.range(0, 6); q--;) p.data.push_back(g.chance(1, 8) ? 10 : g.range(32, 126)); p.data.push_back(0); }
        else p.data.push_back(g.value(true));
    }
    return p;
}
struct Loaded { bool ok = false; std::string err; m::Program p; };
static Loaded real(Ctx& c, const std::string& text) {
    Loaded l;
    try {
        t::Program p = parse(text);
        for (auto& i : p.instructions()) { m::Ins x = extract(*i); l.p.text.push_back(x); }
        l.p.data = p.data(); l.ok = true;
    } catch (const ParserError& e) { l.err = e.what(); }
    catch (const std::exception& e) { c.fail("exception", std::string("loading ended with something else than a parse error: ") + e.what()); }
    return l;
}
static std::string diff(const m::Program& a, const m::Program& b) {
    for (size_t k = 0; k < a.text.size() || k < b.text.size(); ++k) {
        if (k >= a.text.size() || k >= b.text.size()) return "instruction count: expected " + std::to_string(a.text.size()) + ", got " + std::to_string(b.text.size());
        if (!(a.text[k] == b.text[k])) return "instruction " + std::to_string(k) + ": expected " + m::show(a.text[k]) + ", loaded " + (b.text[k].op < 0 ? "?" : m::show(b.text[k]));
    }
    if (a.data != b.data) { for (size_t k = 0; k < std::min(a.data.size(), b.data.size()); ++k) if (a.data[k] != b.data[k]) return "data cell " + std::to_string(k) + ": expected " + std::to_string(a.data[k]) + ", got " + std::to_string(b.data[k]); return "data size: expected " + std::to_string(a.data.size()) + ", got " + std::to_string(b.data.size()); }
    return "";
}
// C05
static void parseGood(Ctx& c) {
    Rng& g = c.rng; m::Program p = anyProgram(g, 12); 
    if (g.chance(1, 400)) { p = anyProgram(g, g.chance(1, 3) ? 70000 : 2000); if (g.chance(1, 2)) for (size_t n = g.range(100, 70000); n--;) p.data.push_back(g.value(true)); c.count("large-programs"); }
    if (g.chance(1, 3)) { auto& fs = m::forms(); p.text.push_back(anyIns(g, 20, &fs[(c.index + c.seed * 131) % fs.size()])); }
    Rng st(g.next());
    std::string text = m::show(p, g.chance(1, 10) ? nullptr : &st);
    if (g.chance(1, 60)) text = std::string(g.range(1000, 300000), g.pick({' ', '\n', '\t'})) + text; // long blank runs
    if (g.chance(1, 60)) { std::string cm; for (int k = g.range(200, 20000); k--;) cm += "# c\n"; text = cm + text; }
    if (g.chance(1, 60)) text = "#" + std::string(g.range(1000, 300000), 'x') + "\n" + text;
    c.detail = text.substr(0, 4000); c.sample(text.substr(0, 700));
    auto ref = m::readProgram(text);
    if (ref.status != m::ReadResult::Ok) throw Discard{};
    c.check(diff(p, ref.prog).empty(), "harness", "reference reader disagrees with the generator: " + diff(p, ref.prog));
    auto l = real(c, text); c.eval(); c.count("instructions", p.text.size()); c.count("data_cells", p.data.size());
    for (auto& x : p.text) c.feature(std::string(m::opName(x.op)) + m::kindName(x.a.k) + m::kindName(x.b.k) + std::to_string((x.a.imm < 0) + 2 * (x.b.imm < 0) + 4 * (x.b.sc < 0) + 8 * (x.b.r1 >= m::SP) + 16 * (x.b.r2 >= m::SP) + 32 * (std::abs((double)x.b.imm) > 2e9)));
    c.check(l.ok, "rejected", "well-formed program rejected: " + l.err);
    std::string d = diff(p, l.p); c.check(d.empty(), "loaded", d);
    // another spelling of the same program
    Rng st2(g.next()); std::string text2 = m::show(p, &st2);
    if (m::readProgram(text2).status == m::ReadResult::Ok) { c.detail = text2.substr(0, 4000); auto l2 = real(c, text2); c.check(l2.ok, "rejected", "other spelling rejected: " + l2.err); d = diff(l.p, l2.p); c.check(d.empty(), "spelling", d); c.count("respelled"); }
    // the Program constructor's other views
    // (instructions beyond the text are NOP for the machine; covered by the machine's checks)
}
// C06
static std::string mutate(Rng& g, std::string s) {
    static const std::vector<std::string> toks = {"MOV", "ADD", "R1", "R2", "F0", "SP", "IP", "BP", ",", "[", "]", "+", "-", "*", "1", "0", "-1", "3.14", ".5", "1.", "1..2", "99999999999999999999", "9223372036854775808", "9223372036854775807", "\"a\"", "\"", "\\", ".", ".text", ".data", "#", ";", "{", "}", "(", ")", "HALT", "RET", "JMP", "CALL 3", "FADD", "MOD R0, R1", "CLF", "DBG", "NOP", "R", "F", "Rx", "RBP", "R-1", "R 1", "@", "~", "?", "\xff", "\x80", "\n", "mov", "PUSH 1.5", "FPUSH 1", "GETCHAR F0", "1e5", "0x10", "'a'", "$", "`", "|", "||", "&&", "<<", "MOV R1, R2 + 1", "LEA R1, R2", "ADD R1, R2 + 1", "BKPT", "BREAK", "MOV [1], [2]", "MOV 1, R1", "DBG R1", "LSH R0, -1"};
    int n = g.chance(2, 3) ? 1 : g.range(2, 5);
    while (n--) {
        size_t p = g.below(s.size() + 1);
        switch (g.below(8)) {
            case 0: if (p < s.size()) s.erase(p, 1); break;
            case 1: s.insert(p, g.pick(toks)); break;
            case 2: s.insert(p, " " + g.pick(toks) + " "); break;
            case 3: if (p < s.size()) s[p] = (char)g.pick<int>({',', '[', ']', '+', '-', '*', '.', '"', '#', ' ', '\n', 'R', 'F', '0', '9', 'A', 0, 0xff, 0x80, (int)g.below(256)}); break;
            case 4: s.resize(p); break; // truncation
            case 5: { size_t q = std::min(s.size(), p + g.range(1, 6)); s.erase(p, q - p); break; }
            case 6: { size_t e = s.find_first_of(" ,\n[]", p); if (e == std::string::npos) e = s.size(); s.replace(p, e - p, g.pick(toks)); break; }
            case 7: { size_t q = g.below(s.size() + 1); size_t l = g.range(1, 12); s.insert(p, s.substr(q, l)); break; }
        }
    }
    return s;
}
static void judge(Ctx& c, const std::string& text) {
    c.detail = text.substr(0, 4000);
    auto ref = m::readProgram(text);
    auto l = real(c, text); c.eval();
    const char* st = ref.status == m::ReadResult::Ok ? "ok" : ref.status == m::ReadResult::Reject ? "reject" : "unspecified";
    c.count(std::string("ref_") + st); c.count(l.ok ? "accepted" : "refused");
    c.feature(std::string(st) + (l.ok ? "+" : "-") + ref.why);
    if (ref.status == m::ReadResult::Unspecified) return;
    if (ref.status == m::ReadResult::Ok) {
        c.check(l.ok, "rejected", "well-formed program rejected: " + l.err);
        std::string d = diff(ref.prog, l.p); c.check(d.empty(), "loaded", d);
    } else if (l.ok) {
        auto len = m::readProgram(text, true);
        if (len.status == m::ReadResult::Unspecified || (len.status == m::ReadResult::Ok && diff(len.prog, l.p).empty())) c.fail("accepted:register-name", "malformed register name accepted (" + ref.why + ")");
        c.fail("accepted", "malformed program (" + ref.why + ") accepted" + (l.p.text.empty() ? "" : ", first instruction " + m::show(l.p.text[0])));
    }
}
static void parseBad(Ctx& c) {
    Rng& g = c.rng; m::Program p = anyProgram(g, 5); Rng st(g.next());
    std::string text = mutate(g, m::show(p, g.chance(1, 3) ? nullptr : &st));
    c.sample(text.substr(0, 400));
    judge(c, text);
}
// one instruction whose operand kinds are those of some other opcode
static void parseForms(Ctx& c) {
    Rng& g = c.rng; m::Ins x = anyIns(g, 5);
    m::Kind ks[] = {m::I, m::F, m::R, m::FR, m::RI, m::MI, m::MR, m::MRI, m::MRR, m::MRS, m::MRIR, m::MRRS, m::MRIRS};
    auto rk = [&] { return ks[g.below(13)]; };
    // enumerates (opcode, kind, kind) over the cases
    uint64_t k = c.index + c.seed * 977; int op = k % m::OP_COUNT; k /= m::OP_COUNT; 
    x.op = (m::Op)op; x.a = anyOpnd(g, ks[k % 13], 5); k /= 13; size_t kb = k % 14; x.b = kb == 13 ? m::Opnd() : anyOpnd(g, ks[kb], 5);
    std::string s = std::string(m::opName(x.op)); int sur = g.below(10);
    s += " " + m::show(x.a); if (x.b.k != m::None) s += ", " + m::show(x.b);
    if (sur == 0) s += ", " + m::show(anyOpnd(g, rk(), 5)); if (sur == 1) s += " " + m::show(anyOpnd(g, rk(), 5)); if (sur == 2) s = std::string(m::opName(x.op)); if (sur == 3) s += ",";
    std::string text = ".text\n0 " + s + "\n" + (g.chance(1, 2) ? "1 HALT\n" : "");
    c.sample(text);
    judge(c, text);
}
static void parseBytes(Ctx& c) {
    Rng& g = c.rng; std::string s; size_t n = g.range(0, g.chance(1, 20) ? 5000 : 120);
    static const std::string al = " \n\t.,[]+-*#\"\\RFSPIB0123456789MOVADDHLTtexda{}():;`";
    if (g.chance(2, 3)) s = g.pick<std::string>({".text\n", ".data\n", ".text 0 MOV R0, ", ".data \"", ".x ", ".", ""});
    for (size_t k = 0; k < n; ++k) s += g.chance(1, 10) ? (char)g.below(256) : al[g.below(al.size())];
    if (g.chance(1, 4)) s += std::string(g.range(1, 3000), (char)g.pick<int>({'[', '(', '-', '.', '"', '#', '\n', ' ', '0', '9', 'R', ',', 0xff, 0}));
    judge(c, s);
}
// C07
static void roundTrip(Ctx& c) {
    Rng& g = c.rng; auto& fs = m::forms(); size_t nf = fs.size() + 6;
    size_t k = (c.index + c.seed * 31) % nf; m::Ins x;
    x = anyIns(g, 20, k < fs.size() ? &fs[k] : nullptr);
    if (g.chance(1, 20) && (x.a.k == m::I || x.b.k == m::I || x.b.imm)) { (x.b.k != m::None ? x.b.imm : x.a.imm) = g.value(true); x.b.k == m::F ? x.b.imm = 0 : 0; }
    if (!m::legal(x)) throw Discard{};
    // normalise fields the kind does not have
    auto norm = [&](m::Opnd& o) { Rng z(1); m::Opnd q; q.k = o.k; switch (o.k) { case m::I: case m::MI: q.imm = o.imm; o = q; break; case m::F: q.f = o.f; o = q; break; case m::R: case m::FR: case m::MR: q.r1 = o.r1; o = q; break; case m::MRR: q.r1 = o.r1; q.r2 = o.r2; o = q; break; case m::MRS: q.r1 = o.r1; q.sc = o.sc; o = q; break; default: break; } };
    norm(x.a); norm(x.b);
    auto b = build(x); std::string shown = b->toString();
    c.detail = "instruction: " + m::show(x) + "\nshown as: " + shown; c.sample(c.detail); c.eval();
    c.feature(std::string(m::opName(x.op)) + m::kindName(x.a.k) + m::kindName(x.b.k) + std::to_string((x.a.imm < 0) + 2 * (x.b.imm < 0) + 4 * (x.b.sc < 0) + 8 * (x.b.r1 >= m::SP) + 16 * (x.b.imm > 2000000000ll)));
    c.count(std::string("op_") + m::opName(x.op));
    auto ri = m::readIns(shown);
    c.check(ri.has_value(), "unreadable", "shown text is not a legal instruction: " + shown);
    c.check(*ri == x, "shown", "shown text denotes " + m::show(*ri));
    auto l = real(c, ".text\n0 " + shown + "\n");
    c.check(l.ok, "reparse", "shown text is rejected: " + l.err);
    c.check(l.p.text.size() == 1 && l.p.text[0] == x, "reparsed", "shown text loads as " + (l.p.text.empty() ? "nothing" : m::show(l.p.text[0])));
    // through the text of a loaded instruction
    Rng st(g.next()); auto l2 = parse(".text\n0 " + m::show(x, &st) + "\n");
    c.check(l2.instructions().size() == 1 && l2.instructions()[0]->toString() == shown, "shown2", "the same instruction in another spelling is shown as " + l2.instructions()[0]->toString());
}

std::vector<ModeDef> modes() {
    return {{"parse-good", parseGood}, {"parse-bad", parseBad}, {"parse-forms", parseForms}, {"parse-bytes", parseBytes}, {"roundtrip", roundTrip}};
}
int main(int argc, char** argv) { return harnessMain(argc, argv); }
