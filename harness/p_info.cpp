// C19: the reader of debug sections against a strict reference reader; what it accepts has to be safe to use.
#include "srcenv.h"
#include "srcmodes.h"
#include "debugger/Source/Parser.h"
#include "common/parsing.h"
using namespace se;

namespace {
struct Attr { std::string n; std::string s; uint64_t v = 0; std::vector<LocIns> loc; std::vector<Ty::Mem> mem; };
struct D { std::string tag; std::vector<Attr> at; std::vector<D> ch; };
struct Info { std::optional<std::map<size_t, uint64_t>> lines; std::optional<D> top; std::optional<std::vector<std::string>> src; };
struct BadInfo { std::string why; };

std::string show(const D& d, int ind = 0) {
    std::string o = std::string(ind, ' ') + d.tag + "\n";
    for (auto& a : d.at) { o += std::string(ind + 1, ' ') + a.n + "=" + jesc(a.s) + " " + std::to_string(a.v); for (auto& l : a.loc) o += " " + show(l) + ";"; for (auto& m : a.mem) o += " " + std::to_string(m.off) + ":" + std::to_string(m.to) + ":" + m.name; o += "\n"; }
    for (auto& x : d.ch) o += show(x, ind + 2); return o;
}
std::string show(const Info& i) { std::string o; if (i.lines) { o += "lines"; for (auto& [l, a] : *i.lines) o += " " + std::to_string(l) + "->" + std::to_string(a); o += "\n"; } if (i.top) o += show(*i.top); if (i.src) { o += "source\n"; for (auto& l : *i.src) o += "|" + jesc(l) + "\n"; } return o; }

// ---- strict reference reader
struct Read {
    const std::string& t; size_t p = 0; bool ignore = false;
    struct Tok { char k = 'E'; std::string s; uint64_t v = 0; }; // E end, I id, N number, F float, S string, or the character itself
    Tok cur; size_t before = 0; // position of the current token
    explicit Read(const std::string& t) : t(t) { next(); }
    void next() {
        while (true) {
            while (p < t.size() && (isspace((unsigned char)t[p]) || t[p] == '#')) { if (t[p] == '#') while (p < t.size() && t[p] != '\n') ++p; else ++p; }
            before = p;
            if (p >= t.size()) { cur = {}; return; }
            unsigned char c = t[p];
            if (isdigit(c)) {
                size_t q = p; int dots = 0; while (q < t.size() && (isdigit((unsigned char)t[q]) || t[q] == '.')) dots += t[q++] == '.';
                std::string s = t.substr(p, q - p); p = q;
                if (dots && ignore) throw EOpen{"number with a dot in another section"};
                cur = {dots ? 'F' : 'N', s}; if (ignore) return;
                if (dots > 1) throw BadInfo{"number"};
                if (!dots) { std::string z = s; while (z.size() > 1 && z[0] == '0') z.erase(0, 1); if (z.size() > 19 || (z.size() == 19 && z > "9223372036854775807")) throw BadInfo{"number out of range"}; cur.v = std::stoull(z); }
                return;
            }
            if (c < 128 && (isalpha(c) || c == '_')) { size_t q = p; while (q < t.size() && (unsigned char)t[q] < 128 && (isalnum((unsigned char)t[q]) || t[q] == '_')) ++q; cur = {'I', t.substr(p, q - p)}; p = q; return; }
            if (c == '"') {
                std::string s; ++p;
                while (true) {
                    if (p >= t.size()) throw BadInfo{"unterminated string"};
                    char x = t[p++]; if (x == '"') break;
                    if (x == '\\') { char y = p < t.size() ? t[p++] : 'z'; if (y == 'n') s += '\n'; else if (y == 't') s += '\t'; else if (y == '\\') s += '\\'; else if (y == '"') s += '"'; else throw BadInfo{"escape"}; }
                    else s += x;
                }
                cur = {'S', s}; return;
            }
            ++p;
            if (c && strchr(";,[]{}()!=%+-><:/*`$.&|^", c)) { cur = {(char)c, ""}; return; }
            if (!ignore) throw BadInfo{"character"};
        }
    }
    bool is(char k) const { return cur.k == k; }
    void want(char k, const char* why) { if (!is(k)) throw BadInfo{why}; next(); }
    uint64_t num() { if (!is('N')) throw BadInfo{"number expected"}; auto v = cur.v; next(); return v; }
    int64_t offset() { bool neg = false; if (is('-')) { neg = true; next(); } int64_t v = (int64_t)num(); return neg ? -v : v; }
    LocIns ins() {
        if (!is('I')) throw BadInfo{"location instruction"}; std::string s = cur.s; next();
        if (s == "BASE_REG_OFFSET") return {LocIns::Bro, offset(), ""};
        if (s == "ADD") return {LocIns::Add, 0, ""};
        if (s == "DEREFERENCE") return {LocIns::Deref, 0, ""};
        if (s != "PUSH") throw BadInfo{"location instruction"};
        if (is('I')) { LocIns x{LocIns::PushR, 0, cur.s}; next(); return x; }
        return {LocIns::PushI, offset(), ""};
    }
    Attr attr(const std::string& n) {
        Attr a; a.n = n; want(':', "colon");
        static const std::set<std::string> nums = {"ATTR_type", "ATTR_id", "ATTR_begin_addr", "ATTR_end_addr", "ATTR_size"};
        if (n == "ATTR_name") { if (!is('I') && !is('S')) throw BadInfo{"name"}; a.s = cur.s; next(); }
        else if (nums.count(n)) a.v = num();
        else if (n == "ATTR_members") {
            want('{', "brace");
            while (!is('}')) { Ty::Mem m; m.off = (int64_t)num(); want(':', "colon"); want('{', "brace"); m.to = num(); want(':', "colon"); if (!is('I')) throw BadInfo{"member name"}; m.name = cur.s; next(); want('}', "brace"); a.mem.push_back(m); if (is(',')) next(); else if (!is('}')) throw BadInfo{"comma"}; }
            next();
        } else if (n == "ATTR_location") {
            if (is('`')) { next(); if (!is('`')) a.loc.push_back(ins()); want('`', "backtick"); }
            else { want('[', "location"); while (!is(']')) { a.loc.push_back(ins()); if (is(';')) next(); else if (!is(']')) throw BadInfo{"semicolon"}; } next(); }
        } else throw BadInfo{"unknown attribute"};
        return a;
    }
    D die(const std::string& tag, bool top) {
        static const std::set<std::string> tags = {"DIE_function", "DIE_primitive_type", "DIE_structured_type", "DIE_pointer_type", "DIE_array_type", "DIE_variable", "DIE_scope", "DIE_compilation_unit"};
        D d; d.tag = tag; want(':', "colon"); want('{', "brace"); if (!tags.count(tag)) throw BadInfo{"unknown tag"};
        odd |= top != (tag == "DIE_compilation_unit");
        while (!is('}')) {
            if (!is('I')) throw BadInfo{"entry"}; std::string id = cur.s; next();
            if (id.rfind("ATTR", 0) == 0) d.at.push_back(attr(id)); else if (id.rfind("DIE", 0) == 0) d.ch.push_back(die(id, false)); else throw BadInfo{"neither attribute nor entry"};
            if (is(',')) next(); else if (!is('}')) throw BadInfo{"comma"};
        }
        next(); return d;
    }
    bool odd = false;
    Info whole() {
        Info r; std::set<std::string> seen;
        while (!is('E')) {
            if (!is('.')) throw BadInfo{"section"}; size_t dot = before; next(); if (!is('I')) throw BadInfo{"section name"}; if (before != dot + 1) odd = true;
            std::string s = cur.s; if (s.rfind("debug", 0) == 0 && !seen.insert(s).second) odd = true;
            if (s == "debug_source") {
                if (p < t.size() && t[p] != '\n') odd = true;
                std::string raw = p < t.size() ? t.substr(p + 1) : ""; std::vector<std::string> l; std::string x; for (char c : raw) if (c == '\n') { l.push_back(x); x.clear(); } else x += c; if (!x.empty()) l.push_back(x);
                r.src = l; return r;
            }
            if (s == "debug_line") { next(); std::map<size_t, uint64_t> m; while (!is('.') && !is('E')) { auto l = num(); want(':', "colon"); auto a = num(); if (m.count(l)) odd = true; m[l] = a; } r.lines = m; }
            else if (s == "debug_info") { next(); if (is('.') || is('E')) { odd = true; continue; } if (!is('I')) throw BadInfo{"entry"}; std::string tag = cur.s; next(); r.top = die(tag, true); }
            else { ignore = true; next(); while (!is('.') && !is('E')) next(); ignore = false; }
        }
        return r;
    }
};

std::string differs(const DIE& got, const D& w) {
    static const std::map<std::string, DIE::TAG> tags = {{"DIE_function", DIE::TAG::function}, {"DIE_primitive_type", DIE::TAG::primitive_type}, {"DIE_structured_type", DIE::TAG::structured_type}, {"DIE_pointer_type", DIE::TAG::pointer_type}, {"DIE_array_type", DIE::TAG::array_type}, {"DIE_variable", DIE::TAG::variable}, {"DIE_scope", DIE::TAG::scope}, {"DIE_compilation_unit", DIE::TAG::compilation_unit}};
    if (got.get_tag() != tags.at(w.tag)) return "entry of another kind than " + w.tag;
    if ((size_t)std::distance(got.begin_attr(), got.end_attr()) != w.at.size()) return w.tag + " with " + std::to_string(std::distance(got.begin_attr(), got.end_attr())) + " attributes";
    auto it = got.begin_attr();
    for (auto& a : w.at) {
        const DIE_ATTR& g = *it++; std::string r;
        if (auto p = std::get_if<ATTR_name>(&g)) { if (a.n != "ATTR_name" || p->n != a.s) r = "name " + jesc(p->n); }
        else if (auto p = std::get_if<ATTR_begin_addr>(&g)) { if (a.n != "ATTR_begin_addr" || p->addr != a.v) r = std::to_string(p->addr); }
        else if (auto p = std::get_if<ATTR_end_addr>(&g)) { if (a.n != "ATTR_end_addr" || p->addr != a.v) r = std::to_string(p->addr); }
        else if (auto p = std::get_if<ATTR_type>(&g)) { if (a.n != "ATTR_type" || p->type_id != a.v) r = std::to_string(p->type_id); }
        else if (auto p = std::get_if<ATTR_size>(&g)) { if (a.n != "ATTR_size" || p->size != a.v) r = std::to_string(p->size); }
        else if (auto p = std::get_if<ATTR_id>(&g)) { if (a.n != "ATTR_id" || p->id != a.v) r = std::to_string(p->id); }
        else if (auto p = std::get_if<ATTR_members>(&g)) { bool ok = a.n == "ATTR_members" && p->m.size() == a.mem.size(); for (size_t k = 0; ok && k < a.mem.size(); ++k) ok = p->m[k].name == a.mem[k].name && p->m[k].type_id == a.mem[k].to && p->m[k].offset == a.mem[k].off; if (!ok) r = "other members"; }
        else if (auto p = std::get_if<ATTR_location_expr>(&g)) {
            bool ok = a.n == "ATTR_location" && p->locs.size() == a.loc.size();
            for (size_t k = 0; ok && k < a.loc.size(); ++k) { auto& x = p->locs[k]; auto& y = a.loc[k];
                if (auto q = std::get_if<expr::Push>(&x)) { if (auto o = std::get_if<expr::Offset>(&q->value)) ok = y.k == LocIns::PushI && y.v == o->value; else ok = y.k == LocIns::PushR && y.r == std::get<expr::Register>(q->value).name; }
                else if (auto q = std::get_if<expr::FrameBaseRegisterOffset>(&x)) ok = y.k == LocIns::Bro && y.v == q->offset; else if (std::holds_alternative<expr::Add>(x)) ok = y.k == LocIns::Add; else ok = y.k == LocIns::Deref; }
            if (!ok) r = "other location";
        }
        if (!r.empty()) return w.tag + " " + a.n + ": read " + r;
    }
    if ((size_t)std::distance(got.begin(), got.end()) != w.ch.size()) return w.tag + " with " + std::to_string(std::distance(got.begin(), got.end())) + " children, expected " + std::to_string(w.ch.size());
    auto ci = got.begin(); for (auto& x : w.ch) { auto d = differs(*ci++, x); if (!d.empty()) return w.tag + " > " + d; }
    return "";
}

// ---- generation
struct InfoGen {
    Rng& g; int style; InfoGen(Rng& g) : g(g) { style = (int)g.below(3); }
    std::string ws(bool must = false) { if (style == 0) return must ? " " : ""; std::string s; size_t n = g.below(3) + (must ? 1 : 0); for (size_t k = 0; k < n; ++k) s += g.chance(1, 12) && style == 2 ? std::string("# ") + g.pick<const char*>({"note", ".debug_info", "\"", "}", "`x"}) + "\n" : std::string(1, g.pick<char>({' ', ' ', ' ', '\n', '\t', '\r'})); return s; }
    std::string ident() { static const char* w[] = {"a", "b", "main", "x1", "swap", "_v", "ADD", "PUSH", "DIE_x", "ATTR_name", "debug_line", "int", "long_name_of_something", "R0"}; return w[g.below(14)]; }
    std::string quoted(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"') r += "\\\""; else if (c == '\\') r += "\\\\"; else if (c == '\n' && g.chance(1, 2)) r += "\\n"; else if (c == '\t' && g.chance(1, 2)) r += "\\t"; else r += c; } return r + "\""; }
    static bool isId(const std::string& s) { if (s.empty() || isdigit((unsigned char)s[0])) return false; for (unsigned char c : s) if (c > 127 || (!isalnum(c) && c != '_')) return false; return true; }
    std::string anyStr() { std::string s; size_t n = g.below(8); for (size_t k = 0; k < n; ++k) s += g.chance(1, 3) ? g.pick<char>({'"', '\\', '\n', '\t', '.', '#', '}', '`', (char)0xc3, (char)0xff, 0, ';'}) : (char)g.range(32, 126); return s; }
    uint64_t number() { switch (g.below(5)) { case 0: return g.pick<uint64_t>({0, 1, (uint64_t)INT64_MAX, (uint64_t)INT64_MAX - 1, 1ull << 32, (1ull << 31) - 1, 1ull << 31}); case 1: return (uint64_t)g.value() >> 1; default: return g.below(50); } }
    D fromWorld(const World& w, bool exact) { // a realistic unit
        D top; top.tag = "DIE_compilation_unit";
        auto num = [](const char* n, uint64_t v) { Attr a; a.n = n; a.v = v; return a; }; auto str = [](const char* n, const std::string& s) { Attr a; a.n = n; a.s = s; return a; };
        for (auto& [id, t] : w.types) {
            D d; d.at = {num("ATTR_id", id), num("ATTR_size", t.n)};
            switch (t.k) { case Ty::Int: case Ty::Float: case Ty::Char: case Ty::Unsigned: d.tag = "DIE_primitive_type"; d.at.push_back(str("ATTR_name", w.typeName(id))); break; case Ty::Ptr: d.tag = "DIE_pointer_type"; d.at.push_back(num("ATTR_type", t.to)); break; case Ty::Arr: d.tag = "DIE_array_type"; d.at.push_back(num("ATTR_type", t.to)); break; case Ty::Struct: { d.tag = "DIE_structured_type"; d.at.push_back(str("ATTR_name", t.name)); Attr m; m.n = "ATTR_members"; m.mem = t.mem; d.at.push_back(m); } }
            World::shuffle(g, d.at); top.ch.push_back(d);
        }
        auto var = [&](const Var& v) { D d; d.tag = "DIE_variable"; d.at = {str("ATTR_name", v.name)}; if (v.type) d.at.push_back(num("ATTR_type", *v.type)); if (v.loc) { Attr l; l.n = "ATTR_location"; l.loc = *v.loc; for (auto& x : l.loc) if (x.v == INT64_MIN) x.v = 7; d.at.push_back(l); } World::shuffle(g, d.at); return d; };
        std::function<D(const Scope&)> sc = [&](const Scope& s) { D d; d.tag = s.fn ? "DIE_function" : "DIE_scope"; d.at = {num("ATTR_begin_addr", s.b), num("ATTR_end_addr", s.e)}; if (s.fn) d.at.push_back(str("ATTR_name", s.name)); World::shuffle(g, d.at); for (auto& v : s.vars) d.ch.push_back(var(v)); for (auto& x : s.subs) d.ch.push_back(sc(x)); World::shuffle(g, d.ch); return d; };
        for (auto& v : w.globals) top.ch.push_back(var(v)); for (auto& f : w.fns) top.ch.push_back(sc(f));
        if (!exact) for (auto& d : top.ch) if (g.chance(1, 3) && !d.at.empty()) { size_t q = g.below(d.at.size()); if (d.at[q].n != "ATTR_id" || g.chance(1, 4)) d.at.erase(d.at.begin() + q); } // a missing attribute
        World::shuffle(g, top.ch); return top;
    }
    Attr anyAttr() {
        Attr a; a.n = g.pick<const char*>({"ATTR_name", "ATTR_type", "ATTR_id", "ATTR_begin_addr", "ATTR_end_addr", "ATTR_size", "ATTR_members", "ATTR_location"});
        if (a.n == "ATTR_name") a.s = g.chance(1, 2) ? ident() : anyStr();
        else if (a.n == "ATTR_members") { size_t n = g.below(4); for (size_t k = 0; k < n; ++k) a.mem.push_back({ident(), number(), (int64_t)number()}); }
        else if (a.n == "ATTR_location") { size_t n = g.below(5); for (size_t k = 0; k < n; ++k) { LocIns x; x.k = (LocIns::K)g.below(5); x.v = x.k == LocIns::PushI || x.k == LocIns::Bro ? (int64_t)number() * (g.chance(1, 2) ? -1 : 1) : 0; if (x.k == LocIns::PushR) x.r = ident(); a.loc.push_back(x); } }
        else a.v = number();
        return a;
    }
    D anyDie(int depth, bool top) { D d; d.tag = top ? "DIE_compilation_unit" : g.pick<const char*>({"DIE_function", "DIE_primitive_type", "DIE_structured_type", "DIE_pointer_type", "DIE_array_type", "DIE_variable", "DIE_scope"}); size_t n = g.below(5); for (size_t k = 0; k < n; ++k) d.at.push_back(anyAttr()); if (depth) { n = g.below(5); for (size_t k = 0; k < n; ++k) d.ch.push_back(anyDie(depth - 1, false)); } return d; }
    std::string num(uint64_t v) { return (g.chance(1, 30) ? "00" : "") + std::to_string(v); }
    std::string off(int64_t v) { return v < 0 ? "-" + ws() + std::to_string(-(uint64_t)v) : num(v); }
    std::string text(const LocIns& x) { switch (x.k) { case LocIns::PushI: return "PUSH" + ws(true) + off(x.v); case LocIns::PushR: return "PUSH" + ws(true) + x.r; case LocIns::Add: return "ADD"; case LocIns::Bro: return "BASE_REG_OFFSET" + ws(true) + off(x.v); default: return "DEREFERENCE"; } }
    std::string text(const Attr& a) {
        std::string r = a.n + ws() + ":" + ws();
        if (a.n == "ATTR_name") return r + (isId(a.s) && g.chance(2, 3) ? a.s : quoted(a.s));
        if (a.n == "ATTR_members") { r += "{" + ws(); for (size_t k = 0; k < a.mem.size(); ++k) { auto& m = a.mem[k]; r += num(m.off) + ws() + ":" + ws() + "{" + ws() + num(m.to) + ws() + ":" + ws() + m.name + ws() + "}" + ws(); if (k + 1 < a.mem.size() || g.chance(1, 2)) r += "," + ws(); } return r + "}"; }
        if (a.n == "ATTR_location") { if (a.loc.size() < 2 && g.chance(1, 2)) return r + "`" + ws() + (a.loc.empty() ? "" : text(a.loc[0])) + ws() + "`"; r += "[" + ws(); for (size_t k = 0; k < a.loc.size(); ++k) { r += text(a.loc[k]) + ws(); if (k + 1 < a.loc.size() || g.chance(1, 3)) r += ";" + ws(); } return r + "]"; }
        return r + num(a.v);
    }
    std::string text(const D& d, int ind = 0) { // attributes and children interleaved
        std::string r = d.tag + ws() + ":" + ws() + "{" + (style ? "\n" : "") + ws(); size_t a = 0, c = 0;
        while (a < d.at.size() || c < d.ch.size()) { bool at = c >= d.ch.size() || (a < d.at.size() && g.chance(2, 3)); r += at ? text(d.at[a++]) : text(d.ch[c++], ind + 1); bool last = a >= d.at.size() && c >= d.ch.size(); r += ws(); if (!last || g.chance(1, 2)) r += "," + ws(); if (style) r += "\n"; }
        return r + "}";
    }
    Info info; std::string whole;
    std::string make(const World* w) {
        std::vector<std::string> secs;
        if (!g.chance(1, 5)) { std::map<size_t, uint64_t> m; size_t n = g.below(12); for (size_t k = 0; k < n; ++k) m[g.chance(1, 8) ? number() : g.below(30)] = g.chance(1, 8) ? number() : g.below(40); info.lines = m; std::vector<std::pair<size_t, uint64_t>> v(m.begin(), m.end()); World::shuffle(g, v); std::string s = ".debug_line\n"; for (auto& [l, a] : v) s += num(l) + ws() + ":" + ws() + num(a) + (g.chance(1, 4) ? " " : "\n") + ws(); secs.push_back(s); }
        if (!g.chance(1, 6)) { info.top = w ? fromWorld(*w, !g.chance(1, 3)) : anyDie((int)g.below(4), true); secs.push_back(".debug_info" + std::string(g.chance(1, 2) ? "\n" : " ") + ws() + text(*info.top)); }
        if (g.chance(1, 2)) secs.push_back(g.pick<const char*>({".text\n0 MOV R0, [BP + 1]  # comment .data\n1 HALT", ".text\nMOV [R0 + -2], 5\nFADD F0, F1\nHALT", ".text", ".text\nJMP 3\n# \"x\nNOP"}));
        if (g.chance(1, 3)) secs.push_back(g.pick<const char*>({".data\n1\n-5\n\"a.b\\n\"", ".data\n\"str\" 7", ".other\n@ ? 'x' ~ \\ 5", ".debug_foo\n1: {2}"}));
        World::shuffle(g, secs);
        std::string t = ws(); for (auto& s : secs) t += s + "\n" + ws();
        if (g.chance(1, 2)) { std::vector<std::string> l; size_t n = g.below(8); std::string raw; for (size_t k = 0; k < n; ++k) { std::string s = g.chance(1, 6) ? anyStr() : g.pick<const char*>({"int main() {", "", "    return 0;", "}", ".text", "# c", ".debug_info", "  x = \"a\";"}); for (char& ch : s) if (ch == '\n') ch = '\r'; l.push_back(s); raw += s + "\n"; } if (!l.empty() && g.chance(1, 3)) { raw.pop_back(); if (l.back().empty()) l.pop_back(); } info.src = l; t += ".debug_source\n" + raw; }
        return t;
    }
    std::string mutate(std::string t) {
        size_t n = g.range(1, 3);
        static const std::vector<std::string> bits = {"{", "}", "[", "]", ":", ",", ";", "`", "\"", "\\", ".", "-", "5", "ATTR_", "DIE_", "ATTR_size: 3", "DIE_scope: {}", " ", "\n", "#", "99999999999999999999", "1.5", "@", "->", ".debug_info", ".debug_line", ".debug_source", ".text\n", "PUSH", "x", "0", "100000", "ATTR_id: 1,", "ATTR_type: 2,", "\xff", std::string(1, '\0')};
        for (size_t k = 0; k < n && !t.empty(); ++k) {
            size_t p = g.below(t.size());
            switch (g.below(7)) {
                case 0: t.erase(p, g.range(1, 4)); break; case 1: t.insert(p, g.pick(bits)); break; case 2: t[p] = g.pick(bits)[0]; break; case 3: t.resize(p); break;
                case 4: { size_t q = g.below(t.size()), l = g.range(1, 40); auto s = t.substr(q, l); t.insert(p, s); break; }
                case 5: { // replace a number
                    size_t q = t.find_first_of("0123456789", p); if (q == std::string::npos) break; size_t e = q; while (e < t.size() && isdigit((unsigned char)t[e])) ++e; t.replace(q, e - q, g.pick<std::string>({"0", "1", "2", "7", "100", "9223372036854775807", "9223372036854775808", "-1", "1.0", std::to_string(g.below(45))})); break; }
                default: { size_t e = t.find('\n', p); t.erase(p, (e == std::string::npos ? t.size() : e) - p); }
            }
        }
        return t;
    }
};
World anyWorld(Ctx& c, const vm::Cfg& cfg, size_t L) {
    Rng& g = c.rng; World w; WorldOpt o; o.faulty = g.chance(1, 3); genTypes(g, w, o); std::vector<size_t> ids; for (auto& [id, t] : w.types) ids.push_back(id);
    auto mkVar = [&](std::set<std::string>& used) { Var v; do v.name = varName(g); while (!used.insert(v.name).second); if (!g.chance(1, 20)) v.type = g.pick(ids); if (!g.chance(1, 15)) v.loc = anyLoc(g, cfg, g.chance(1, 6)); return v; };
    std::set<std::string> used; size_t ng = g.below(3); for (size_t k = 0; k < ng; ++k) w.globals.push_back(mkVar(used));
    uint64_t at = 0; size_t nf = g.below(3); for (size_t k = 0; k < nf; ++k) { Scope f; f.fn = true; f.name = "f" + std::to_string(k); f.b = at; f.e = f.b + g.range(0, (int64_t)L); at = f.e; genScopes(g, w, f, 2, mkVar); w.fns.push_back(f); }
    return w;
}
struct Parsed { std::optional<dbg::DebuggingInfo> info; std::string err; };
Parsed parse(const std::string& t) { Parsed p; std::istringstream is(t); try { dbg::Parser ps(is); p.info = ps.Parse(); } catch (const ParserError& e) { p.err = e.what(); } return p; }
void compare(Ctx& c, const dbg::DebuggingInfo& got, const Info& w) {
    if (got.line_mapping.has_value() != w.lines.has_value()) c.fail("lines-present", "line mapping " + std::string(got.line_mapping ? "read but absent" : "not read"));
    if (w.lines && *got.line_mapping != *w.lines) c.fail("lines", "the line mapping is read wrongly");
    if (got.top_die.has_value() != w.top.has_value()) c.fail("info-present", "debugging information " + std::string(got.top_die ? "read but absent" : "not read"));
    if (w.top) { auto d = differs(*got.top_die, *w.top); if (!d.empty()) c.fail("info", d); }
    if (got.source_code.has_value() != w.src.has_value()) c.fail("source-present", "source " + std::string(got.source_code ? "read but absent" : "not read"));
    if (w.src && got.source_code->GetLines() != *w.src) c.fail("source", "the source lines are read wrongly");
    c.eval();
}
// whatever was read can be used: only DebuggerError
void use(Ctx& c, dbg::DebuggingInfo info, Debuggee& d) {
    Rng& g = c.rng; Source src; auto map = info.line_mapping;
    if (info.line_mapping) src.RegisterLineMapping(LineMapping(*info.line_mapping));
    if (info.source_code) src.RegisterSourceFile(*info.source_code);
    if (info.top_die) src.RegisterDebuggingInformation(*info.top_die);
    auto soft = [&](auto fn) { try { fn(); c.count("uses"); } catch (const DebuggerError&) { c.count("uses-refused"); } };
    std::vector<uint64_t> at = {0, d.textLen - 1, g.below(d.textLen), g.below(d.textLen), (uint64_t)INT64_MAX};
    for (auto a : at) {
        soft([&] { src.AddrToLine(a); src.LineToAddr(a); src.GetLine(a); src.GetLinesRange(a, 3); });
        soft([&] { if (auto f = src.GetFunctionNameByAddress(a)) src.GetFunctionAddrByName(*f); });
        std::set<std::string> vars; soft([&] { vars = src.GetScopedVariables(a); });
        if (a >= d.textLen) continue;
        d.ip(a);
        for (auto& v : vars) {
            soft([&] { src.GetVariableLocation(*d.nat, v); });
            soft([&] { if (auto t = src.GetVariableTypeInformation(*d.nat, v)) src.TypeToString(*t); });
            for (auto e : {v, "*" + v, v + "[0]", v + "." + "a", v + "->x", v + "+1"}) soft([&] { auto r = src.EvaluateExpression(*d.nat, e, g.chance(1, 3)); src.TypedValueToString(*d.nat, r.first); src.TypedValueTypeToString(r.first); });
        }
    }
    for (size_t id = 0; id < 45; ++id) soft([&] { if (auto t = src.GetType(id)) { src.TypeToString(*t); src.GetTypeSize(id); } });
}
void good(Ctx& c) {
    Rng& g = c.rng; bool real = g.chance(1, 2); vm::Cfg cfg = vm::randomCfg(g); World w; if (real) w = anyWorld(c, cfg, 20);
    InfoGen ig(g); std::string t = ig.make(real ? &w : nullptr); c.detail = t + "\n----\n" + show(ig.info);
    // the reference reader has to agree with what was generated
    try { Read r(t); Info i = r.whole(); if (show(i) != show(ig.info)) throw std::logic_error("reference reader reads something else:\n" + show(i)); } catch (BadInfo& b) { throw std::logic_error("reference reader refuses: " + b.why); } catch (EOpen&) { throw Discard{}; }
    auto p = parse(t); if (!p.info) c.fail("refused", "well-formed sections are refused: " + p.err);
    compare(c, *p.info, ig.info); c.count("sections-read"); c.feature(std::hash<std::string>{}(show(ig.info)));
    if (real && g.chance(1, 4)) { Debuggee d(c, 16); c.detail = t; d.push(); use(c, *p.info, d); d.finish(); }
}
void bad(Ctx& c) {
    Rng& g = c.rng; bool real = g.chance(2, 3); vm::Cfg cfg = vm::randomCfg(g); World w; if (real) w = anyWorld(c, cfg, 16);
    InfoGen ig(g); std::string t = ig.make(real ? &w : nullptr); if (!g.chance(1, 10)) t = ig.mutate(t); if (g.chance(1, 60)) { size_t n = g.range(10, 200); t = ".debug_info\nDIE_compilation_unit: {"; for (size_t k = 0; k < n; ++k) t += "DIE_scope: {"; t += std::string(n + (g.chance(1, 2) ? 1 : 0), '}'); }
    c.detail = t;
    enum { Good, Bad, Open } v; Info want; std::string why;
    try { Read r(t); want = r.whole(); v = r.odd ? Open : Good; } catch (BadInfo& b) { v = Bad; why = b.why; } catch (EOpen&) { v = Open; }
    auto p = parse(t);
    if (v == Good) { if (!p.info) c.fail("refused", "well-formed sections are refused: " + p.err); compare(c, *p.info, want); c.count("mutated-well-formed"); }
    else if (v == Bad) { if (p.info) c.fail("accepted", "malformed sections are accepted (" + why + ")"); c.count("mutated-refused"); c.count("refused-" + why); c.eval(); }
    else c.count(p.info ? "not-judged-read" : "not-judged-refused");
    c.feature(std::hash<std::string>{}(t));
    if (p.info && p.info->top_die && g.chance(1, 3)) { Debuggee d(c, 16); c.detail = t; d.push(); use(c, *p.info, d); d.finish(); }
}
}
std::vector<ModeDef> infoModes() { return {{"info-good", good}, {"info-bad", bad}}; }
