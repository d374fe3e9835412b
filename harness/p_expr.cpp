// C18: the expression evaluator against a reference lexer, parser and evaluator of C expressions.
#include "srcenv.h"
#include "srcmodes.h"
using namespace se;

namespace {
struct Bad { std::string why; };  // not an expression
struct Tok { enum K { Num, Flt, Id, Op, End } k = End; std::string s; int64_t i = 0; double f = 0; };

std::vector<Tok> lex(const std::string& t) {
    static const std::vector<std::string> ops = {"<<=", ">>=", "...", "->", "++", "--", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||",
        "+", "-", "*", "/", "%", "<", ">", "=", "!", "&", "|", "^", "(", ")", "[", "]", ".", "$"};
    static const std::set<std::string> foreign = {"<<=", ">>=", "++", "--", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "..."};
    static const std::set<std::string> keywords = {"sizeof", "int", "char", "float", "double", "long", "short", "unsigned", "signed", "struct", "void", "const", "union", "enum", "if", "return", "_Alignof", "volatile"};
    std::vector<Tok> r; size_t p = 0; bool open = false; std::string why;
    while (p < t.size()) {
        unsigned char c = t[p];
        if (c < 128 && isspace(c)) { ++p; continue; }
        if (c < 128 && isdigit(c)) {
            size_t q = p; int dots = 0; while (q < t.size() && (isdigit((unsigned char)t[q]) || t[q] == '.')) dots += t[q++] == '.';
            std::string s = t.substr(p, q - p); if (q < t.size() && ((unsigned char)t[q] < 128) && (isalpha((unsigned char)t[q]) || t[q] == '_')) { open = true; why = "number with a suffix"; }
            p = q; Tok k;
            if (dots > 1) throw Bad{"malformed number"};
            k.s = s;
            if (dots) { k.k = Tok::Flt; k.f = strtod(s.c_str(), nullptr); if (!std::isfinite(k.f) || (k.f != 0 && std::fabs(k.f) < 2.3e-308)) { open = true; why = "float out of range"; } }
            else { if (s.size() > 1 && s[0] == '0') { open = true; why = "octal"; } std::string z = s; while (z.size() > 1 && z[0] == '0') z.erase(0, 1); if (z.size() > 19 || (z.size() == 19 && z > "9223372036854775807")) throw Bad{"integer out of range"}; k.k = Tok::Num; k.i = std::stoll(z); }
            r.push_back(k); continue;
        }
        if (c < 128 && (isalpha(c) || c == '_')) { size_t q = p; while (q < t.size() && (unsigned char)t[q] < 128 && (isalnum((unsigned char)t[q]) || t[q] == '_')) ++q; Tok k; k.k = Tok::Id; k.s = t.substr(p, q - p); if (keywords.count(k.s)) { open = true; why = "keyword"; } r.push_back(k); p = q; continue; }
        if (std::string("#\"'~?,").find((char)c) != std::string::npos) throw EOpen{"C beyond the expressions supported"};
        bool found = false;
        for (auto& o : ops) if (t.compare(p, o.size(), o) == 0) { if (foreign.count(o)) throw EOpen{"operator " + o}; Tok k; k.k = Tok::Op; k.s = o; r.push_back(k); p += o.size(); found = true; break; }
        if (!found) throw Bad{"character"};
    }
    if (open) throw EOpen{why};
    r.push_back({}); return r;
}

struct Node { enum K { Num, Flt, Id, Cached, Un, Bin, Index, Dot, Arrow, Assign } k; std::string s; int64_t i = 0; double f = 0; std::vector<Node> ch; };
struct Parse {
    std::vector<Tok> t; size_t p = 0; int depth = 0;
    bool op(const char* s) { return t[p].k == Tok::Op && t[p].s == s; }
    static int prec(const std::string& o) {
        static const std::map<std::string, int> m = {{"||", 1}, {"&&", 2}, {"|", 3}, {"^", 4}, {"&", 5}, {"==", 6}, {"!=", 6}, {"<", 7}, {">", 7}, {"<=", 7}, {">=", 7}, {"<<", 8}, {">>", 8}, {"+", 9}, {"-", 9}, {"*", 10}, {"/", 10}, {"%", 10}};
        auto it = m.find(o); return it == m.end() ? 0 : it->second;
    }
    Node whole() { Node n = assign(); if (t[p].k != Tok::End) throw Bad{"text after the expression"}; return n; }
    Node assign() { Node l = binary(1); if (!op("=")) return l; ++p; Node r = assign(); return {Node::Assign, "=", 0, 0, {l, r}}; }
    Node binary(int lo) { Node l = unary(); while (t[p].k == Tok::Op && prec(t[p].s) >= lo) { std::string o = t[p].s; int q = prec(o); ++p; Node r = binary(q + 1); l = Node{Node::Bin, o, 0, 0, {l, r}}; } return l; }
    Node unary() {
        if (op("+") || op("&") || op("&&")) throw EOpen{"unary operator"};
        if (op("-") || op("!") || op("*")) { std::string o = t[p++].s; Node x = unary(); return {Node::Un, o, 0, 0, {x}}; }
        return postfix();
    }
    Node postfix() {
        bool paren = op("("); Node n = primary();
        if (paren && n.k == Node::Id && t[p - 2].k == Tok::Id && t[p - 3].k == Tok::Op && t[p - 3].s == "(" && (t[p].k == Tok::Id || t[p].k == Tok::Num || t[p].k == Tok::Flt || op("(") || op("!"))) throw EOpen{"cast"};
        while (true) {
            if (op("[")) { ++p; Node i = assign(); if (!op("]")) throw Bad{"]"}; ++p; n = Node{Node::Index, "", 0, 0, {n, i}}; }
            else if (op(".") || op("->")) { bool dot = op("."); ++p; if (t[p].k != Tok::Id) throw Bad{"member"}; n = Node{dot ? Node::Dot : Node::Arrow, t[p++].s, 0, 0, {n}}; }
            else if (op("(")) throw EOpen{"call"};
            else return n;
        }
    }
    Node primary() {
        Tok& x = t[p];
        if (x.k == Tok::Num) { ++p; return {Node::Num, x.s, x.i}; }
        if (x.k == Tok::Flt) { ++p; return {Node::Flt, x.s, 0, x.f}; }
        if (x.k == Tok::Id) { ++p; return {Node::Id, x.s}; }
        if (op("(")) { ++p; Node n = assign(); if (!op(")")) throw Bad{")"}; ++p; return n; }
        if (op("$")) { ++p; if (t[p].k != Tok::Num) throw Bad{"$"}; return {Node::Cached, "", t[p++].i}; }
        if (op(".") && t[p + 1].k == Tok::Num) throw EOpen{"float without integral part"};
        throw Bad{"operand"};
    }
};
bool hasAssign(const Node& n) { if (n.k == Node::Assign) return true; for (auto& x : n.ch) if (hasAssign(x)) return true; return false; }

bool eq(const Val& a, const Val& b) {
    if (a.k != b.k) return false;
    switch (a.k) { case Ty::Float: return sameFloat(a.f, b.f); case Ty::Struct: if (a.name != b.name || a.mem.size() != b.mem.size()) return false; for (auto& [n, x] : a.mem) { auto it = b.mem.find(n); if (it == b.mem.end() || !eq(x, it->second)) return false; } return true;
        case Ty::Arr: if (a.arr.size() != b.arr.size() || a.i != b.i || a.to != b.to) return false; for (size_t k = 0; k < a.arr.size(); ++k) if (!eq(a.arr[k], b.arr[k])) return false; return true;
        case Ty::Ptr: return a.i == b.i && a.to == b.to; default: return a.i == b.i; }
}
struct V : Val { bool odd = false; V() = default; V(Val v, bool odd = false) : Val(std::move(v)), odd(odd) {} };

struct Eval {
    const World& w; St s; const std::vector<std::optional<Val>>& cache; int ord; bool may = false; std::vector<St> snaps; std::set<int64_t> padding; uint64_t shape = 0;
    Eval(const World& w, const St& s, const std::vector<std::optional<Val>>& c, int ord) : w(w), s(s), cache(c), ord(ord) { snaps.push_back(s); }
    static V I(int64_t i) { V v; v.k = Ty::Int; v.i = i; return v; }
    static V F(double f) { V v; v.k = Ty::Float; v.f = f; return v; }
    static V P(size_t to, int64_t a) { V v; v.k = Ty::Ptr; v.to = to; v.i = a; return v; }
    static bool num(const Val& v) { return v.k == Ty::Int || v.k == Ty::Float || v.k == Ty::Char; }
    static bool integral(const Val& v) { return v.k == Ty::Int || v.k == Ty::Char; }
    static double toF(const Val& v) { return v.k == Ty::Float ? v.f : (double)v.i; }
    V at(const Loc& l, size_t id) {
        auto t = w.ty(id); if (!t) throw EErr{"unknown type", true};
        try { return V(w.value(l, id, s)); } catch (EErr& e) { if (t->k == Ty::Struct || t->k == Ty::Arr) throw EOpen{"container which cannot be read"}; throw; }
    }
    V deref(const V& p) { if (p.k == Ty::Arr) throw EOpen{"decay"}; if (p.k != Ty::Ptr) throw EErr{"dereference of no pointer", true}; return at({false, "", p.i}, p.to); }
    V member(const V& b, const std::string& n) { if (b.k != Ty::Struct) throw EErr{"member of no structure", true}; auto it = b.mem.find(n); if (it == b.mem.end()) throw EErr{"no member", true}; return V(it->second, b.odd); }
    bool truth(const V& v) { if (v.k == Ty::Struct) throw EErr{"structure as condition", true}; if (v.k == Ty::Arr) throw EOpen{"decay"}; return v.k == Ty::Float ? v.f != 0 : v.i != 0; }
    void both(int bit, const Node& a, const Node& b, V& x, V& y) { if (!(ord & bit)) // operands are evaluated in any order
         { x = ev(a); y = ev(b); } else { y = ev(b); x = ev(a); } }
    static int64_t addw(int64_t a, int64_t b) { return (int64_t)((uint64_t)a + (uint64_t)b); }
    static int64_t mulw(int64_t a, int64_t b) { return (int64_t)((uint64_t)a * (uint64_t)b); }
    bool cmp(const std::string& o, auto a, auto b) { return o == "==" ? a == b : o == "!=" ? a != b : o == "<" ? a < b : o == ">" ? a > b : o == "<=" ? a <= b : a >= b; }
    [[noreturn]] void pointees(size_t a, size_t b) { auto x = w.ty(a), y = w.ty(b); if (x && y && (x->k == y->k) && (x->k == Ty::Ptr || x->k == Ty::Arr)) throw EOpen{"perhaps the same type"}; throw EErr{"different pointers", true}; }
    V bin(const std::string& o, const V& a, const V& b) {
        shape = Rng::mix(shape * 31 + std::hash<std::string>{}(o) + a.k * 7 + b.k);
        bool cmpOp = o == "==" || o == "!=" || o == "<" || o == ">" || o == "<=" || o == ">=", bit = o == "&" || o == "|" || o == "^" || o == "<<" || o == ">>" || o == "%";
        if (a.k == Ty::Struct || b.k == Ty::Struct) throw EErr{"operand is a structure", true};
        if (bit && !(integral(a) && integral(b))) throw EErr{"bit operation", true};
        if (a.k == Ty::Arr || b.k == Ty::Arr) { if (o == "*" || o == "/") throw EErr{"array operand", true}; throw EOpen{"decay"}; }
        if (num(a) && num(b)) {
            if (a.k != b.k) may = true;
            if (a.k == Ty::Float || b.k == Ty::Float) {
                double x = toF(a), y = toF(b);
                if (cmpOp) return I(cmp(o, x, y));
                if (o == "/" && y == 0) may = true;
                return F(o == "+" ? x + y : o == "-" ? x - y : o == "*" ? x * y : x / y);
            }
            int64_t x = a.i, y = b.i;
            if (cmpOp) return I(cmp(o, x, y));
            if (a.k == Ty::Char && b.k == Ty::Char && o == "-") may = true;
            if (o == "+") return I(addw(x, y));
            if (o == "-") return I((int64_t)((uint64_t)x - (uint64_t)y));
            if (o == "*") return I(mulw(x, y));
            if (o == "/" || o == "%") { if (!y) throw EErr{"division by zero"}; if (y == -1 && x == INT64_MIN) throw EErr{"division overflow"}; return I(o == "/" ? x / y : x % y); }
            if (o == "&") return I(x & y); if (o == "|") return I(x | y); if (o == "^") return I(x ^ y);
            if (y < 0 || y > 63) throw EErr{"shift amount"};
            return I(o == "<<" ? (int64_t)((uint64_t)x << y) : x >> y);
        }
        if (a.k == Ty::Ptr && b.k == Ty::Ptr) {
            if (cmpOp) { if (a.to != b.to) throw EOpen{"comparison of different pointers"}; return I(cmp(o, (uint64_t)a.i, (uint64_t)b.i)); }
            if (o == "-") { if (a.to != b.to) pointees(a.to, b.to); int64_t sz = (int64_t)w.size(a.to), d = (int64_t)((uint64_t)a.i - (uint64_t)b.i); if (!sz || d % sz) throw EOpen{"difference between no elements"}; return I(d / sz); }
            throw EErr{"pointers", true};
        }
        const V& p = a.k == Ty::Ptr ? a : b; const V& n = a.k == Ty::Ptr ? b : a;
        if (cmpOp) { if (n.k == Ty::Float) throw EErr{"pointer and float", true}; throw EOpen{"pointer and integer"}; }
        if (!integral(n)) throw EErr{"pointer and float", true};
        if (o == "+" || (o == "-" && a.k == Ty::Ptr)) { if (n.k == Ty::Char) may = true; int64_t d = mulw(n.i, (int64_t)w.size(p.to)); return P(p.to, o == "+" ? addw(p.i, d) : (int64_t)((uint64_t)p.i - (uint64_t)d)); }
        throw EErr{"pointer operation", true};
    }
    void cells(const Val& v, std::set<int64_t>& leaf, std::set<int64_t>& all) { // memory of a located value
        if (v.k == Ty::Struct) { for (uint64_t k = 0; k < v.n; ++k) all.insert(v.loc->v + (int64_t)k); for (auto& [n, x] : v.mem) cells(x, leaf, all); }
        else if (v.k == Ty::Arr) for (auto& x : v.arr) cells(x, leaf, all);
        else { leaf.insert(v.loc->v); all.insert(v.loc->v); }
    }
    int64_t bits(const Val& v) { return v.k == Ty::Float ? (int64_t)bitsOf(v.f) : v.i; }
    void put(const Loc& l, int64_t x) { if (l.reg) { World::reg(s, l.name); s.regs[l.name] = x; } else { World::cell(s, l.v); s.mem[l.v] = x; } }
    Val store(const Val& to, const Val& from) { // structures of the same type
        Val r = to;
        if (to.k == Ty::Struct) { for (auto& [n, x] : r.mem) x = store(x, from.mem.at(n)); }
        else if (to.k == Ty::Arr) { for (size_t k = 0; k < r.arr.size(); ++k) r.arr[k] = store(r.arr[k], from.arr[k]); }
        else { put(*to.loc, bits(from)); r.i = from.i; r.f = from.f; }
        return r;
    }
    void aggregate(const V& l, const V& r, V& res) { // of the same type, member by member
        std::set<int64_t> la, aa, lb, ab; cells(l, la, aa); if (r.loc && !r.odd) { cells(r, lb, ab); bool over = false; for (auto x : aa) over |= ab.count(x); if (over && l.loc->v != r.loc->v) throw EOpen{"overlap"}; }
        for (auto x : aa) if (!la.count(x)) padding.insert(x);
        static_cast<Val&>(res) = store(l, r);
    }
    V assign(const V& l, const V& r) {
        shape = Rng::mix(shape * 31 + l.k * 7 + r.k + 1000);
        if (!l.loc) throw EErr{"no lvalue", true};
        if (l.odd) throw EOpen{"assignment to a value"};
        V res = l; res.odd = true;
        if (num(l) && num(r)) {
            if (l.k != r.k) may = true;
            if (l.k == Ty::Float) res.f = toF(r);
            else { int64_t x; if (r.k == Ty::Float) { if (!(std::fabs(r.f) < 9e18)) throw EOpen{"conversion"}; x = (int64_t)r.f; if (l.k == Ty::Char && (x < -128 || x > 127)) throw EOpen{"conversion"}; } else x = r.i; res.i = l.k == Ty::Char ? (signed char)x : x; }
            put(*l.loc, bits(res));
        } else if (l.k == Ty::Ptr && r.k == Ty::Ptr) { if (l.to != r.to) pointees(l.to, r.to); res.i = r.i; put(*l.loc, r.i); }
        else if (l.k == Ty::Struct && r.k == Ty::Struct) {
            if (l.name != r.name) throw EErr{"different structures", true};
            aggregate(l, r, res);
        }
        else if (l.k == Ty::Arr && r.k == Ty::Arr && l.to == r.to && l.arr.size() == r.arr.size() && w.ty(l.to)) { may = true; aggregate(l, r, res); }
        else if (l.k == Ty::Arr || r.k == Ty::Arr) throw EOpen{"array assignment"};
        else if ((l.k == Ty::Ptr && integral(r)) || (r.k == Ty::Ptr && integral(l))) throw EOpen{"pointer and integer"};
        else throw EErr{"types of the assignment", true};
        snaps.push_back(s); return res;
    }
    V ev(const Node& n) {
        shape = Rng::mix(shape * 31 + n.k);
        switch (n.k) {
            case Node::Num: return I(n.i);
            case Node::Flt: return F(n.f);
            case Node::Id: {
                auto vis = w.visible((uint64_t)s.regs.at("IP")); auto it = vis.find(n.s); if (it == vis.end()) throw EErr{"no variable " + n.s, true};
                const Var& v = *it->second; if (!v.type || !v.loc || v.loc->empty()) throw EErr{"incomplete variable", true};
                if (!w.ty(*v.type)) throw EErr{"unknown type", true};
                return at(w.location(*v.loc, s), *v.type); }
            case Node::Cached: { if (n.i >= (int64_t)cache.size()) throw EErr{"no such value", true}; if (!cache[n.i]) throw EOpen{"value not known"}; return V(*cache[n.i], true); }
            case Node::Un: {
                V x = ev(n.ch[0]);
                if (n.s == "*") return deref(x);
                if (n.s == "!") { if (x.k == Ty::Ptr) may = true; return I(!truth(x)); }
                if (!num(x)) throw EErr{"negation", true};
                return x.k == Ty::Float ? F(-x.f) : I((int64_t)(0 - (uint64_t)x.i)); }
            case Node::Dot: return member(ev(n.ch[0]), n.s);
            case Node::Arrow: return member(deref(ev(n.ch[0])), n.s);
            case Node::Index: {
                V a, i; both(1, n.ch[0], n.ch[1], a, i);
                if (a.k == Ty::Ptr) { if (!integral(i)) throw EErr{"index", true}; if (i.k == Ty::Char) may = true; return deref(P(a.to, addw(a.i, mulw(i.i, (int64_t)w.size(a.to))))); }
                if (a.k == Ty::Arr) { if (!integral(i)) throw EErr{"index", true}; if (i.k == Ty::Char) may = true; if (i.i < 0 || i.i >= (int64_t)a.arr.size()) throw EErr{"index out of range"}; return V(a.arr[i.i], a.odd); }
                if (integral(a) && (i.k == Ty::Ptr || i.k == Ty::Arr)) throw EOpen{"index[pointer]"};
                throw EErr{"indexing", true}; }
            case Node::Assign: { V l, r; both(2, n.ch[0], n.ch[1], l, r); return assign(l, r); }
            case Node::Bin:
                if (n.s == "&&" || n.s == "||") {
                    bool l = truth(ev(n.ch[0])), dec = l == (n.s == "&&");
                    if (dec) return I(truth(ev(n.ch[1])));
                    try { Eval e(w, s, cache, ord); e.truth(e.ev(n.ch[1])); } catch (EErr& e) { if (e.type) may = true; } catch (EOpen&) { may = true; }
                    return I(l);
                }
                V l, r; both(4, n.ch[0], n.ch[1], l, r); return bin(n.s, l, r);
        }
        throw EOpen{"?"};
    }
};
struct Outcome { enum K { Value, Error, Open } k = Open; std::string why; bool may = false, mut = false; Val v; St s; std::vector<St> snaps; std::set<int64_t> padding; uint64_t shape = 0; };
Outcome judge(const World& w, const St& s, const std::vector<std::optional<Val>>& cache, const std::string& text) {
    Outcome o; o.s = s; o.snaps = {s};
    Node n;
    try { Parse p; p.t = lex(text); n = p.whole(); } catch (Bad& b) { o.k = Outcome::Error; o.why = "syntax: " + b.why; return o; } catch (EOpen& e) { o.why = e.why; o.mut = text.find('=') != std::string::npos; return o; }
    o.mut = hasAssign(n);
    auto once = [&](int ord) {
        Outcome r; Eval e(w, s, cache, ord); r.s = s;
        try { r.v = e.ev(n); r.k = Outcome::Value; } catch (EErr& x) { r.k = Outcome::Error; r.why = x.why; } catch (EOpen& x) { r.k = Outcome::Open; r.why = x.why; }
        r.may = e.may; r.s = e.s; r.snaps = e.snaps; r.padding = e.padding; r.shape = e.shape; return r;
    };
    Outcome a = once(0);
    if (!o.mut) {
        // without side effects the order matters only for which error is met
        if (a.k == Outcome::Error) { Outcome b = once(7); if (b.k == Outcome::Open) { b.mut = false; return b; } }
        return a; }
    a.mut = true; if (a.k == Outcome::Open) return a;
    for (int ord = 1; ord < 8; ++ord) {
    Outcome b = once(ord); b.mut = true; if (b.k == Outcome::Open) return b;
    for (auto& x : b.snaps) a.snaps.push_back(x); for (auto x : b.padding) a.padding.insert(x);
    if (a.k != b.k) { a.k = Outcome::Open; a.why = "order"; return a; }
    if (a.k == Outcome::Value && (!eq(a.v, b.v) || !(a.s == b.s))) { a.k = Outcome::Open; a.why = "order"; return a; }
    a.may |= b.may;
    }
    return a;
}

// ---- generation ------------------------------------------------------------------------------
struct Gen {
    Rng& g; const World& w; const St& s; const std::vector<std::optional<Val>>& cache; std::map<int, std::vector<std::pair<std::string, size_t>>> paths; // kind -> (text, type)
    Gen(Rng& g, const World& w, const St& s, const std::vector<std::optional<Val>>& cache) : g(g), w(w), s(s), cache(cache) {
        for (auto& [n, v] : w.visible((uint64_t)s.regs.at("IP"))) if (v->type && v->loc) path(n, *v->type, 3);
    }
    void path(const std::string& t, size_t id, int depth) {
        auto ty = w.ty(id); if (!ty) return;
        auto o = judge(w, s, cache, t); if (o.k != Outcome::Value && !g.chance(1, 12)) return;
        auto& p = paths[ty->k]; if (p.size() < 24) p.push_back({t, id}); else if (g.chance(1, 2)) p[g.below(24)] = {t, id};
        if (!depth) return;
        if (ty->k == Ty::Struct) for (auto& m : ty->mem) path(t + "." + m.name, m.to, depth - 1);
        if (ty->k == Ty::Arr && ty->n) { path(t + "[" + std::to_string(g.below(ty->n)) + "]", ty->to, depth - 1); }
        if (ty->k == Ty::Ptr) { auto to = w.ty(ty->to); if (!to) return; if (to->k == Ty::Struct) for (auto& m : to->mem) { if (g.chance(1, 2)) path(t + "->" + m.name, m.to, depth - 1); } else if (g.chance(1, 2)) path(t + "[" + std::to_string(g.below(3)) + "]", ty->to, depth - 1); path((g.chance(1, 2) ? "(*" : "(* ") + t + ")", ty->to, depth - 1); }
    }
    struct T { std::string s; int p; };
    std::string sp() { return g.chance(1, 6) ? (g.chance(1, 5) ? "\t " : " ") : ""; }
    std::string wrap(const T& t, int need) { return t.p < need || g.chance(1, 10) ? "(" + sp() + t.s + sp() + ")" : t.s; }
    T binop(const std::string& o, const T& a, const T& b) { int p = Parse::prec(o); std::string l = wrap(a, p), r = wrap(b, p + 1); bool tight = g.chance(1, 3) && !(o == "-" && r[0] == '-') && !(o == "-" && r[0] == '>') && !(o == "&" && r[0] == '&') && !(o == "<" && r[0] == '<'); return {tight ? l + o + r : l + " " + o + " " + r, p}; }
    T un(const std::string& o, const T& a) { std::string r = wrap(a, 11); return {o + (o == "-" && r[0] == '-' ? " " : sp()) + r, 11}; }
    std::optional<T> anyPath(int k, size_t* id = nullptr, std::optional<size_t> want = {}) {
        auto it = paths.find(k); if (it == paths.end()) return {};
        for (int q = 0; q < 6; ++q) { auto& x = g.pick(it->second); if (want && x.second != *want) continue; if (id) *id = x.second; return T{x.first, x.first[0] == '*' ? 11 : 12}; }
        return {};
    }
    T lit() { if (g.chance(1, 40)) return g.chance(1, 2) ? T{"(-9223372036854775807 - 1)", 13} : T{"(-1)", 13}; int64_t v; do v = g.chance(4, 5) ? g.range(0, 20) : g.value(); while (v < 0); return {std::to_string(v), 13}; }
    T flit() { return {g.pick<std::string>({"0.0", "1.5", "2.", "0.25", "100.125", "3.0", "123456789.5", "0.1", std::to_string(g.range(0, 50)) + "." + std::to_string(g.below(100))}), 13}; }
    T cached(int k) { if (g.chance(1, 12)) return {"$" + std::to_string(cache.size() + g.below(2)), 13}; for (int q = 0; q < 4 && !cache.empty(); ++q) { size_t n = g.below(cache.size()); if (cache[n] && cache[n]->k == k) return {"$" + std::to_string(n), 13}; } return k == Ty::Float ? flit() : lit(); }
    T ofInt(int d) {
        if (d <= 0) { if (g.chance(1, 2)) if (auto p = anyPath(Ty::Int)) return *p; return g.chance(1, 8) ? cached(Ty::Int) : lit(); }
        switch (g.below(16)) {
            case 0: case 1: case 2: case 3: return binop(g.pick<const char*>({"+", "-", "*", "/", "%", "+", "-"}), ofInt(d - 1), ofInt(d - 1));
            case 4: case 5: return binop(g.pick<const char*>({"&", "|", "^"}), ofInt(d - 1), ofInt(d - 1));
            case 6: return binop(g.pick<const char*>({"<<", ">>"}), ofInt(d - 1), g.chance(3, 4) ? T{std::to_string(g.below(70)), 13} : ofInt(d - 1));
            case 7: return binop(cmp(), ofInt(d - 1), ofInt(d - 1));
            case 8: return binop(cmp(), ofFloat(d - 1), ofFloat(d - 1));
            case 9: return binop(g.pick<const char*>({"&&", "||"}), ofAny(d - 1), ofAny(d - 1));
            case 10: return un("-", g.chance(1, 4) ? ofChar(d - 1) : ofInt(d - 1));
            case 11: return un("!", g.chance(1, 3) ? ofFloat(d - 1) : ofInt(d - 1));
            case 12: return binop(g.pick<const char*>({"+", "*", "/", "%", "&", "|", "^", "<<", "==", "<", "-", ">="}), ofChar(d - 1), ofChar(d - 1));
            case 13: { size_t id; if (auto p = anyPath(Ty::Ptr, &id)) { if (auto q = ptr(d - 1, id)) return binop(g.pick<const char*>({"-", "==", "<", "!=", ">="}), *p, *q); } return ofInt(0); }
            case 14: { if (auto p = anyPath(Ty::Int)) return {p->s + sp() + "=" + sp() + wrap(ofInt(d - 1), 0), 0}; return ofInt(0); }
            default: return g.chance(1, 3) ? elem(d, Ty::Int) : ofInt(0);
        }
    }
    std::string cmp() { return g.pick<const char*>({"==", "!=", "<", ">", "<=", ">="}); }
    T elem(int d, int k) { // indexing with an expression
        for (int kk : {Ty::Arr, Ty::Ptr}) for (int q = 0; q < 4; ++q) { size_t id; auto p = anyPath(kk, &id); if (!p) break; auto to = w.ty(w.ty(id)->to); if (!to || to->k != k) continue; if (kk == Ty::Ptr && g.chance(1, 3)) return un("*", binop(g.pick<const char*>({"+", "-"}), *p, ofInt(0))); return {wrap(*p, 12) + "[" + sp() + ofInt(d - 1).s + "]", 12}; }
        return k == Ty::Float ? flit() : ofInt(0);
    }
    T ofFloat(int d) {
        if (d <= 0) { if (g.chance(1, 2)) if (auto p = anyPath(Ty::Float)) return *p; return g.chance(1, 8) ? cached(Ty::Float) : flit(); }
        switch (g.below(7)) { case 0: case 1: case 2: return binop(g.pick<const char*>({"+", "-", "*", "/"}), ofFloat(d - 1), ofFloat(d - 1)); case 3: return un("-", ofFloat(d - 1)); case 4: if (auto p = anyPath(Ty::Float)) return {p->s + " = " + wrap(ofFloat(d - 1), 0), 0}; [[fallthrough]]; case 5: return elem(d, Ty::Float); default: return ofFloat(0); }
    }
    T ofChar(int d) { if (d > 0 && g.chance(1, 6)) { auto p = anyPath(Ty::Char); auto q = anyPath(Ty::Char); if (p && q) return {p->s + " = " + q->s, 0}; } if (auto p = anyPath(Ty::Char)) return *p; return ofInt(0); }
    std::optional<T> ptr(int d, size_t id) {
        if (d > 0 && g.chance(1, 2)) if (auto p = anyPath(Ty::Ptr, nullptr, id)) return g.chance(1, 4) ? binop("+", ofInt(0), *p) : binop(g.pick<const char*>({"+", "-"}), *p, ofInt(0));
        return anyPath(Ty::Ptr, nullptr, id);
    }
    T ofPtr(int d) { size_t id; if (auto p = anyPath(Ty::Ptr, &id)) { if (d > 0 && g.chance(1, 3)) return {p->s + " = " + wrap(ptr(d, id).value_or(*p), 0), 0}; return ptr(d, id).value_or(*p); } return ofInt(d); }
    T ofStruct(int d) { size_t id;
        if (g.chance(1, 3)) if (auto p = anyPath(Ty::Arr, &id)) if (auto q = anyPath(Ty::Arr, nullptr, id)) { T a{p->s + " = " + q->s, 0}; uint64_t n = w.ty(id)->n; return n && g.chance(1, 2) ? T{"(" + a.s + ")[" + std::to_string(g.below(n + (g.chance(1, 6)))) + "]", 12} : a; }
        if (auto p = anyPath(Ty::Struct, &id)) { if (d > 0 && g.chance(1, 2)) if (auto q = anyPath(Ty::Struct, nullptr, id)) return {p->s + " = " + q->s, 0}; return *p; } return ofInt(d); }
    T ofAny(int d) { switch (g.below(8)) { case 0: case 1: case 2: return ofInt(d); case 3: case 4: return ofFloat(d); case 5: return ofChar(d); default: return ofPtr(d); } }
    T wild(int d) { // without regard to types
        if (d <= 0) { if (g.chance(2, 3)) { int k = g.pick({(int)Ty::Int, (int)Ty::Float, (int)Ty::Char, (int)Ty::Ptr, (int)Ty::Struct, (int)Ty::Arr}); if (auto p = anyPath(k)) return *p; } return g.chance(1, 2) ? lit() : flit(); }
        switch (g.below(7)) { case 0: return un(g.pick<const char*>({"-", "!", "*"}), wild(d - 1)); case 1: return {wrap(wild(d - 1), 12) + "[" + wild(d - 1).s + "]", 12}; case 2: return {wrap(wild(d - 1), 12) + g.pick<const char*>({".", "->"}) + g.pick<const char*>({"a", "b", "c", "nosuch"}), 12}; case 3: return {wrap(wild(d - 1), 1) + " = " + wild(d - 1).s, 0};
            default: return binop(g.pick<const char*>({"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", ">", "<=", ">=", "&&", "||"}), wild(d - 1), wild(d - 1)); }
    }
    std::string soup() {
        std::string r; size_t n = g.range(0, 12);
        for (size_t k = 0; k < n; ++k) r += g.pick<std::string>({"+", "-", "*", "/", "%", "(", ")", "[", "]", ".", "->", "=", "==", "!", "!=", "<", "<<", ">=", "&", "&&", "|", "||", "^", "$", "1", "0", "2.5", "1.2.3", "a", "x", "p", "$0", "99999999999999999999", "$99999999999", " ", "\n", ";", ":", "{", "`", "@", "\\", "\x7f", "\xff", std::string(1, '\0'), "#", "'a'", "\"s\"", "~", "sizeof", "0x1f", "5e3", "_"});
        return r;
    }
    std::string mutate(std::string t) {
        size_t n = g.range(1, 2);
        for (size_t k = 0; k < n; ++k) {
            size_t p = g.below(t.size() + 1);
            switch (g.below(4)) { case 0: if (p < t.size()) t.erase(p, g.range(1, 3)); break; case 1: t.insert(p, soup().substr(0, 3)); break; case 2: if (p < t.size()) t[p] = g.pick<char>({'+', '-', '*', '(', ')', '[', ']', '.', '=', '!', '<', '5', 'a', ' ', '$', '&', '/'}); break; default: t = t.substr(0, p); }
        }
        return t;
    }
    std::string make() {
        int d = (int)g.range(0, 4);
        std::string t;
        switch (g.below(20)) { case 0: t = soup(); break; case 1: case 2: t = wild((int)g.range(1, 3)).s; break; case 3: case 4: t = ofStruct(d).s; break; case 5: case 6: t = ofPtr(d).s; break; case 7: t = ofChar(d).s; break; case 8: case 9: case 10: case 11: t = ofFloat(d).s; break; case 12: t = elem(d, g.pick({(int)Ty::Int, (int)Ty::Float, (int)Ty::Char, (int)Ty::Struct, (int)Ty::Ptr})).s; break; default: t = ofInt(d).s; }
        if (g.chance(1, 8)) t = mutate(t);
        if (g.chance(1, 400)) { size_t n = g.range(20, 150); t = g.chance(1, 2) ? std::string(n, '(') + t + std::string(g.chance(1, 2) ? n : n - 1, ')') : std::string(n, '!') + t; }
        return t;
    }
};

void exprs(Ctx& c) {
    Rng& g = c.rng; size_t L = g.range(3, 12); Debuggee d(c, L); World w; WorldOpt o; o.faulty = g.chance(1, 6);
    genTypes(g, w, o); std::vector<size_t> ids; for (auto& [id, t] : w.types) ids.push_back(id);
    std::set<std::string> allUsed; int64_t next = 0, M = (int64_t)d.cfg.mem; // storage is mostly disjoint
    auto mkVar = [&](std::set<std::string>& used) {
        Var v; do v.name = varName(g); while (!used.insert(v.name).second);
        v.type = g.chance(1, 40) ? 100001 : g.pick(ids); auto t = w.ty(*v.type); uint64_t sz = 1; try { sz = w.size(*v.type); } catch (EErr&) {}
        bool scalar = t && t->k != Ty::Struct && t->k != Ty::Arr;
        if (g.chance(1, 12)) v.loc = anyLoc(g, d.cfg, o.faulty && g.chance(1, 3));
        else if (scalar && g.chance(1, 4)) v.loc = {{LocIns::PushR, 0, "R" + std::to_string(g.below(d.cfg.regs))}};
        else {
            int64_t a = next; if (a + (int64_t)sz > M || g.chance(1, 8)) a = (int64_t)g.below(std::max<int64_t>(1, M - (int64_t)sz)); else next += (int64_t)sz;
            switch (g.below(3)) { case 0: v.loc = {{LocIns::PushI, a, ""}}; break; case 1: v.loc = {{LocIns::Bro, a - d.st.regs["BP"], ""}}; break; default: { std::string r = "R" + std::to_string(g.below(d.cfg.regs)); v.loc = g.chance(1, 2) ? std::vector<LocIns>{{LocIns::PushI, a, ""}} : std::vector<LocIns>{{LocIns::PushR, 0, r}, {LocIns::PushI, a - d.st.regs[r], ""}, {LocIns::Add, 0, ""}}; } }
        }
        for (auto& x : *v.loc) if (x.r == "IP") x.r = "R0";
        if (g.chance(1, 40)) v.loc.reset(); else if (g.chance(1, 40)) v.type.reset();
        return v;
    };
    std::set<std::string> used; size_t ng = g.range(1, 4); for (size_t k = 0; k < ng; ++k) w.globals.push_back(mkVar(used));
    Scope f; f.fn = true; f.name = "main"; f.b = 0; f.e = L; Scope b = f; b.fn = false; std::set<std::string> u2; size_t nl = g.range(2, 7); for (size_t k = 0; k < nl; ++k) b.vars.push_back(mkVar(u2)); f.subs.push_back(b); w.fns.push_back(f);
    // cells hold what their variables' types want
    std::function<void(const Val&)> fit = [&](const Val& v) {
        auto set = [&](int64_t x) { if (v.loc->reg) { if (d.st.regs.count(v.loc->name) && v.loc->name != "IP" && v.loc->name != "BP") d.st.regs[v.loc->name] = x; } else if (v.loc->v >= 0 && v.loc->v < M) d.st.mem[v.loc->v] = x; };
        switch (v.k) { case Ty::Float: set((int64_t)bitsOf(g.chance(1, 3) ? vm::genFloat(g) : (double)g.range(-8, 8) / 4)); break; case Ty::Char: set(g.chance(1, 5) ? g.range(-128, 127) : g.range(1, 126)); break; case Ty::Int: set(g.chance(1, 3) ? g.value() : g.range(-6, 12)); break;
            case Ty::Ptr: if (g.chance(7, 8)) set(g.range(0, M - 1)); break; case Ty::Struct: for (auto& [n, x] : v.mem) fit(x); break; case Ty::Arr: for (auto& x : v.arr) fit(x); break; default: break; }
    };
    for (auto& [n, v] : w.visible((uint64_t)d.st.regs["IP"])) if (v->type && v->loc && !v->loc->empty() && g.chance(9, 10)) try { auto l = w.location(*v->loc, d.st); if (!l.reg || g.chance(1, 2)) fit(w.value(l, *v->type, d.st)); } catch (EErr&) {} catch (EOpen&) {}
    d.push(); Source src; src.RegisterDebuggingInformation(w.top(g));
    std::string world = "machine: " + vm::show(d.cfg) + "\n" + w.show(); std::vector<std::optional<Val>> cache; std::string hist;
    size_t n = g.range(15, 45); std::unique_ptr<Gen> ge;
    for (size_t k = 0; k < n; ++k) {
        if (!ge || g.chance(1, 5)) ge = std::make_unique<Gen>(g, w, d.st, cache);
        std::string text = ge->make(); bool keep = g.chance(1, 2);
        Outcome out = judge(w, d.st, cache, text);
        hist += (keep ? "cached: " : "expression: ") + jesc(text) + "   # " + (out.k == Outcome::Value ? "value" : out.k == Outcome::Error ? "error: " + out.why : "not judged: " + out.why) + (out.may ? " (or refused)" : "") + "\n";
        c.detail = world + d.show() + hist;
        std::optional<TypedValue> got; size_t idx = 0; std::string msg;
        try { auto r = src.EvaluateExpression(*d.nat, text, keep); got = r.first; idx = r.second; } catch (const DebuggerError& e) { msg = e.what(); }
        St after = d.read();
        if (got && keep && idx != cache.size()) c.fail("index", "the value is stored as $" + std::to_string(idx) + ", expected $" + std::to_string(cache.size()));
        auto nans = [](int64_t a, int64_t b) { return std::isnan(ofBits(a)) && std::isnan(ofBits(b)); }; // which NaN arithmetic yields is not specified
        auto changed = [&](const St& want, const std::set<int64_t>& pad) {
            for (auto& [r, v] : want.regs) { auto it = after.regs.find(r); if (it == after.regs.end() || (it->second != v && !nans(it->second, v))) return true; }
            for (int64_t q = 0; q < M; ++q) if (after.mem[q] != want.mem[q] && !pad.count(q) && !nans(after.mem[q], want.mem[q])) return true;
            return after.regs.size() != want.regs.size(); };
        auto where = [&](const St& want) { for (int64_t q = 0; q < M; ++q) if (after.mem[q] != want.mem[q]) return "[" + std::to_string(q) + "] is " + std::to_string(after.mem[q]) + ", expected " + std::to_string(want.mem[q]); for (auto& [r, v] : want.regs) if (after.regs.at(r) != v) return r + " is " + std::to_string(after.regs.at(r)) + ", expected " + std::to_string(v); return std::string("?"); };
        if (out.k == Outcome::Open) {
            c.count("not-judged"); if (!out.mut && changed(d.st, {})) c.fail("changed", "evaluating '" + text + "' changed the program: " + where(d.st));
            if (got && keep) cache.push_back(std::nullopt);
            d.st = after; if (!(after.regs.at("IP") == (int64_t)d.st.regs["IP"])) throw Discard{};
            continue;
        }
        c.eval();
        if (out.k == Outcome::Error) {
            if (got) c.fail("accepted", "'" + text + "' has a value but should be refused (" + out.why + ")");
            bool ok = false; for (auto& x : out.snaps) ok |= !changed(x, out.padding); if (!ok) c.fail("changed-by-error", "refusing '" + text + "' changed the program: " + where(d.st));
            d.st = after; c.count(out.why.rfind("syntax", 0) == 0 ? "refused-syntax" : "refused"); continue;
        }
        if (!got) {
            if (!out.may) c.fail("refused", "'" + text + "' is refused: " + msg);
            bool ok = false; for (auto& x : out.snaps) ok |= !changed(x, out.padding); if (!ok) c.fail("changed-by-error", "refusing '" + text + "' changed the program: " + where(d.st));
            c.count("may-refuse-refused"); d.st = after; continue;
        }
        auto df = differs(*got, out.v); if (!df.empty()) c.fail("value", "'" + text + "' is " + df);
        if (changed(out.s, out.padding)) c.fail("stored", "after '" + text + "' " + where(out.s));
        d.st = after; c.feature(out.shape); c.count("values-" + std::to_string(out.v.k)); if (out.mut) c.count("assignments-compared"); if (out.may) c.count("may-refuse-accepted");
        if (keep) cache.push_back(out.v);
        if (g.chance(1, 3)) {
            std::optional<std::string> sv, sw; try { sv = src.TypedValueToString(*d.nat, *got); } catch (const DebuggerError&) {} try { sw = w.shown(out.v, d.st); } catch (EErr&) {}
            for (auto* x : {&sv, &sw}) if (*x) for (size_t p; (p = (*x)->find("-nan")) != std::string::npos;) (*x)->erase(p, 1);
            if (sv != sw) c.fail("shown", "'" + text + "' is shown as " + sv.value_or("(error)") + ", expected " + sw.value_or("(error)"));
        }
        if (!changed(d.st, {})) {} 
        if (g.chance(1, 10)) { // the program goes on between expressions
            size_t q = g.below(M); int64_t v = g.range(0, M - 1); d.st.mem[q] = v; d.nat->SetMemory(q, {v}); hist += "memory " + std::to_string(q) + " = " + std::to_string(v) + "\n";
        }
    }
    c.count("expressions", n); d.finish();
}
}
std::vector<ModeDef> exprModes() { return {{"expr", exprs}}; }
