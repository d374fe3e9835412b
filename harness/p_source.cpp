// C16, C17: source lines and variables, on the real debugger core and the real machine.
#include "srcenv.h"
#include "srcmodes.h"
using namespace se;

// ---- C16 -----------------------------------------------------------------------------------
static void srcLines(Ctx& c) {
    std::unique_ptr<Session> hold; Session* s = mk(c, 75, dopt(c), hold); Rng& g = c.rng; size_t L = s->md.text.size();
    auto S = [](int64_t v) { return std::to_string(v); };
    // line mapping
    std::map<size_t, uint64_t> map; size_t nl = g.below(8) == 0 ? g.below(2) : g.range(1, (int64_t)L);
    int style = (int)g.below(4);
    for (size_t k = 0; k < nl; ++k) {
        size_t line = style == 0 ? k : style == 1 ? k * 2 : g.below(2 * L + 4); if (g.chance(1, 40)) line = g.pick<size_t>({1000, (size_t)INT64_MAX, 65536});
        uint64_t a = style == 2 ? std::min<uint64_t>(L - 1, k * L / nl) : g.below(L); if (g.chance(1, 25)) a = g.pick<uint64_t>({L, L + 3, 100000});
        map[line] = a;
    }
    std::vector<std::string> lines; size_t ns = g.below(7) == 0 ? 0 : g.below(L + 6);
    std::string text; for (size_t k = 0; k < ns; ++k) { std::string l; size_t n = g.below(14); for (size_t q = 0; q < n; ++q) l += g.chance(1, 20) ? (char)(1 + g.below(255)) : (char)g.range(32, 126); for (char& ch : l) if (ch == '\n') ch = '\r'; lines.push_back(l); text += l + "\n"; }
    if (!lines.empty() && g.chance(1, 4)) { text.pop_back(); if (lines.back().empty()) lines.pop_back(); }
    bool haveMap = !g.chance(1, 25), haveSrc = !g.chance(1, 12), haveFn = !g.chance(1, 8);
    Source src; World w;
    if (haveMap) src.RegisterLineMapping(LineMapping(map)); else map.clear();
    if (haveSrc) src.RegisterSourceFile(SourceFile(text)); else lines.clear();
    if (haveFn) { uint64_t at = 0; size_t n = g.range(0, 4); for (size_t k = 0; k < n && at < L; ++k) { Scope f; f.fn = true; f.name = g.pick<const char*>({"main", "f", "g", "swap", "line", "x1"}) + (k ? S(k) : std::string()); f.b = at + g.below(3); f.e = f.b + g.range(1, 8); at = f.e; w.fns.push_back(f); } src.RegisterDebuggingInformation(w.top(g)); }
    c.detail += "lines:"; for (auto& [l, a] : map) c.detail += " " + S(l) + "->" + S(a); c.detail += "\n";
    auto lineOf = [&](uint64_t a) { std::optional<size_t> r; for (auto& [l, x] : map) if (x == a && (!r || l > *r)) r = l; return r; };
    // static queries
    auto queries = [&] {
        for (uint64_t a = 0; a < L + 5; ++a) { auto got = src.AddrToLine(a), want = lineOf(a); if (got != want) c.fail("addr-to-line", "address " + S(a) + " is on line " + (got ? S(*got) : "-") + ", expected " + (want ? S(*want) : "-")); }
        for (size_t l = 0; l < 2 * L + 8; ++l) { auto got = src.LineToAddr(l); auto it = map.find(l); if (got.has_value() != (it != map.end()) || (got && *got != it->second)) c.fail("line-to-addr", "line " + S(l) + " is at " + (got ? S(*got) : "-")); }
        for (auto& [l, a] : map) if (src.LineToAddr(l) != a) c.fail("line-to-addr", "line " + S(l) + " is not at " + S(a));
        for (size_t l = 0; l < lines.size() + 3; ++l) { auto got = src.GetLine(l); if (got.has_value() != (l < lines.size()) || (got && *got != lines[l])) c.fail("line-text", "line " + S(l) + " reads '" + (got ? std::string(*got) : "-") + "'"); }
        for (int k = 0; k < 4; ++k) { size_t i = g.below(lines.size() + 3), n = g.below(lines.size() + 4); if (g.chance(1, 10)) i = g.pick<size_t>({SIZE_MAX - 2, (size_t)INT64_MAX}); auto got = src.GetLinesRange(i, n); std::vector<std::string> want; for (size_t q = i; q < lines.size() && want.size() < n; ++q) want.push_back(lines[q]); if (std::vector<std::string>(got.begin(), got.end()) != want && i < lines.size() + 3) c.fail("line-range", "lines " + S(i) + " +" + S(n) + " are read wrongly"); }
        if (haveSrc) { if (src.GetLines() != lines) c.fail("all-lines", "the source text is not the file's"); }
        else { bool th = false; try { src.GetLines(); } catch (const DebuggerError&) { th = true; } if (!th) c.fail("all-lines", "lines without a source file"); }
        c.eval(4);
    };
    queries();
    auto resolve = [&](const std::string& t, bool one) -> std::optional<uint64_t> { // reference of GetAddressFromString
        auto n = [&]() -> std::optional<uint64_t> { if (t.empty()) return {}; uint64_t v = 0; for (char ch : t) { if (ch < '0' || ch > '9') return {}; v = v * 10 + (ch - '0'); } return v; }();
        if (n) { if (one && *n == 0) return {}; auto it = map.find(*n - one); if (it == map.end()) return {}; return it->second; }
        for (auto& f : w.fns) if (f.name == t) return f.b;
        return {};
    };
    // model of the source-level steps
    auto sstep = [&](Model& x) -> std::optional<Ev> {
        auto e = x.singleStep();
        while (e && e->k == Ev::Step && !lineOf(x.st.ip)) {
            if (x.steps > BUDGET) return std::nullopt;
            if (x.enabled(x.st.ip)) return Ev{Ev::Bp, x.st.ip};
            e = x.singleStep();
        }
        return e;
    };
    auto snext = [&](Model& x, bool& user) -> std::optional<Ev> {
        bool u = false; auto e = x.stepOver(BUDGET, true, &u);
        while (e && e->k == Ev::Step && !lineOf(x.st.ip)) {
            if (u) return std::nullopt; // a return to a breakpoint off any line: either is fine, not judged
            if (x.steps > BUDGET) return std::nullopt;
            e = x.stepOver(BUDGET, false, &u);
        }
        user = u; return e;
    };
    size_t n = g.range(4, 30);
    auto aLine = [&]() -> size_t { if (!map.empty() && g.chance(4, 5)) { if (g.chance(1, 2)) { int64_t a = s->anyAddr(); if (auto l = lineOf(a)) return *l; } auto it = map.begin(); std::advance(it, g.below(map.size())); return it->first; } return g.below(2 * L + 4); };
    for (size_t k = 0; k < n && !s->ended; ++k) {
        int64_t op = g.below(14);
        //                               st ct ov ou bs bu be bd ws wr mr mf mm mt lk bad
        if (op >= 12) s->act(Weights{0, 0, 0, 0, 8, 2, 1, 1, 2, 1, 0, 0, 0, 0, 0, 0}); // instructions inside lines
        else if (op < 4) s->run("step", [&](Model& x, bool&) { return sstep(x); }, [&] { return src.StepIn(*s->nat); });
        else if (op < 7) s->run("next", [&](Model& x, bool& u) { return snext(x, u); }, [&] { return src.StepOver(*s->nat); });
        else if (op == 7) s->cont();
        else if (op < 11) {
            size_t l = aLine(); if (!s->md.bps.empty() && g.chance(1, 3)) if (auto q = lineOf(s->pickBp())) l = *q;
            auto it = map.find(l); bool mapped = it != map.end(); int64_t a = mapped ? (int64_t)it->second : -1; bool in = s->md.inText(a);
            int which = it != map.end() && s->md.bps.count((int64_t)it->second) ? (int)g.range(2, 5) : g.chance(1, 6) ? (int)g.range(3, 5) : 0;
            static const char* nm[] = {"set", "set", "set", "unset", "enable", "disable"};
            s->note(std::string("line breakpoint ") + nm[which] + " " + S(l) + (mapped ? " @" + S(a) : " unmapped"));
            bool has = s->md.bps.count(a); bool ok = mapped && in && (which < 3 ? !has : has);
            auto act = [&]() -> uint64_t { switch (which) { case 3: return src.UnsetSourceSoftwareBreakpoint(*s->nat, l); case 4: return src.EnableSourceSoftwareBreakpoint(*s->nat, l); case 5: return src.DisableSourceSoftwareBreakpoint(*s->nat, l); default: return src.SetSourceSoftwareBreakpoint(*s->nat, l); } };
            if (!ok) s->refuse("line breakpoint", [&] { act(); });
            else {
                uint64_t r = act(); if ((int64_t)r != a) c.fail("line-breakpoint-address", "breakpoint on line " + S(l) + " is reported at " + S(r) + ", expected " + S(a));
                if (which < 3) s->md.bps[a] = true; else if (which == 3) s->md.bps.erase(a); else s->md.bps[a] = which == 4;
                c.count(std::string("line-breakpoint-") + nm[which]);
            }
        } else {
            bool one = g.chance(1, 2); std::string t;
            switch (g.below(5)) { case 0: t = w.fns.empty() ? "main" : g.pick(w.fns).name; break; case 1: t = g.pick<const char*>({"nosuch", "", "0", "-1", "1x", "mai", "99999999999999999999999", " 1"}); break; default: t = S(aLine() + one); }
            s->note("address of '" + t + "'" + (one ? " from one" : "")); auto want = resolve(t, one);
            if (t == "99999999999999999999999") want.reset();
            std::optional<uint64_t> got; try { got = src.GetAddressFromString(t, one); } catch (const DebuggerError&) {}
            if (got != want) c.fail("address-from-string", "'" + t + "' is at " + (got ? S(*got) : "-") + ", expected " + (want ? S(*want) : "-"));
            c.eval(); c.count("address-from-string");
        }
        // a stop is on a line or not as the mapping says
        if (auto ip = s->nat->GetIP(); src.AddrToLine(ip) != lineOf(ip)) c.fail("addr-to-line", "line of the current instruction");
    }
    s->state("the end"); queries(); s->finish();
}

// ---- C17 -----------------------------------------------------------------------------------
static void vars(Ctx& c) {
    Rng& g = c.rng; size_t L = g.range(3, 30); Debuggee d(c, L); World w; WorldOpt o; o.faulty = true;
    genTypes(g, w, o); std::vector<size_t> ids; for (auto& [id, t] : w.types) ids.push_back(id);
    auto mkVar = [&](std::set<std::string>& used) { Var v; do v.name = varName(g); while (!used.insert(v.name).second); if (!g.chance(1, 20)) v.type = g.chance(1, 30) ? 100001 : g.pick(ids); if (!g.chance(1, 15)) v.loc = g.chance(1, 15) ? std::vector<LocIns>{} : anyLoc(g, d.cfg, g.chance(1, 6)); return v; };
    std::set<std::string> used; size_t ng = g.below(4); for (size_t k = 0; k < ng; ++k) w.globals.push_back(mkVar(used));
    uint64_t at = 0; size_t nf = g.range(1, 3); for (size_t k = 0; k < nf; ++k) { Scope f; f.fn = true; f.name = "f" + std::to_string(k); f.b = at + g.below(3); f.e = f.b + g.range(0, (int64_t)L); at = f.e; genScopes(g, w, f, 3, mkVar); w.fns.push_back(f); }
    d.push(); Source src; src.RegisterDebuggingInformation(w.top(g));
    std::string world = w.show(); c.detail = "machine: " + vm::show(d.cfg) + "\n" + world;
    auto S = [](int64_t v) { return std::to_string(v); };
    for (uint64_t a = 0; a < L + 4; ++a) {
        auto got = src.GetScopedVariables(a); std::set<std::string> want; for (auto& [n, v] : w.visible(a)) want.insert(n);
        if (got != want) { std::string gs, wsn; for (auto& n : got) gs += n + " "; for (auto& n : want) wsn += n + " "; c.fail("visible", "at " + S(a) + " visible are " + gs + ", expected " + wsn); }
        auto f = w.fnAt(a); auto fn = src.GetFunctionNameByAddress(a); if (fn.value_or("-") != (f ? f->name : "-")) c.fail("function", S(a) + " belongs to " + fn.value_or("-") + ", expected " + (f ? f->name : "-"));
        c.eval(2); if (want.size() > 1) c.count("addresses-with-several-variables");
    }
    for (auto& f : w.fns) { auto r = src.GetFunctionAddrByName(f.name); if (!r || r->first != f.b || r->second != f.e) c.fail("function-by-name", f.name + " is found elsewhere"); }
    if (src.GetFunctionAddrByName("nosuch") || src.GetFunctionAddrByName("")) c.fail("function-by-name", "a missing function is found");
    for (auto& [id, t] : w.types) {
        auto ty = src.GetType(id); if (!ty) c.fail("type", "type " + S(id) + " is missing"); if (src.TypeToString(*ty) != w.typeName(id)) c.fail("type-name", "type " + S(id) + " is called " + src.TypeToString(*ty) + ", expected " + w.typeName(id));
        std::optional<uint64_t> sz, want; try { sz = src.GetTypeSize(id); } catch (const DebuggerError&) {} try { want = w.size(id); } catch (EErr&) {}
        if (sz != want) c.fail("type-size", "size of " + S(id)); c.eval();
    }
    size_t rounds = g.range(1, 4);
    for (size_t r = 0; r < rounds; ++r) {
        if (r) { for (auto& x : d.st.mem) if (g.chance(1, 3)) x = g.range(0, (int64_t)d.cfg.mem - 1); for (auto& [n, v] : d.st.regs) if (n != "IP" && g.chance(1, 3)) v = g.range(0, (int64_t)d.cfg.mem - 1); d.push(); }
        d.ip(g.below(L)); uint64_t ip = d.st.regs["IP"]; c.detail = "machine: " + vm::show(d.cfg) + "\n" + world + d.show();
        auto vis = w.visible(ip); std::set<std::string> names; for (auto& [n, v] : vis) names.insert(n);
        for (int k = 0; k < 2; ++k) names.insert(varName(g));
        for (auto& n : names) {
            auto it = vis.find(n); const Var* v = it == vis.end() ? nullptr : it->second;
            // location
            std::optional<Loc> want; bool err = false;
            if (v && v->loc && !v->loc->empty()) try { want = w.location(*v->loc, d.st); } catch (EErr&) { err = true; }
            std::optional<expr::Location> got; bool threw = false;
            try { got = src.GetVariableLocation(*d.nat, n); } catch (const DebuggerError&) { threw = true; }
            if (want) { if (!got || expr::LocationToStr(*got) != show(*want)) c.fail("location", n + " is at " + (got ? expr::LocationToStr(*got) : "-") + ", expected " + show(*want)); }
            else if (got) c.fail("location", n + " is at " + expr::LocationToStr(*got) + " but has no location");
            else if (threw && !err) c.fail("location-error", n + ": asking for the location fails");
            // type
            auto t = src.GetVariableTypeInformation(*d.nat, n); const Ty* ty = v && v->type ? w.ty(*v->type) : nullptr;
            if (t.has_value() != (ty != nullptr) || (t && src.TypeToString(*t) != w.typeName(ty->id))) c.fail("variable-type", n + " is of type " + (t ? src.TypeToString(*t) : "-"));
            c.eval(2);
            // value
            std::optional<Val> val; bool open = false; if (ty && want) try { val = w.value(*want, *v->type, d.st); } catch (EErr&) {} catch (EOpen&) { open = true; }
            std::optional<TypedValue> tv; try { tv = src.EvaluateExpression(*d.nat, n, g.chance(1, 2)).first; } catch (const DebuggerError&) {}
            if (open) { c.count("not-judged"); continue; }
            if (tv.has_value() != val.has_value()) c.fail(tv ? "value-of-nothing" : "no-value", n + (tv ? " has a value but should not" : " has no value"));
            if (val) {
                auto df = differs(*tv, *val); if (!df.empty()) c.fail("value", n + " is " + df);
                std::optional<std::string> sv, sw; try { sv = src.TypedValueToString(*d.nat, *tv); } catch (const DebuggerError&) {} try { sw = w.shown(*val, d.st); } catch (EErr&) {}
                if (sv != sw) c.fail("shown", n + " is shown as " + sv.value_or("(error)") + ", expected " + sw.value_or("(error)"));
                std::string tn = w.typeName(*v->type); if (src.TypedValueTypeToString(*tv) != tn) c.fail("shown-type", n + " is shown with type " + src.TypedValueTypeToString(*tv) + ", expected " + tn);
                c.count("values-compared"); c.count(std::string("kind-") + std::to_string(val->k)); c.feature(Rng::mix((uint64_t)val->k * 31 + v->loc->size() * 7 + (want->reg ? 3 : 1)) ^ std::hash<std::string>{}(sw.value_or("")));
            }
            c.eval();
        }
        if (!(d.read() == d.st)) c.fail("changed", "looking at variables changed the program");
    }
    d.finish();
}

std::vector<ModeDef> modes() {
    std::vector<ModeDef> m{{"src-lines", srcLines}, {"vars", vars}};
    for (auto& x : exprModes()) m.push_back(x);
    for (auto& x : infoModes()) m.push_back(x);
    return m;
}
int main(int argc, char** argv) { return harnessMain(argc, argv); }
