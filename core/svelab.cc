#include <algorithm>
#include "sv.hh"
namespace sv {
using namespace rtl;
using RE = rtl::Expr;
using RS = rtl::Stmt;
using Op = rtl::Op;
namespace {
struct Ty;
struct StructT { std::string name; std::vector<std::pair<std::string, Ty>> m; std::vector<int> off; int w = 0; };
struct Ty {
    std::vector<int> unp, pk;
    int ew = 1;
    bool sgn = false;
    std::shared_ptr<StructT> st;
    std::string en;
    std::string iface, modport;
    int pw() const { int w = ew; for (int x : pk) w *= x; return w; }
    int w() const { int r = pw(); for (int x : unp) r *= x; return r; }
};
struct Scope;
struct Sym {
    enum K { Sig, Const, Type, Func, Iface, Inst } k = Sig;
    int sig = -1;
    Ty ty;
    u128 val = 0;
    int w = 32;
    bool s = false;
    bool input = false, net = false, loopvar = false;
    int fn = -1;
    std::shared_ptr<Scope> sc;
    std::string modport, en;
};
struct Scope {
    Scope *up = nullptr;
    std::string prefix, mod;
    std::map<std::string, Sym> m;
    std::map<std::string, std::map<std::string, std::string>> modports;
    bool iface = false;
};
struct Ref { int sig = -1; EP off; int lo = 0; Ty ty; bool input = false, net = false, loopvar = false; bool ok = false; EP cexpr; bool part = false; };

struct Elab {
    const Source &src;
    Design d;
    Scope unit;
    std::map<std::string, Scope> packages;
    struct Drv { int proc; bool initial; bool cont; std::string where; };
    // per signal: list of (driver process id, bits)
    std::map<int, std::map<int, u128>> drv;
    std::vector<Drv> drvs;
    int cur_drv = -1;
    int depth = 0;
    explicit Elab(const Source &s) : src(s) { d.lint = s.lint; }
    void lint(int line, const std::string &m) {
        std::string x = "line " + std::to_string(line) + ": " + m;
        if (std::find(d.lint.begin(), d.lint.end(), x) == d.lint.end()) d.lint.push_back(x);
    }
    [[noreturn]] void err(int line, const std::string &m) { throw ParseError("line " + std::to_string(line) + ": " + m); }
    Sym *look(Scope *s, const std::string &n) {
        for (; s; s = s->up) { auto it = s->m.find(n); if (it != s->m.end()) return &it->second; }
        return nullptr;
    }
    void declare(Scope *s, const std::string &n, Sym sym, int line) {
        if (s->m.count(n)) lint(line, "'" + n + "' is declared twice in " + s->mod);
        s->m[n] = std::move(sym);
    }
    // ---- constants
    static bool is_const(const EP &e) {
        if (e->op == Op::Sig || e->op == Op::Call) return false;
        for (auto &x : e->a) if (!is_const(x)) return false;
        return true;
    }
    u128 fold(const EP &e) { static Design empty; Sim s(empty); return s.eval(*e); }
    i128 ceval(const E &e, Scope *sc) {
        auto t = self(e, sc);
        auto x = low(e, t.w, t.s, sc);
        if (!is_const(x)) err(e->line, "constant expression expected");
        u128 v = fold(x);
        return t.s ? sext(v, t.w) : (i128)v;
    }
    int dimsize(const Dim &dm, Scope *sc) {
        i128 h = ceval(dm.hi, sc);
        if (!dm.lo) { if (h < 1 || h > 4096) err(dm.hi->line, "bad array size"); return (int)h; }
        i128 l = ceval(dm.lo, sc);
        if (l != 0 || h < 0 || h > 4096) err(dm.hi->line, "unsupported or empty range [" + std::to_string((long)h) + ":" + std::to_string((long)l) + "]");
        return (int)h + 1;
    }
    Ty type(const TypeRef &t, Scope *sc, int line) {
        Ty r;
        for (auto &x : t.pk) r.pk.push_back(dimsize(x, sc));
        r.sgn = t.sgn;
        static const std::map<std::string, int> ints = {{"int", 32}, {"integer", 32}, {"byte", 8}, {"shortint", 16}, {"longint", 64}};
        if (t.name.empty() || t.name == "logic" || t.name == "reg" || t.name == "wire" || t.name == "bit") return r;
        auto it = ints.find(t.name);
        if (it != ints.end()) { r.pk = {it->second}; r.sgn = !t.is_unsigned; return r; }
        if (auto *s = look(sc, t.name); s && s->k == Sym::Type) {
            Ty b = s->ty;
            if (!b.en.empty() && !r.pk.empty()) { b.en = ""; }
            if (t.has_sign) { lint(line, "signing given for user type " + t.name); }
            if (!b.unp.empty()) err(line, "array typedef");
            r.sgn = b.sgn || t.sgn;
            auto pk = r.pk;
            r = b;
            r.pk.insert(r.pk.begin(), pk.begin(), pk.end());
            return r;
        }
        if (src.mods.count(t.name) && src.mods.at(t.name)->iface) { r.iface = t.name; r.modport = t.modport; return r; }
        err(line, "unknown type '" + t.name + "'");
    }
    Ty declType(const Decl &x, Scope *sc) {
        Ty t = type(x.t, sc, x.line);
        for (auto &u : x.unp) t.unp.push_back(dimsize(u, sc));
        return t;
    }
    // ---- references
    Ref ref(const E &e, Scope *sc) {
        Ref r;
        switch (e->k) {
            case Expr::Id: {
                auto *s = look(sc, e->s);
                if (!s) err(e->line, "undeclared identifier '" + e->s + "'");
                return refSym(*s, e);
            }
            case Expr::Scoped: {
                auto it = packages.find(e->argn[0]);
                if (it == packages.end()) err(e->line, "unknown package " + e->argn[0]);
                auto *s = look(&it->second, e->s);
                if (!s) err(e->line, "undeclared identifier '" + e->s + "'");
                return refSym(*s, e);
            }
            case Expr::Member: {
                // interface / instance member?
                if (e->a[0]->k == Expr::Id) {
                    auto *s = look(sc, e->a[0]->s);
                    if (s && (s->k == Sym::Iface || s->k == Sym::Inst)) {
                        auto it = s->sc->m.find(e->s);
                        if (it == s->sc->m.end()) err(e->line, "no member '" + e->s + "' in " + e->a[0]->s);
                        Ref q = refSym(it->second, e);
                        if (s->k == Sym::Inst) d.notes.push_back("hierarchical reference " + e->a[0]->s + "." + e->s);
                        if (s->k == Sym::Iface) {
                            q.input = it->second.input;
                            if (!s->modport.empty()) {
                                auto &mp = s->sc->modports[s->modport];
                                auto f = mp.find(e->s);
                                if (f == mp.end()) lint(e->line, "member '" + e->s + "' is not in modport " + s->modport);
                                else q.input = f->second == "input";
                            }
                        }
                        return q;
                    }
                }
                Ref b = ref(e->a[0], sc);
                if (!b.ok || !b.ty.st || !b.ty.pk.empty() || !b.ty.unp.empty()) err(e->line, "'." + e->s + "' applied to a non-struct");
                for (size_t i = 0; i < b.ty.st->m.size(); i++)
                    if (b.ty.st->m[i].first == e->s) { b.lo += b.ty.st->off[i]; b.ty = b.ty.st->m[i].second; return b; }
                err(e->line, "no field '" + e->s + "' in struct " + b.ty.st->name);
            }
            case Expr::Index: {
                Ref b = ref(e->a[0], sc);
                if (!b.ok) return b;
                if (e->a[0]->k == Expr::Range) lint(e->line, "a select cannot follow a part-select");
                auto it = self(e->a[1], sc);
                auto ix = low(e->a[1], it.w, it.s, sc);
                int n, ew;
                Ty t = b.ty;
                if (!t.unp.empty()) { n = t.unp[0]; t.unp.erase(t.unp.begin()); ew = t.w(); }
                else if (!t.pk.empty()) { n = t.pk[0]; t.pk.erase(t.pk.begin()); ew = t.pw(); if (!t.st || t.pk.empty()) {} t.sgn = t.st && t.pk.empty() ? t.sgn : false; t.en = ""; }
                else if (t.ew > 1) { n = t.ew; ew = 1; t = Ty(); }
                else { lint(e->line, "bit-select of a scalar"); n = 1; ew = 1; t = Ty(); }
                b.part = true;
                if (is_const(ix)) {
                    i128 v = it.s ? sext(fold(ix), it.w) : (i128)fold(ix);
                    if (v < 0 || v >= n) { lint(e->line, "constant index out of range"); v = 0; }
                    b.lo += (int)v * ew;
                } else {
                    EP x = resize(ix, 32, it.s);
                    if (ew != 1) x = mk(Op::Mul, 32, false, {x, cst(ew, 32)});
                    b.off = b.off ? mk(Op::Add, 32, false, {b.off, x}) : x;
                    if (it.w < 31 && (1LL << it.w) > n) d.notes.push_back("index may exceed bounds");
                }
                b.ty = t;
                return b;
            }
            case Expr::Range: {
                Ref b = ref(e->a[0], sc);
                if (!b.ok) return b;
                if (e->a[0]->k == Expr::Range) lint(e->line, "a select cannot follow a part-select");
                Ty t = b.ty;
                b.part = true;
                bool unp = !t.unp.empty();
                if (!unp && t.pk.empty()) {
                    if (t.ew > 1) { t.pk = {t.ew}; t.ew = 1; t.st = nullptr; t.en = ""; }
                    else { lint(e->line, "part-select of a scalar"); t.pk = {1}; }
                }
                int n = unp ? t.unp[0] : t.pk[0];
                int ew = t.w() / n;
                int cnt;
                if (e->rk == ':') {
                    i128 h = ceval(e->a[1], sc), l = ceval(e->a[2], sc);
                    if (h < l || l < 0 || h >= n) { lint(e->line, "part-select out of range or reversed"); h = l = 0; }
                    cnt = (int)(h - l) + 1;
                    b.lo += (int)l * ew;
                } else {
                    i128 c = ceval(e->a[2], sc);
                    if (c < 1 || c > n) err(e->line, "bad indexed part-select");
                    cnt = (int)c;
                    auto it = self(e->a[1], sc);
                    EP x = resize(low(e->a[1], it.w, it.s, sc), 32, it.s);
                    if (e->rk == '-') x = mk(Op::Sub, 32, false, {x, cst(cnt - 1, 32)});
                    if (ew != 1) x = mk(Op::Mul, 32, false, {x, cst(ew, 32)});
                    if (is_const(x)) b.lo += (int)fold(x);
                    else b.off = b.off ? mk(Op::Add, 32, false, {b.off, x}) : x;
                }
                if (unp) t.unp[0] = cnt; else { t.pk[0] = cnt; t.sgn = false; t.en = ""; }
                b.ty = t;
                return b;
            }
            default: return r;
        }
    }
    Ref refSym(const Sym &s, const E &e) {
        Ref r;
        if (s.k == Sym::Sig) { r.ok = true; r.sig = s.sig; r.ty = s.ty; r.input = s.input; r.net = s.net; r.loopvar = s.loopvar; return r; }
        if (s.k == Sym::Const) {
            r.ok = true;
            r.cexpr = cst(s.val, s.w, s.s);
            r.ty.pk = {s.w}; r.ty.sgn = s.s; r.ty.en = s.en;
            return r;
        }
        err(e->line, "'" + e->s + "' is not a value");
    }
    EP refval(const Ref &r) {
        EP base = r.cexpr ? r.cexpr : sigx(r.sig, d.sigs[r.sig].w, d.sigs[r.sig].s);
        if (!r.off && r.lo == 0 && r.ty.w() == base->w) return base;
        return part(base, r.off, r.lo, r.ty.w());
    }
    // ---- expressions
    ETy self(const E &e, Scope *sc) {
        switch (e->k) {
            case Expr::Num: return {e->w, e->sgn};
            case Expr::Fill: return {1, false};
            case Expr::Str: return {8 * (int)std::max<size_t>(1, e->s.size()), false};
            case Expr::Id: case Expr::Scoped: case Expr::Member: case Expr::Index: {
                Ref r = ref(e, sc);
                if (!r.ok) return selfConcatSel(e, sc);
                if (!r.ty.unp.empty()) return {r.ty.w(), false};
                return {r.ty.w(), r.ty.sgn};
            }
            case Expr::Range: { Ref r = ref(e, sc); if (!r.ok) return selfConcatSel(e, sc); return {r.ty.w(), r.ty.unp.empty() ? false : r.ty.sgn}; }
            case Expr::Un:
                if (e->s == "+" || e->s == "-" || e->s == "~") return self(e->a[0], sc);
                self(e->a[0], sc);
                return {1, false};
            case Expr::Bin: {
                auto &o = e->s;
                auto l = self(e->a[0], sc), r = self(e->a[1], sc);
                if (o == "<<" || o == ">>" || o == "<<<" || o == ">>>" || o == "**") return l;
                if (o == "==" || o == "!=" || o == "===" || o == "!==" || o == "<" || o == "<=" || o == ">" || o == ">=" || o == "&&" || o == "||") return {1, false};
                return {std::max(l.w, r.w), l.s && r.s};
            }
            case Expr::Cond: { auto l = self(e->a[1], sc), r = self(e->a[2], sc); self(e->a[0], sc); return {std::max(l.w, r.w), l.s && r.s}; }
            case Expr::Concat: { int w = 0; for (auto &x : e->a) { if (x->k == Expr::Num && !x->sized) lint(x->line, "unsized constant in a concatenation"); w += self(x, sc).w; } return {w, false}; }
            case Expr::Repl: {
                i128 n = ceval(e->a[0], sc);
                if (n < 1 || n > 4096) err(e->line, "bad replication count");
                return {(int)n * self(e->a[1], sc).w, false};
            }
            case Expr::Cast: return {self(e->a[0], sc).w, e->s == "signed"};
            case Expr::SizeCast: { i128 n = ceval(e->a[0], sc); return {(int)n, self(e->a[1], sc).s}; }
            case Expr::TypeCast: { TypeRef t; t.name = e->s; auto ty = type(t, sc, e->line); return {ty.w(), ty.sgn}; }
            case Expr::Call: {
                if (e->s == "$signed") return {self(e->a.at(0), sc).w, true};
                if (e->s == "$unsigned") return {self(e->a.at(0), sc).w, false};
                if (e->s == "$clog2" || e->s == "$bits") return {32, true};
                if (e->s[0] == '$') return {32, true};
                auto *s = look(sc, e->s);
                if (!s || s->k != Sym::Func) err(e->line, "call of unknown function '" + e->s + "'");
                if (s->fn < 0) return {s->w, s->s};
                return {s->ty.w(), s->ty.sgn};
            }
        }
        return {1, false};
    }
    ETy selfConcatSel(const E &e, Scope *sc) {   // select on a concatenation
        if (e->k == Expr::Index) { self(e->a[0], sc); return {1, false}; }
        if (e->k == Expr::Range) { if (e->rk == ':') return {(int)(ceval(e->a[1], sc) - ceval(e->a[2], sc)) + 1, false}; return {(int)ceval(e->a[2], sc), false}; }
        err(e->line, "unsupported select");
    }
    EP lowSelf(const E &e, Scope *sc) { auto t = self(e, sc); return low(e, t.w, t.s, sc); }
    EP boolean(const E &e, Scope *sc) { auto x = lowSelf(e, sc); return x->w == 1 ? x : mk(Op::ROr, 1, false, {x}); }
    EP low(const E &e, int w, bool s, Scope *sc) {
        switch (e->k) {
            case Expr::Num: return cst(s && e->sgn ? (u128)sext(e->val, e->w) : e->val, w, s);
            case Expr::Fill: return cst(e->val ? ~(u128)0 : 0, w, false);
            case Expr::Str: err(e->line, "string value");
            case Expr::Id: case Expr::Scoped: case Expr::Member: case Expr::Index: case Expr::Range: {
                Ref r = ref(e, sc);
                if (!r.ok) {
                    EP b = lowSelf(e->a[0], sc);
                    auto t = self(e, sc);
                    if (e->k == Expr::Index) { auto it = self(e->a[1], sc); EP ix = resize(low(e->a[1], it.w, it.s, sc), 32, it.s); return resize(part(b, ix, 0, 1), w, false); }
                    return resize(part(b, nullptr, (int)ceval(e->a[e->rk == ':' ? 2 : 1], sc), t.w), w, false);
                }
                if (!r.ty.unp.empty()) lint(e->line, "unpacked array used as an operand");
                return resize(refval(r), w, s && r.ty.sgn);
            }
            case Expr::Un: {
                auto &o = e->s;
                if (o == "+") return low(e->a[0], w, s, sc);
                if (o == "-") return mk(Op::Neg, w, s, {low(e->a[0], w, s, sc)});
                if (o == "~") return mk(Op::Not, w, s, {low(e->a[0], w, s, sc)});
                EP x = lowSelf(e->a[0], sc);
                Op p = o == "!" ? Op::LNot : o == "&" ? Op::RAnd : o == "|" ? Op::ROr : o == "^" ? Op::RXor : o == "~&" ? Op::RNand : o == "~|" ? Op::RNor : Op::RXnor;
                return resize(mk(p, 1, false, {x}), w, false);
            }
            case Expr::Bin: {
                auto &o = e->s;
                if (o == "&&" || o == "||") return resize(mk(o == "&&" ? Op::LAnd : Op::LOr, 1, false, {boolean(e->a[0], sc), boolean(e->a[1], sc)}), w, false);
                if (o == "<<" || o == ">>" || o == "<<<" || o == ">>>") {
                    EP l = low(e->a[0], w, s, sc), r = lowSelf(e->a[1], sc);
                    return mk(o == ">>" ? Op::LShr : o == ">>>" ? (s ? Op::AShr : Op::LShr) : Op::Shl, w, s, {l, r});
                }
                if (o == "**") return mk(Op::Pow, w, s, {low(e->a[0], w, s, sc), lowSelf(e->a[1], sc)});
                auto l = self(e->a[0], sc), r = self(e->a[1], sc);
                static const std::map<std::string, Op> cmp = {{"==", Op::Eq}, {"===", Op::Eq}, {"!=", Op::Ne}, {"!==", Op::Ne}, {"<", Op::Lt}, {"<=", Op::Le}, {">", Op::Gt}, {">=", Op::Ge}};
                auto c = cmp.find(o);
                if (c != cmp.end()) {
                    int cw = std::max(l.w, r.w);
                    bool cs = l.s && r.s;
                    return resize(mk(c->second, 1, cs, {low(e->a[0], cw, cs, sc), low(e->a[1], cw, cs, sc)}), w, false);
                }
                static const std::map<std::string, Op> ar = {{"+", Op::Add}, {"-", Op::Sub}, {"*", Op::Mul}, {"/", Op::Div}, {"%", Op::Mod}, {"&", Op::And}, {"|", Op::Or}, {"^", Op::Xor}, {"~^", Op::Xnor}, {"^~", Op::Xnor}};
                return mk(ar.at(o), w, s, {low(e->a[0], w, s, sc), low(e->a[1], w, s, sc)});
            }
            case Expr::Cond: return mk(Op::Cond, w, s, {boolean(e->a[0], sc), low(e->a[1], w, s, sc), low(e->a[2], w, s, sc)});
            case Expr::Concat: {
                std::vector<EP> a;
                int tw = 0;
                for (auto &x : e->a) { a.push_back(lowSelf(x, sc)); tw += a.back()->w; }
                return resize(mk(Op::Concat, tw, false, a), w, false);
            }
            case Expr::Repl: {
                i128 n = ceval(e->a[0], sc);
                EP x = lowSelf(e->a[1], sc);
                std::vector<EP> a((size_t)n, x);
                return resize(mk(Op::Concat, (int)n * x->w, false, a), w, false);
            }
            case Expr::Cast: return resize(lowSelf(e->a[0], sc), w, s && e->s == "signed");
            case Expr::SizeCast: {
                auto t = self(e->a[1], sc);
                i128 n = ceval(e->a[0], sc);
                int iw = std::max((int)n, t.w);
                return resize(resize(low(e->a[1], iw, t.s, sc), (int)n, false), w, s && t.s);
            }
            case Expr::TypeCast: {
                auto t = self(e, sc), x = self(e->a[0], sc);
                int iw = std::max(t.w, x.w);
                return resize(resize(low(e->a[0], iw, x.s, sc), t.w, false), w, s && t.s);
            }
            case Expr::Call: {
                if (e->s == "$signed" || e->s == "$unsigned") return resize(lowSelf(e->a.at(0), sc), w, s && e->s == "$signed");
                if (e->s == "$clog2") return resize(mk(Op::Clog2, 32, false, {lowSelf(e->a.at(0), sc)}), w, false);
                if (e->s == "$bits") return cst(self(e->a.at(0), sc).w, w);
                if (e->s[0] == '$') { d.notes.push_back("system call " + e->s); return cst(0, w); }
                auto *sy = look(sc, e->s);
                if (!sy || sy->k != Sym::Func) err(e->line, "call of unknown function '" + e->s + "'");
                if (sy->fn < 0) { d.notes.push_back("DPI call " + e->s); return cst(0, w); }
                return resize(call(e, *sy, sc), w, s && sy->ty.sgn);
            }
        }
        err(e->line, "unsupported expression");
    }
    std::map<int, std::vector<std::string>> fargs;
    EP call(const E &e, const Sym &sy, Scope *sc) {
        auto &names = fargs[sy.fn];
        std::vector<EP> a(names.size());
        if (e->a.size() != names.size()) err(e->line, "wrong number of arguments for " + e->s);
        for (size_t i = 0; i < e->a.size(); i++) {
            size_t k = i;
            if (!e->argn[i].empty()) { k = std::find(names.begin(), names.end(), e->argn[i]) - names.begin(); if (k == names.size()) err(e->line, "no argument " + e->argn[i]); }
            auto &sg = d.sigs[d.funcs[sy.fn].args[k]];
            auto t = self(e->a[i], sc);
            int w = std::max(t.w, sg.w);
            if (t.w != sg.w) d.notes.push_back("argument width mismatch");
            a[k] = resize(low(e->a[i], w, t.s, sc), sg.w, false);
        }
        auto x = std::make_shared<RE>();
        x->op = Op::Call; x->w = std::max(1, sy.ty.w()); x->sig = sy.fn; x->a = a;
        // the function's writes to module variables count as this process's
        return x;
    }
    EP assign_conv(const E &e, int lw, Scope *sc) {
        auto t = self(e, sc);
        int w = std::max(t.w, lw);
        if (t.w != lw && e->k != Expr::Fill && !(e->k == Expr::Num && !e->sized)) d.notes.push_back("line " + std::to_string(e->line) + ": width mismatch in assignment");
        return resize(low(e, w, t.s, sc), lw, false);
    }
    // ---- assignments
    void drive(const Ref &r, int line) {
        if (r.cexpr) err(line, "assignment to a constant");
        if (r.loopvar) return;
        if (r.input) lint(line, "assignment to input '" + d.sigs[r.sig].name + "'");
        if (cur_drv >= 0) {
            u128 bits = r.off ? mask(d.sigs[r.sig].w) : mask(r.ty.w()) << r.lo;
            drv[r.sig][cur_drv] |= bits;
        }
    }
    std::vector<LV> lvals(const E &e, Scope *sc, Ty *one = nullptr) {
        std::vector<LV> r;
        if (e->k == Expr::Concat) { for (auto &x : e->a) { auto v = lvals(x, sc); r.insert(r.end(), v.begin(), v.end()); } return r; }
        Ref q = ref(e, sc);
        if (!q.ok) err(e->line, "not assignable");
        drive(q, e->line);
        if (one) *one = q.ty;
        r.push_back({q.sig, q.off, q.lo, q.ty.w()});
        return r;
    }
    // unpacked array value: only whole references of the same shape
    bool unpacked_ref(const E &e, Scope *sc, Ref &r) {
        if (e->k != Expr::Id && e->k != Expr::Member && e->k != Expr::Index && e->k != Expr::Range) return false;
        r = ref(e, sc);
        return r.ok && !r.ty.unp.empty();
    }
    SP assign(const E &l, const E &r, bool nba, int line, Scope *sc, bool cont) {
        auto s = std::make_shared<RS>();
        s->k = RS::Assign; s->nba = nba; s->line = line;
        Ty t;
        s->lhs = lvals(l, sc, &t);
        int w = 0;
        for (auto &x : s->lhs) w += x.w;
        if (l->k == Expr::Id) { auto rt = self(r, sc); d.rhs_types[l->s] = {rt.w, rt.s}; }
        Ref ur;
        bool u = unpacked_ref(r, sc, ur);
        if (!t.unp.empty() || u) {
            if (!u || t.unp != ur.ty.unp || t.pw() != ur.ty.pw()) { lint(line, "assignment between different unpacked shapes"); }
            if (u) { s->rhs = resize(refval(ur), w, false); return s; }
        }
        if (!t.en.empty() && l->k != Expr::Concat) check_enum(t.en, r, sc, line);
        s->rhs = assign_conv(r, w, sc);
        return s;
    }
    void check_enum(const std::string &en, const E &r, Scope *sc, int line) {
        // an enum variable only takes values of its own type (IEEE 1800 6.19.3)
        std::string got;
        if (r->k == Expr::Cond) { check_enum(en, r->a[1], sc, line); check_enum(en, r->a[2], sc, line); return; }
        if (r->k == Expr::TypeCast) got = r->s;
        else if (r->k == Expr::Id || r->k == Expr::Member || r->k == Expr::Scoped || r->k == Expr::Index) { Ref q = ref(r, sc); if (q.ok) got = q.ty.en; }
        if (got != en) lint(line, "value that is not of type " + en + " assigned to an enum variable");
    }
    SP stmt(const S &x, Scope *sc) {
        auto s = std::make_shared<RS>();
        s->line = x->line;
        switch (x->k) {
            case Stmt::Null: case Stmt::Decl: return s;
            case Stmt::Delay: throw Unsupported("delay control");
            case Stmt::Assert: { boolean(x->rhs, sc); s->k = RS::Assert; return s; }
            case Stmt::Assign: return assign(x->lhs, x->rhs, x->nba, x->line, sc, false);
            case Stmt::If:
                s->k = RS::If;
                s->rhs = boolean(x->rhs, sc);
                for (auto &b : x->body) s->body.push_back(stmt(b, sc));
                return s;
            case Stmt::Block: {
                s->k = RS::Block;
                for (auto &b : x->body) s->body.push_back(stmt(b, sc));
                return s;
            }
            case Stmt::Case: {
                s->k = RS::Case;
                s->unique = x->unique;
                auto t = self(x->rhs, sc);
                for (auto &it : x->items) for (auto &c : it.first) { auto u = self(c, sc); t.w = std::max(t.w, u.w); t.s = t.s && u.s; }
                s->rhs = low(x->rhs, t.w, t.s, sc);
                std::set<u128> seen;
                for (auto &it : x->items) {
                    std::vector<EP> cs;
                    for (auto &c : it.first) { cs.push_back(low(c, t.w, t.s, sc)); if (is_const(cs.back()) && !seen.insert(fold(cs.back())).second) d.notes.push_back("line " + std::to_string(c->line) + ": duplicate case label"); }
                    s->items.emplace_back(cs, stmt(it.second, sc));
                }
                if (x->dflt) s->dflt = stmt(x->dflt, sc);
                return s;
            }
            case Stmt::For: {
                s->k = RS::For;
                auto *in = new Scope;
                keep.emplace_back(in);
                in->up = sc; in->prefix = sc->prefix; in->mod = sc->mod;
                if (x->declares) {
                    Sym v;
                    v.loopvar = true;
                    v.ty.pk = {32}; v.ty.sgn = !x->var_unsigned;
                    v.sig = d.add_sig(sc->prefix + x->var + "#" + std::to_string(d.sigs.size()), 32, v.ty.sgn);
                    in->m[x->var] = v;
                }
                auto idv = std::make_shared<Expr>();
                idv->k = Expr::Id; idv->s = x->var; idv->line = x->line;
                s->body.push_back(assign(idv, x->lhs, false, x->line, in, false));
                s->rhs = boolean(x->rhs, in);
                s->body.push_back(assign(x->body[0]->lhs, x->body[0]->rhs, false, x->line, in, false));
                s->body.push_back(stmt(x->body[1], in));
                return s;
            }
            case Stmt::Return: {
                s->k = RS::Return;
                if (x->rhs) {
                    auto *rs = look(sc, "#ret");
                    if (!rs) { err(x->line, "return outside of a function"); }
                    if (rs->sig < 0) { lint(x->line, "void function returns a value"); s->rhs = lowSelf(x->rhs, sc); }
                    else s->rhs = assign_conv(x->rhs, d.sigs[rs->sig].w, sc);
                }
                return s;
            }
            case Stmt::Break: s->k = RS::Break; return s;
            case Stmt::Call:
                if (x->rhs->s[0] == '$') { for (auto &a : x->rhs->a) if (a->k != Expr::Str) lowSelf(a, sc); return s; }
                s->k = RS::ExprStmt;
                {
                    auto *sy = look(sc, x->rhs->s);
                    if (!sy || sy->k != Sym::Func) err(x->line, "call of unknown function '" + x->rhs->s + "'");
                    if (sy->fn < 0) { s->k = RS::Nop; return s; }
                    s->rhs = call(x->rhs, *sy, sc);
                    for (auto &[sg, bits] : fwrites[sy->fn]) if (cur_drv >= 0) drv[sg][cur_drv] |= bits;
                }
                return s;
        }
        return s;
    }
    std::map<int, std::map<int, u128>> fwrites;
    std::vector<std::unique_ptr<Scope>> keep;
    int new_drv(const std::string &where, bool initial, bool cont) { drvs.push_back({(int)drvs.size(), initial, cont, where}); return cur_drv = (int)drvs.size() - 1; }
    void add_proc(Proc p) { d.procs.push_back(std::move(p)); }

    // ---- declarations shared by modules, packages, the unit
    void decl_item(const I &i, Scope *sc) {
        switch (i->k) {
            case Item::Enum: {
                Sym t;
                t.k = Sym::Type;
                t.ty = type(i->en.base, sc, i->line);
                t.ty.en = i->en.name;
                int w = t.ty.w();
                i128 next = 0;
                std::set<u128> seen;
                for (auto &[n, e] : i->en.m) {
                    if (e) {
                        auto et = self(e, sc);
                        next = ceval(e, sc);
                        if (e->k == Expr::Num && e->sized && et.w != w) lint(i->line, "enum member " + n + " is sized differently from its enum");
                    }
                    if (next < 0 || ((u128)next & ~mask(w))) lint(i->line, "enum value of " + n + " does not fit");
                    if (!seen.insert((u128)next & mask(w)).second) lint(i->line, "enum value of " + n + " is not unique");
                    Sym c;
                    c.k = Sym::Const; c.val = (u128)next & mask(w); c.w = w; c.s = t.ty.sgn; c.en = i->en.name;
                    declare(sc, n, c, i->line);
                    next++;
                }
                declare(sc, i->en.name, t, i->line);
                break;
            }
            case Item::Struct: {
                Sym t;
                t.k = Sym::Type;
                auto st = std::make_shared<StructT>();
                st->name = i->st.name;
                std::set<std::string> seen;
                for (auto &m : i->st.m) { if (!seen.insert(m.name).second) lint(i->line, "field " + m.name + " twice in struct " + st->name); st->m.emplace_back(m.name, declType(m, sc)); st->w += st->m.back().second.w(); }
                int off = st->w;
                for (auto &m : st->m) { off -= m.second.w(); st->off.push_back(off); }
                t.ty.st = st; t.ty.ew = st->w;
                declare(sc, i->st.name, t, i->line);
                break;
            }
            case Item::Param: do_param(i->pa, sc, nullptr); break;
            case Item::Func: declare_func(i->fn, sc); break;
            default: break;
        }
    }
    void do_param(const ParamD &p, Scope *sc, const Sym *over) {
        if (p.is_type) {
            Sym t;
            t.k = Sym::Type;
            if (over) t = *over;
            else t.ty = type(p.tval, sc, p.line);
            declare(sc, p.name, t, p.line);
            return;
        }
        Sym c;
        c.k = Sym::Const;
        ETy vt{32, true};
        if (over) { c.val = over->val; vt = {over->w, over->s}; }
        else {
            if (!p.val) { lint(p.line, "parameter " + p.name + " has no value"); }
            else {
                vt = self(p.val, sc);
                auto x = low(p.val, vt.w, vt.s, sc);
                if (!is_const(x)) err(p.line, "parameter value is not constant");
                c.val = fold(x);
            }
        }
        if (!p.t.name.empty() || !p.t.pk.empty()) {
            Ty t = type(p.t, sc, p.line);
            c.val = (vt.s ? (u128)sext(c.val, vt.w) : c.val) & mask(t.w());
            c.w = t.w(); c.s = t.sgn; c.en = t.en;
        } else { c.w = vt.w; c.s = vt.s; c.en = over ? over->en : ""; }
        declare(sc, p.name, c, p.line);
    }
    void declare_func(const FuncD &f, Scope *sc) {
        Sym s;
        s.k = Sym::Func;
        if (f.dpi) { s.fn = -1; if (!f.is_void) { auto t = type(f.ret, sc, f.line); s.w = t.w(); s.s = t.sgn; } declare(sc, f.name, s, f.line); return; }
        s.fn = (int)d.funcs.size();
        Func fn;
        fn.name = f.name;
        std::set<std::string> seen;
        for (auto &a : f.args) {
            auto t = declType(a, sc);
            if (a.dir != "input") throw Unsupported("function output argument");
            if (!seen.insert(a.name).second) lint(f.line, "argument " + a.name + " twice");
            fn.args.push_back(d.add_sig(sc->prefix + f.name + "#" + a.name, t.w(), t.sgn));
            fargs[s.fn].push_back(a.name);
        }
        fargs[s.fn];
        if (!f.is_void) { s.ty = type(f.ret, sc, f.line); fn.ret = d.add_sig(sc->prefix + f.name + "#ret", s.ty.w(), s.ty.sgn); }
        d.funcs.push_back(fn);
        declare(sc, f.name, s, f.line);
    }
    void func_body(const FuncD &f, Scope *sc) {
        if (f.dpi) return;
        auto *s = look(sc, f.name);
        auto *in = new Scope;
        keep.emplace_back(in);
        in->up = sc; in->prefix = sc->prefix; in->mod = sc->mod + "." + f.name;
        for (size_t i = 0; i < f.args.size(); i++) {
            Sym a;
            a.sig = d.funcs[s->fn].args[i]; a.ty = declType(f.args[i], sc); a.loopvar = true;
            in->m[f.args[i].name] = a;
        }
        Sym r;
        r.sig = d.funcs[s->fn].ret; r.ty = s->ty; r.loopvar = true;
        in->m["#ret"] = r;
        if (r.sig >= 0) in->m[f.name] = r;
        int fn = s->fn, save = cur_drv;
        int id = new_drv("function " + f.name, true, false);
        auto b = stmt(f.body, in);
        d.funcs[fn].body = b;
        for (auto &[sg, m] : drv) { auto it = m.find(id); if (it != m.end()) fwrites[fn][sg] |= it->second; m.erase(id); }
        cur_drv = save;
    }
    // ---- modules
    struct Bind { bool alias = false; int sig = -1; Sym sym; };
    void labels(const S &s, Scope *sc) {
        if (!s) return;
        if (s->k == Stmt::Block && !s->label.empty()) {
            if (!label_names[sc].insert(s->label).second || sc->m.count(s->label)) lint(s->line, "block label '" + s->label + "' is already used in " + sc->mod);
        }
        for (auto &b : s->body) labels(b, sc);
        for (auto &i : s->items) labels(i.second, sc);
        labels(s->dflt, sc);
    }
    std::map<Scope *, std::set<std::string>> label_names;

    // over: parameter overrides; bind: port -> symbol (aliases/interfaces)
    std::shared_ptr<Scope> module(const Module &m, const std::string &prefix, const std::map<std::string, Sym> &over, const std::map<std::string, Sym> &bind, bool top) {
        if (++depth > 24) throw ParseError("recursive instantiation of " + m.name);
        auto sp = std::make_shared<Scope>();
        Scope *sc = sp.get();
        allscopes.push_back(sp);
        Scope *up = &unit;
        for (auto &im : m.imports) {
            auto it = packages.find(im);
            if (it == packages.end()) { lint(m.line, "import of unknown package " + im); continue; }
            auto *l = new Scope(it->second);
            keep.emplace_back(l);
            l->up = up;
            up = l;
        }
        sc->up = up; sc->prefix = prefix; sc->mod = m.name; sc->iface = m.iface;
        for (auto &p : m.params) { auto it = over.find(p.name); do_param(p, sc, it == over.end() || p.local ? nullptr : &it->second); }
        for (auto &o : over) { bool f = false; for (auto &p : m.params) f |= p.name == o.first; if (!f) lint(m.line, "module " + m.name + " has no parameter " + o.first); }
        for (auto &p : m.ports) {
            Ty t = declType(p, sc);
            Sym s;
            if (!t.iface.empty()) {
                auto it = bind.find(p.name);
                if (it != bind.end()) {
                    s = it->second;
                    if (s.k != Sym::Iface || s.sc->mod != t.iface) err(p.line, "interface port " + p.name + " of " + m.name + " is not connected to an instance of " + t.iface);
                    if (!t.modport.empty()) {
                        if (!s.modport.empty() && s.modport != t.modport) lint(p.line, "modport mismatch on " + p.name);
                        s.modport = t.modport;
                    }
                } else if (top) {
                    s.k = Sym::Iface;
                    s.sc = module(*src.mods.at(t.iface), prefix + p.name + ".", {}, {}, false);
                    s.modport = t.modport;
                    if (!t.modport.empty()) {
                        auto mp = s.sc->modports.find(t.modport);
                        if (mp == s.sc->modports.end()) err(p.line, "no modport " + t.modport + " in " + t.iface);
                        for (auto &[n, dir] : mp->second) { auto &q = s.sc->m.at(n); d.ports[p.name + "." + n] = {q.sig, q.ty.w(), q.ty.sgn, dir == "input", ""}; }
                    }
                } else { lint(p.line, "interface port " + p.name + " is unconnected"); s.k = Sym::Iface; s.sc = module(*src.mods.at(t.iface), prefix + p.name + ".", {}, {}, false); s.modport = t.modport; }
                declare(sc, p.name, s, p.line);
                continue;
            }
            if (p.dir.empty()) err(p.line, "port " + p.name + " has no direction");
            s.ty = t;
            s.input = p.dir == "input";
            auto it = bind.find(p.name);
            if (it != bind.end()) s.sig = it->second.sig;
            else s.sig = d.add_sig(prefix + p.name, t.w(), t.sgn);
            if (top) {
                std::string ty = t.st ? t.st->name : t.en;
                for (int u : t.unp) ty += "[" + std::to_string(u) + "]";
                d.ports[p.name] = {s.sig, t.w(), t.sgn, s.input, ty};
                if (s.input) top_in.insert(s.sig);
            }
            declare(sc, p.name, s, p.line);
        }
        for (auto &i : m.items) if (i->k == Item::Modport) for (auto &[n, dir] : i->mp) sc->modports[i->name][n] = dir;
        items(m.items, sc, m);
        for (auto &i : m.items) if (i->k == Item::Modport) for (auto &[n, dir] : i->mp) if (!sc->m.count(n)) lint(i->line, "modport names unknown signal " + n);
        if (!m.end_name.empty() && m.end_name != m.name) lint(m.line, "end name " + m.end_name);
        depth--;
        return sp;
    }
    std::set<int> top_in;
    std::vector<std::shared_ptr<Scope>> allscopes;
    void items(const std::vector<I> &its, Scope *sc, const Module &m) {
        // declarations
        for (auto &i : its) {
            decl_item(i, sc);
            if (i->k == Item::Decl) for (auto &x : i->ds) {
                Sym s;
                s.ty = declType(x, sc);
                if (!s.ty.iface.empty()) err(x.line, "interface instance without port list");
                s.net = x.net;
                s.sig = d.add_sig(sc->prefix + x.name, s.ty.w(), s.ty.sgn);
                declare(sc, x.name, s, x.line);
            }
            if (i->k == Item::Property && !i->name.empty()) { Sym s; s.k = Sym::Type; declare(sc, i->name, s, i->line); }
        }
        for (auto &i : its) if (i->k == Item::Inst) {
            auto it = src.mods.find(i->inst.mod);
            if (it != src.mods.end() && it->second->iface) instance(i->inst, *it->second, sc);
        }
        for (auto &i : its) if (i->k == Item::Func) func_body(i->fn, sc);
        for (auto &i : its) if (i->k == Item::Inst) {
            auto it = src.mods.find(i->inst.mod);
            if (it == src.mods.end()) { ext(i->inst, sc); continue; }
            if (!it->second->iface) instance(i->inst, *it->second, sc);
        }
        for (auto &i : its) {
            switch (i->k) {
                case Item::Decl:
                    for (auto &x : i->ds) if (x.init) {
                        auto id = std::make_shared<Expr>();
                        id->k = Expr::Id; id->s = x.name; id->line = x.line;
                        new_drv("initialiser of " + x.name, !x.net, x.net);
                        Proc p;
                        p.k = x.net ? Proc::Assign : Proc::Initial; p.line = i->line;
                        p.body = assign(id, x.init, false, i->line, sc, true);
                        add_proc(p);
                    }
                    break;
                case Item::Assign: {
                    new_drv("assign at line " + std::to_string(i->line) + " of " + sc->prefix + sc->mod, false, true);
                    Proc p;
                    p.k = Proc::Assign; p.line = i->line;
                    p.body = assign(i->lhs, i->rhs, false, i->line, sc, true);
                    add_proc(p);
                    break;
                }
                case Item::Always: {
                    Proc p;
                    p.line = i->line;
                    p.k = i->kind == "always_comb" ? Proc::Comb : i->kind == "always_latch" ? Proc::Latch : i->kind == "initial" ? Proc::Initial : i->kind == "final" ? Proc::Final : Proc::Ff;
                    new_drv(i->kind + " at line " + std::to_string(i->line) + " of " + sc->prefix + sc->mod, p.k == Proc::Initial || p.k == Proc::Final, false);
                    if (p.k == Proc::Ff) {
                        if (i->sens.empty()) {
                            if (i->kind == "always_ff") err(i->line, "always_ff without event control");
                            throw Unsupported("always without event control");
                        }
                        bool anyedge = false;
                        for (auto &s : i->sens) {
                            if (s.first.empty() && i->kind == "always_ff") lint(i->line, "level event in always_ff");
                            anyedge |= !s.first.empty();
                            auto x = lowSelf(s.second, sc);
                            if (x->w > 1 && !s.first.empty()) x = part(x, nullptr, 0, 1);
                            p.sens.emplace_back(x, s.first == "posedge" ? Edge::Pos : s.first == "negedge" ? Edge::Neg : Edge::Any);
                        }
                        if (!anyedge) { p.k = Proc::Comb; p.sens.clear(); }
                    }
                    labels(i->body, sc);
                    p.body = stmt(i->body, sc);
                    add_proc(p);
                    break;
                }
                case Item::For: {
                    if (i->name == "generate") { items(i->items, sc, m); break; }
                    if (!i->label.empty()) { if (!label_names[sc].insert(i->label).second || sc->m.count(i->label)) lint(i->line, "generate label '" + i->label + "' is already used"); }
                    i128 v = ceval(i->init, sc);
                    for (int n = 0;; n++) {
                        if (n > 256) throw ParseError("generate loop does not end");
                        auto *in = new Scope;
                        keep.emplace_back(in);
                        in->up = sc; in->mod = sc->mod;
                        in->prefix = sc->prefix + (i->label.empty() ? "genblk" : i->label) + "[" + std::to_string((long)v) + "].";
                        Sym g;
                        g.k = Sym::Const; g.val = (u128)v & mask(32); g.w = 32; g.s = true;
                        in->m[i->var] = g;
                        if (!ceval(i->cond, in)) break;
                        items(i->items, in, m);
                        v = ceval(i->step, in);
                    }
                    break;
                }
                default: break;
            }
        }
    }
    std::map<std::string, Sym> overrides(const Inst &n, const Module &m, Scope *sc) {
        std::map<std::string, Sym> r;
        size_t k = 0;
        for (auto &c : n.params) {
            std::string name = c.name;
            if (name.empty()) { if (k >= m.params.size()) err(n.line, "too many parameters"); name = m.params[k++].name; }
            const ParamD *pd = nullptr;
            for (auto &p : m.params) if (p.name == name) pd = &p;
            if (!pd) { lint(n.line, "module " + m.name + " has no parameter " + name); continue; }
            Sym s;
            if (pd->is_type) {
                s.k = Sym::Type;
                TypeRef t;
                t.name = c.e->s; t.sgn = c.e->sgn;
                if (c.e->k == Expr::TypeCast && c.e->a.size() == 2) t.pk.push_back({c.e->a[0], c.e->a[1]});
                s.ty = type(t, sc, n.line);
            } else {
                s.k = Sym::Const;
                auto t = self(c.e, sc);
                auto x = low(c.e, t.w, t.s, sc);
                if (!is_const(x)) err(n.line, "parameter override is not constant");
                s.val = fold(x); s.w = t.w; s.s = t.s;
                if (c.e->k == Expr::Id) if (auto *q = look(sc, c.e->s)) s.en = q->en;
            }
            if (r.count(name)) lint(n.line, "parameter " + name + " given twice");
            r[name] = s;
        }
        return r;
    }
    void ext(const Inst &n, Scope *sc) {
        if (externals.count(n.mod)) { return; }
        err(n.line, "instance " + n.name + " of unknown module '" + n.mod + "'");
    }
    std::set<std::string> externals;
    void instance(const Inst &n, const Module &m, Scope *sc) {
        auto over = overrides(n, m, sc);
        std::string pre = sc->prefix + n.name + ".";
        std::map<std::string, Sym> bind;
        std::set<std::string> seen;
        // port types need the child's parameters: build a scratch scope
        Scope ps;
        ps.up = &unit;
        std::vector<std::unique_ptr<Scope>> tmp;
        Scope *up = &unit;
        for (auto &im : m.imports) { auto it = packages.find(im); if (it != packages.end()) { tmp.emplace_back(new Scope(it->second)); tmp.back()->up = up; up = tmp.back().get(); } }
        ps.up = up; ps.prefix = pre; ps.mod = m.name;
        { auto save = d.lint; for (auto &p : m.params) { auto it = over.find(p.name); do_param(p, &ps, it == over.end() ? nullptr : &it->second); } d.lint = save; }
        std::vector<std::pair<const Port *, const Conn *>> todo;
        size_t k = 0;
        for (auto &c : n.conns) {
            const Port *p = nullptr;
            if (c.name == "*") throw Unsupported(".*");
            if (c.name.empty()) { if (k < m.ports.size()) p = &m.ports[k++]; }
            else for (auto &q : m.ports) if (q.name == c.name) p = &q;
            if (!p) { lint(n.line, "module " + m.name + " has no port " + c.name); continue; }
            if (!seen.insert(p->name).second) lint(n.line, "port " + p->name + " of " + n.name + " connected twice");
            if (c.has) todo.emplace_back(p, &c);
        }
        struct Later { const Port *p; const Conn *c; int sig; Ty t; };
        std::vector<Later> later;
        for (auto &[p, c] : todo) {
            Ty t = declType(*p, &ps);
            if (!t.iface.empty()) {
                Sym s;
                const E &e = c->e;
                if (e->k == Expr::Id) { auto *q = look(sc, e->s); if (!q || q->k != Sym::Iface) err(n.line, "'" + e->s + "' is not an interface"); s = *q; }
                else if (e->k == Expr::Member && e->a[0]->k == Expr::Id) {
                    auto *q = look(sc, e->a[0]->s);
                    if (!q || q->k != Sym::Iface) err(n.line, "'" + e->a[0]->s + "' is not an interface");
                    s = *q;
                    if (!s.sc->modports.count(e->s)) err(n.line, "no modport " + e->s);
                    if (!s.modport.empty() && s.modport != e->s) lint(n.line, "modport of a modport");
                    s.modport = e->s;
                } else err(n.line, "bad interface connection");
                bind[p->name] = s;
                continue;
            }
            bool in = p->dir == "input";
            Ref r;
            bool isref = c->e->k == Expr::Id || c->e->k == Expr::Member || c->e->k == Expr::Index || c->e->k == Expr::Range;
            if (isref) r = ref(c->e, sc);
            if (isref && r.ok && !r.ty.unp.empty() != !t.unp.empty()) lint(n.line, "packed/unpacked mismatch on port " + p->name);
            if (isref && r.ok && r.ty.unp != t.unp && !t.unp.empty()) lint(n.line, "unpacked shape mismatch on port " + p->name);
            if (isref && r.ok && !t.en.empty() && in && r.ty.en != t.en) lint(n.line, "enum port " + p->name + " connected to a different type");
            auto et = isref && r.ok ? ETy{r.ty.w(), r.ty.sgn} : self(c->e, sc);
            if (et.w != t.w()) d.notes.push_back("line " + std::to_string(n.line) + ": width mismatch on port " + p->name + " of " + n.name);
            if (isref && r.ok && !r.cexpr && !r.off && r.lo == 0 && r.ty.w() == t.w() && d.sigs[r.sig].w == t.w()) {
                Sym s;
                s.sig = r.sig;
                bind[p->name] = s;
                if (!in && r.input) lint(n.line, "output port " + p->name + " of " + n.name + " drives an input");
                if (!in) alias_out.push_back({r.sig, n.name + "." + p->name});
                continue;
            }
            if (!in && !(isref && r.ok) && c->e->k != Expr::Concat) err(n.line, "output port " + p->name + " of " + n.name + " connected to an expression");
            int sig = d.add_sig(pre + p->name, t.w(), t.sgn);
            Sym s;
            s.sig = sig;
            bind[p->name] = s;
            later.push_back({p, c, sig, t});
        }
        for (auto &l : later) {
            Proc pr;
            pr.k = Proc::Assign; pr.line = n.line;
            auto st = std::make_shared<RS>();
            st->k = RS::Assign; st->line = n.line;
            if (l.p->dir == "input") {
                new_drv("port " + l.p->name + " of " + pre, false, true);
                st->lhs.push_back({l.sig, nullptr, 0, l.t.w()});
                drv[l.sig][cur_drv] |= mask(l.t.w());
                Ref r;
                if (unpacked_ref(l.c->e, sc, r)) st->rhs = resize(refval(r), l.t.w(), false);
                else st->rhs = assign_conv(l.c->e, l.t.w(), sc);
            } else {
                new_drv("output " + l.p->name + " of " + pre, false, true);
                st->lhs = lvals(l.c->e, sc);
                int w = 0;
                for (auto &x : st->lhs) w += x.w;
                st->rhs = resize(sigx(l.sig, l.t.w(), l.t.sgn), w, l.t.sgn);
            }
            pr.body = st;
            add_proc(pr);
        }
        auto child = module(m, pre, over, bind, false);
        Sym is;
        is.k = m.iface ? Sym::Iface : Sym::Inst;
        is.sc = child;
        declare(sc, n.name, is, n.line);
        if (m.iface) {}
    }
    std::vector<std::pair<int, std::string>> alias_out;
    void drivers() {
        for (auto &[sg, m] : drv) {
            u128 seen = 0;
            int first = -1;
            for (auto &[id, bits] : m) {
                if (drvs[id].initial) continue;
                if (seen & bits) { d.lint.push_back("'" + d.sigs[sg].name + "' has more than one driver: " + drvs[first].where + " and " + drvs[id].where); break; }
                seen |= bits;
                if (first < 0) first = id;
            }
        }
        for (int s : top_in) if (drv.count(s)) for (auto &[id, bits] : drv[s]) if (bits) { d.lint.push_back("top input '" + d.sigs[s].name + "' is driven by " + drvs[id].where); break; }
    }
    Design run(const std::string &top, const std::map<std::string, u128> &params) {
        for (auto &i : src.unit) decl_item(i, &unit);
        for (auto &i : src.unit) if (i->k == Item::Func) func_body(i->fn, &unit);
        for (auto &n : src.order) {
            auto &m = *src.mods.at(n);
            if (!m.package) continue;
            Scope &s = packages[n];
            s.up = &unit; s.mod = n;
            for (auto &i : m.items) decl_item(i, &s);
            for (auto &i : m.items) if (i->k == Item::Func) func_body(i->fn, &s);
        }
        auto it = src.mods.find(top);
        if (it == src.mods.end()) throw ParseError("top module " + top + " is not defined");
        std::map<std::string, Sym> over;
        for (auto &[n, v] : params) { Sym s; s.k = Sym::Const; s.val = v; s.w = 32; s.s = true; over[n] = s; }
        unit.mod = "$unit";
        module(*it->second, "", over, {}, true);
        drivers();
        return std::move(d);
    }
};
}  // namespace
rtl::Design elaborate(const Source &src, const std::string &top, const std::map<std::string, rtl::u128> &params) {
    Elab e(src);
    return e.run(top, params);
}
}  // namespace sv
