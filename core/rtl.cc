#include "rtl.hh"
#include <algorithm>
namespace rtl {
std::string to_s(u128 v) {
    if (!v) return "0";
    std::string r;
    const char *h = "0123456789abcdef";
    bool hex = v > 9;
    while (v) { r += h[(int)(v & 15)]; v >>= 4; }
    std::reverse(r.begin(), r.end());
    return hex ? "0x" + r : r;
}
EP mk(Op op, int w, bool s, std::vector<EP> a) {
    auto e = std::make_shared<Expr>();
    e->op = op; e->w = w; e->s = s; e->a = std::move(a);
    if (w > 128) throw Unsupported("expression wider than 128 bits");
    return e;
}
EP cst(u128 v, int w, bool s) {
    auto e = std::make_shared<Expr>();
    e->op = Op::Const; e->w = w; e->s = s; e->val = v & mask(w);
    if (w > 128) throw Unsupported("constant wider than 128 bits");
    return e;
}
EP sigx(int sig, int w, bool s) {
    auto e = std::make_shared<Expr>();
    e->op = Op::Sig; e->w = w; e->s = s; e->sig = sig;
    return e;
}
EP part(EP base, EP off, int lo, int w) {
    auto e = std::make_shared<Expr>();
    e->op = Op::Part; e->w = w; e->lo = lo;
    e->a.push_back(base);
    if (off) e->a.push_back(off);
    return e;
}
EP resize(EP x, int w, bool from_signed) {
    if (x->w == w) return x;
    auto e = std::make_shared<Expr>();
    e->op = Op::Resize; e->w = w; e->s = from_signed;
    e->a.push_back(x);
    if (w > 128) throw Unsupported("expression wider than 128 bits");
    return e;
}
int Design::add_sig(const std::string &n, int w, bool s) {
    if (w > 128 || w < 1) throw Unsupported("signal width " + std::to_string(w) + " of " + n);
    sigs.push_back({n, w, s});
    return (int)sigs.size() - 1;
}
int Design::find(const std::string &n) const {
    for (size_t i = 0; i < sigs.size(); i++) if (sigs[i].name == n) return (int)i;
    return -1;
}
size_t StateHash::operator()(const State &s) const {
    uint64_t h = 1469598103934665603ull;
    for (auto x : s.v) { h = (h ^ (uint64_t)x) * 1099511628211ull; h ^= h >> 29; h = (h ^ (uint64_t)(x >> 64)) * 1099511628211ull; }
    for (auto x : s.prev) h = (h ^ x) * 1099511628211ull;
    return h ^ (h >> 31);
}
Sim::Sim(const Design &d) : d(d) { st.v.assign(d.sigs.size(), 0); }
uint8_t Sim::edge_val(const Expr &e) { return (uint8_t)(eval(e) & 1); }
void Sim::init(u128 fill, const std::vector<std::pair<int, u128>> &in) {
    for (size_t i = 0; i < st.v.size(); i++) st.v[i] = fill & mask(d.sigs[i].w);
    for (auto &[n, p] : d.ports) if (p.in) st.v[p.sig] = 0;
    for (auto &x : in) set(x.first, x.second);
    settled = true;
    nba_.clear();
    run_initial();
    comb();
    st.prev.clear();
    for (auto &p : d.procs) if (p.k == Proc::Ff) for (auto &s : p.sens) st.prev.push_back(edge_val(*s.first));
}
void Sim::run_initial() {
    for (auto &p : d.procs) if (p.k == Proc::Initial) { exec(*p.body); }
    flush();
}
void Sim::flush() {
    // non-blocking updates of one region apply in order
    auto n = std::move(nba_);
    nba_.clear();
    for (auto &x : n) write_at(x.sig, x.off, x.w, x.val);
}
void Sim::comb() {
    size_t limit = d.procs.size() * 2 + 16;
    auto fp = [&]() {
        uint64_t h = 0;
        for (auto x : st.v) { h = (h * 1099511628211ull) ^ (uint64_t)x ^ ((uint64_t)(x >> 64) * 31); h ^= h >> 27; }
        return h;
    };
    uint64_t before = fp();
    for (size_t it = 0; it < limit; it++) {
        for (auto &p : d.procs)
            if (p.k == Proc::Assign || p.k == Proc::Comb || p.k == Proc::Latch) exec(*p.body);
        flush();
        uint64_t after = fp();
        if (after == before) return;
        before = after;
    }
    settled = false;
}
void Sim::settle() {
    settled = true;
    for (int round = 0; round < 64; round++) {
        comb();
        if (!settled) return;
        std::vector<const Proc *> trig;
        size_t k = 0;
        for (auto &p : d.procs) {
            if (p.k != Proc::Ff) continue;
            bool t = false;
            for (auto &s : p.sens) {
                uint8_t now = edge_val(*s.first), &pv = st.prev[k++];
                if (s.second == Edge::Pos) t |= (!pv && now);
                else if (s.second == Edge::Neg) t |= (pv && !now);
                else t |= pv != now;
                pv = now;
            }
            if (t) trig.push_back(&p);
        }
        if (trig.empty()) return;
        for (auto *p : trig) exec(*p->body);
        flush();
    }
    settled = false;
}
void Sim::write_at(int sig, int64_t off, int w, u128 val) {
    int sw = d.sigs[sig].w;
    if (off < 0 || off + w > sw) { oob = true; return; }
    u128 m = mask(w) << off;
    st.v[sig] = (st.v[sig] & ~m) | ((val & mask(w)) << off);
}
Sim::Flow Sim::exec(const Stmt &s) {
    if (s.id >= 0 && hit) { if ((size_t)s.id >= hit->size()) hit->resize(s.id + 1); (*hit)[s.id] = 1; }
    switch (s.k) {
        case Stmt::Nop: case Stmt::Assert: return Next;
        case Stmt::Assign: {
            u128 v = eval(*s.rhs);
            int tot = 0;
            for (auto &l : s.lhs) tot += l.w;
            for (auto &l : s.lhs) {
                tot -= l.w;
                u128 x = (tot >= 128 ? 0 : v >> tot) & mask(l.w);
                int64_t off = l.lo;
                if (l.off) off += (int64_t)eval(*l.off);
                if (s.nba) nba_.push_back({l.sig, off, l.w, x});
                else write_at(l.sig, off, l.w, x);
            }
            return Next;
        }
        case Stmt::If:
            if (eval(*s.rhs)) return s.body[0] ? exec(*s.body[0]) : Next;
            return s.body.size() > 1 && s.body[1] ? exec(*s.body[1]) : Next;
        case Stmt::Case: {
            u128 v = eval(*s.rhs);
            const Stmt *m = nullptr;
            int n = 0;
            for (auto &it : s.items)
                for (auto &c : it.first)
                    if (eval(*c) == v) { if (!n++) m = it.second.get(); if (!s.unique) goto done; break; }
        done:
            if (s.unique && n != 1 && !(n == 0 && s.dflt)) {
                if (uniq.size() < 4) uniq.push_back("unique case with " + std::to_string(n) + " matches at line " + std::to_string(s.line));
            }
            if (m) return exec(*m);
            return s.dflt && !n ? exec(*s.dflt) : Next;
        }
        case Stmt::Block:
            for (auto &b : s.body) { auto f = exec(*b); if (f != Next) return f; }
            return Next;
        case Stmt::For: {
            exec(*s.body[0]);
            int n = 0;
            while (eval(*s.rhs)) {
                if (++n > 2000) { hang = true; return Next; }
                auto f = exec(*s.body[2]);
                if (f == Brk) break;
                if (f == Ret) return f;
                exec(*s.body[1]);
            }
            return Next;
        }
        case Stmt::ExprStmt: eval(*s.rhs); return Next;
        case Stmt::Return: if (s.rhs) ret_ = eval(*s.rhs); return Ret;
        case Stmt::Break: return Brk;
    }
    return Next;
}
u128 Sim::eval(const Expr &e) {
    auto A = [&]() { return eval(*e.a[0]); };
    auto B = [&]() { return eval(*e.a[1]); };
    u128 m = mask(e.w);
    switch (e.op) {
        case Op::Const: return e.val;
        case Op::Sig: return st.v[e.sig];
        case Op::Part: {
            int64_t off = e.lo;
            if (e.a.size() > 1) off += (int64_t)eval(*e.a[1]);
            if (off < 0 || off + e.w > e.a[0]->w) { oob = true; return 0; }
            return (A() >> off) & m;
        }
        case Op::Resize: {
            u128 v = A();
            if (e.s) return (u128)sext(v, e.a[0]->w) & m;
            return v & m;
        }
        case Op::Add: return (A() + B()) & m;
        case Op::Sub: return (A() - B()) & m;
        case Op::Mul: return (A() * B()) & m;
        case Op::Div: case Op::Mod: {
            u128 a = A(), b = B();
            if (!b) { oob = true; return 0; }
            if (e.s) {
                i128 x = sext(a, e.w), y = sext(b, e.w);
                return (u128)(e.op == Op::Div ? x / y : x % y) & m;
            }
            return (e.op == Op::Div ? a / b : a % b) & m;
        }
        case Op::Pow: { u128 a = A(), b = B(), r = 1; while (b--) r = (r * a) & m; return r & m; }
        case Op::And: return A() & B();
        case Op::Or: return A() | B();
        case Op::Xor: return A() ^ B();
        case Op::Xnor: return ~(A() ^ B()) & m;
        case Op::Not: return ~A() & m;
        case Op::Neg: return (0 - A()) & m;
        case Op::Shl: { u128 b = B(); return b >= (u128)e.w ? 0 : (A() << (int)b) & m; }
        case Op::LShr: { u128 b = B(); return b >= (u128)e.w ? 0 : A() >> (int)b; }
        case Op::AShr: {
            u128 b = B(), a = A();
            i128 x = sext(a, e.w);
            int sh = b >= 127 ? 127 : (int)b;
            return (u128)(x >> sh) & m;
        }
        case Op::Eq: return A() == B();
        case Op::Ne: return A() != B();
        case Op::Lt: case Op::Le: case Op::Gt: case Op::Ge: {
            u128 a = A(), b = B();
            int c;
            if (e.s) { i128 x = sext(a, e.a[0]->w), y = sext(b, e.a[1]->w); c = x < y ? -1 : x > y; }
            else c = a < b ? -1 : a > b;
            return e.op == Op::Lt ? c < 0 : e.op == Op::Le ? c <= 0 : e.op == Op::Gt ? c > 0 : c >= 0;
        }
        case Op::LAnd: return A() && B();
        case Op::LOr: return A() || B();
        case Op::LNot: return !A();
        case Op::RAnd: return A() == mask(e.a[0]->w);
        case Op::RNand: return A() != mask(e.a[0]->w);
        case Op::ROr: return A() != 0;
        case Op::RNor: return A() == 0;
        case Op::RXor: case Op::RXnor: {
            u128 a = A();
            int p = (__builtin_popcountll((uint64_t)a) + __builtin_popcountll((uint64_t)(a >> 64))) & 1;
            return e.op == Op::RXor ? p : !p;
        }
        case Op::Cond: return A() ? B() : eval(*e.a[2]);
        case Op::Concat: {
            u128 r = 0;
            for (auto &x : e.a) r = (x->w >= 128 ? 0 : r << x->w) | eval(*x);
            return r & m;
        }
        case Op::Clog2: { u128 a = A(); int r = 0; u128 p = 1; while (p < a) { p <<= 1; r++; } return r; }
        case Op::Call: {
            auto &f = d.funcs[e.sig];
            std::vector<u128> args;
            for (auto &x : e.a) args.push_back(eval(*x));
            for (size_t i = 0; i < args.size(); i++) st.v[f.args[i]] = args[i] & mask(d.sigs[f.args[i]].w);
            u128 save = ret_;
            ret_ = 0;
            if (f.ret >= 0) st.v[f.ret] = 0;
            auto fl = exec(*f.body);
            u128 r = fl == Ret ? ret_ : (f.ret >= 0 ? st.v[f.ret] : 0);
            ret_ = save;
            for (auto a : f.args) st.v[a] = 0;   // arguments are no state
            if (f.ret >= 0) st.v[f.ret] = 0;
            return r & m;
        }
    }
    return 0;
}
}  // namespace rtl
