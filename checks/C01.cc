// C01: the text emitted for an expression computes what the expression tree means.
#include "dual.hh"
using namespace dual;
using rtl::EP;
static const std::vector<B> ARITH = {B::Add, B::Sub, B::Mul, B::Div, B::Mod, B::Shr, B::AShr, B::Shl, B::Or, B::And, B::Xor};
static const std::vector<B> REL = {B::Lt, B::Gt, B::Le, B::Ge, B::Eq, B::Ne};
static const std::vector<B> ALL = {B::Add, B::Sub, B::Mul, B::Div, B::Mod, B::Shr, B::AShr, B::Shl, B::Or, B::And, B::Xor, B::Lt, B::Gt, B::Le, B::Ge, B::Eq, B::Ne, B::Pow};
struct Env {
    Dual u;
    Generator *g;
    DX a, b, x, y, c;
    bool sgn;
    explicit Env(bool s) : sgn(s) {
        g = &u.ctx.generator("mod");
        a = u.port(*g, true, "a", 3, s);
        b = u.port(*g, true, "b", 3, s);
        c = u.port(*g, true, "c", 1);
    }
    // an operand of width w and sign s other than `a`
    DX leaf(int w, bool s, int kind) {
        if (kind == 1) return u.con(s ? (w == 1 ? -1 : -((1 << (w - 1)) - 1)) : ((1 << w) - 2) & ((1 << w) - 1), w, s);
        if (kind == 2) return u.con(s ? (w == 1 ? 0 : 1) : 1, w, s);
        if (w == 1 && !s) return c;
        DX v;
        if (w == 3) v = b;
        else if (w < 3) v = u.slice(b, w - 1, 0);
        else v = u.ext(b, w);
        if (v.s != s) v = u.cast(v, s);
        return v;
    }
};
// one more operator around e
static DX grow(mc::Ctx &c, Env &v, const DX &e, bool rich) {
    auto &u = v.u;
    int kind = c.choose(5, "operator class");
    if (kind == 0) {
        B op = c.pick(ALL, "operator");
        DX o = v.leaf(e.w, e.s, rich ? c.choose(3, "operand") : 0);
        if (op == B::Pow && e.s) c.skip();
        return c.flip("deep operand on the right") ? u.bin(op, o, e) : u.bin(op, e, o);
    }
    if (kind == 1) {
        U op = (U)c.choose(7, "unary operator");
        return u.un(op, e);
    }
    if (kind == 2) {
        switch (c.choose(5, "shape")) {
            case 0: { if (e.w > 7) c.skip(); DX o = v.leaf(2, e.psign >= 0 ? e.psign : e.s, 0); return u.cat(e, o); }
            case 1: { if (e.w > 7) c.skip(); DX o = v.leaf(2, e.s, 0); return u.cat(o, e); }
            case 2: if (e.w > 4) c.skip(); return u.dup(e, 2);
            case 3: return u.ext(e, e.w + 2);
            default: return u.cast(e, !e.s);
        }
    }
    if (kind == 3) {
        DX o = v.leaf(e.w, e.s, rich ? c.choose(3, "operand") : 0);
        switch (c.choose(3, "conditional position")) {
            case 0: return u.mux(v.c, e, o);
            case 1: return u.mux(v.c, o, e);
            default: {
                if (e.w != 1) c.skip();
                DX p = v.leaf(3, v.sgn, 0);
                return u.mux(e, v.a, p);
            }
        }
    }
    // logical operators take one-bit operands
    if (e.w != 1 || e.s) c.skip();
    B op = c.flip("and/or") ? B::LAnd : B::LOr;
    return c.flip("deep operand on the right") ? u.bin(op, v.c, e) : u.bin(op, e, v.c);
}
// where the expression is used
static void use(mc::Ctx &c, Env &v, const DX &e, int where, const std::string &key, const std::map<std::string, std::vector<rtl::u128>> &alphabet = {}) {
    auto &u = v.u;
    Check k;
    k.key = key + " " + e.t + (v.sgn ? " signed" : "") + " use " + std::to_string(where);
    k.emit.passes = minimal;
    k.opt.both_fills = false;
    k.opt.alphabet = alphabet;
    if (where == 0) {
        DX o = u.port(*v.g, false, "o", e.w, e.s);
        u.cont(*v.g, o, e);
    } else if (where == 1) {   // procedural
        DX o = u.port(*v.g, false, "o", e.w, e.s);
        u.comb(*v.g, {u.assign(o, e)});
    } else if (where == 2) {   // condition
        if (e.w != 1) c.skip();
        DX o = u.port(*v.g, false, "o", 2);
        u.comb(*v.g, {u.if_(e, {u.assign(o, u.con(1, 2))}, {u.assign(o, u.con(2, 2))})});
    } else if (where == 3) {   // connection of a child input
        auto &ch = u.ctx.generator("child");
        DX ci = u.port(ch, true, "ci", e.w, e.s), co = u.port(ch, false, "co", e.w, e.s);
        u.cont(ch, co, ci);
        v.g->add_child_generator("inst", ch.shared_from_this());
        DX o = u.port(*v.g, false, "o", e.w, e.s);
        u.cont(*v.g, ci, e);
        u.cont(*v.g, o, co);
    } else if (where == 4) {   // index of a bit selection
        if (e.w > 3 || e.s) c.skip();
        DX t = u.port(*v.g, true, "t", 1 << e.w);
        DX o = u.port(*v.g, false, "o", 1);
        u.cont(*v.g, o, u.bit(t, e));
        k.opt.alphabet["t"] = {};
        for (int i = 0; i < (1 << e.w); i++) k.opt.alphabet["t"].push_back((rtl::u128)1 << i);
    } else if (where == 5) {   // case selector
        if (e.w > 2 || e.s) c.skip();
        DX o = u.port(*v.g, false, "o", 2);
        std::vector<std::pair<DX, std::vector<DS>>> items;
        for (int i = 0; i < (1 << e.w) - 1; i++) items.push_back({u.con(i, e.w), {u.assign(o, u.con(i, 2))}});
        std::vector<DS> df = {u.assign(o, u.con(3, 2))};
        u.comb(*v.g, {u.switch_(e, items, &df)});
    } else {                   // register input
        DX clk = u.port(*v.g, true, "clk", 1, false, PortType::Clock);
        DX o = u.port(*v.g, false, "o", e.w, e.s);
        u.seq(*v.g, {{clk, true}}, {u.assign(o, e, true)});
        k.opt.clocks = {"clk"};
        if (!c.thorough) k.opt.alphabet["a"] = k.opt.alphabet["b"] = {0, 1, 3, 4, 7};
    }
    c.count("use " + std::to_string(where));
    if (e.k->width() != (uint32_t)e.w) c.fail(k.key + ":width", "the expression " + e.t + " reports width " + std::to_string(e.k->width()) + ", its value has " + std::to_string(e.w));
    if (e.k->is_signed() != e.s) c.fail(k.key + ":sign", "the expression " + e.t + " reports the wrong signedness");
    check(c, u, k, "expression " + e.t + (v.sgn ? " over signed operands" : ""));
}
static void chain(mc::Ctx &c, int depth, bool rich, int uses, const std::string &key) {
    bool s = c.flip("signed operands");
    Env v(s);
    DX e = v.a;
    accepted(c, key + ":rejected " + std::to_string(depth), "a well-typed expression is rejected", [&] {
        for (int i = 0; i < depth; i++) { e = grow(c, v, e, rich); if (e.w > 10) c.skip(); }
        int where = uses > 1 ? c.choose(uses, "use") : 0;
        use(c, v, e, where, key);
    });
}
int main(int argc, char **argv) {
    std::vector<mc::Family> f;
    f.push_back({"single", [](mc::Ctx &c) { chain(c, 1, true, 7, "single"); }, 3});
    f.push_back({"nest2", [](mc::Ctx &c) { chain(c, 2, true, 1, "nest2"); }, 4});
    f.push_back({"uses2", [](mc::Ctx &c) { chain(c, 2, c.thorough, 7, "uses2"); }, 4});
    f.push_back({"nest3", [](mc::Ctx &c) { chain(c, 3, c.thorough, 1, "nest3"); }, 5});
    // operands of different widths: the narrower one is extended
    f.push_back({"resize", [](mc::Ctx &c) {
        Env v(c.flip("signed operands"));
        auto &u = v.u;
        bool s2 = c.flip("other sign") ? !v.sgn : v.sgn;
        int nk = c.choose(5, "narrow operand"), ww = nk == 4 ? 8 : 5;
        DX w = u.port(*v.g, true, "w", ww, s2), n, e;
        switch (nk) {
            case 0: n = v.a; break;
            case 1: n = u.con(v.sgn ? -2 : 3, 3, v.sgn); break;
            case 2: n = u.bin(B::Add, v.a, v.b); break;
            case 3: n = u.slice(v.a, 2, 1); break;
            default: n = u.cat(v.a, c.flip("cat order") ? v.a : v.b); break;
        }
        DX wide = u.ext(n, w.w);
        wide.k = n.k;                        // the library is given the narrow one, the reference the extended one
        wide.t = n.t;
        B op = c.pick(ALL, "operator");
        bool right = c.flip("narrow operand on the right");
        accepted(c, "resize:rejected", "operands of different widths are rejected", [&] {
            e = right ? u.bin(op, w, wide) : u.bin(op, wide, w);
            if (op == B::Pow && (right ? wide.s : w.s)) c.skip();
            if (c.flip("nested")) { DX x = v.leaf(e.w, e.s, 2); e = c.flip("nested right") ? u.bin(B::Sub, x, e) : u.bin(B::Sub, e, x); }
            static const std::vector<rtl::u128> few = {0, 1, 2, 5, 14, 16, 17, 31}, more = {0, 1, 2, 7, 63, 127, 128, 129, 255};
            use(c, v, e, c.choose(3, "use"), "resize", {{"w", ww == 8 ? more : few}});
        });
    }, 4});
    // two deep operands
    f.push_back({"tree", [](mc::Ctx &c) {
        Env v(c.flip("signed operands"));
        auto &u = v.u;
        DX e;
        accepted(c, "tree:rejected", "a well-typed expression is rejected", [&] {
            B o2 = c.pick(ARITH, "left operator");
            DX l = u.bin(o2, v.a, v.b);
            B o3 = c.pick(ARITH, "right operator");
            DX r = u.bin(o3, v.b, c.flip("constant") ? u.con(3, 3, v.sgn) : v.a);
            B o1 = c.pick(ALL, "operator");
            e = u.bin(o1, l, r);
            use(c, v, e, 0, "tree");
        });
    }, 3});
    // several expressions over the same variables: what one of them builds must not show in another
    f.push_back({"sharing", [](mc::Ctx &c) {
        Env v(false);
        auto &u = v.u;
        auto make = [&](int i) -> DX {
            auto &a = v.a, &b = v.b;
            switch (i) {
                case 0: return u.cat(a, b);
                case 1: return u.cat(u.cat(a, v.c), b);
                case 2: return u.cat(u.cat(a, b), v.c);
                case 3: return u.cat(a, u.cat(b, v.c));
                case 4: return u.cat(b, a);
                case 5: return u.cat(u.slice(a, 1, 0), b);
                case 6: return u.cat(u.slice(a, 2, 1), u.slice(b, 0, 0));
                case 7: return u.ext(a, 5);
                case 8: return u.ext(a, 6);
                case 9: return u.ext(u.bin(B::Add, a, b), 5);
                case 10: return u.slice(a, 1, 0);
                case 11: return u.slice(a, 2, 1);
                case 12: return u.bit(a, u.slice(b, 1, 0));
                case 13: return u.bin(B::Shr, u.cast(a, true), u.cast(b, true));
                case 14: return u.bin(B::AShr, u.cast(a, true), u.con(1, 3, true));
                case 15: return u.bin(B::AShr, u.cast(u.cast(a, true), false), b);
                case 16: return u.dup(a, 2);
                case 17: return u.dup(u.slice(a, 1, 0), 3);
                case 18: return u.bin(B::Add, a, u.con(5, 3));
                case 19: { DX n = u.con(5, 3), w = u.ext(n, 5); w.k = n.k; return u.bin(B::Add, u.ext(a, 5), w); }
                case 20: { DX w = u.ext(a, 5); w.k = a.k; return u.bin(B::Sub, u.ext(b, 5), w); }
                case 21: return u.mux(v.c, a, u.con(5, 3));
                case 22: return u.mux(u.slice(a, 0, 0), b, a);
                case 23: return u.bin(B::Lt, u.cast(a, true), u.cast(b, true));
                default: return u.bin(B::Sub, u.bin(B::Sub, a, b), a);
            }
        };
        int n = 3, base = 25;
        std::string t;
        Check k;
        accepted(c, "sharing:rejected", "expressions that share their operands are rejected", [&] {
            DX keep;
            for (int i = 0; i < n; i++) {
                int m = c.choose(base, "expression");
                DX e = make(m);
                if (i == 0) keep = e;
                t += " " + std::to_string(m);
                DX o = u.port(*v.g, false, "o" + std::to_string(i), e.w, e.s);
                if ((uint32_t)e.w != e.k->width()) c.fail("sharing width" + t, "the expression " + e.t + " reports width " + std::to_string(e.k->width()) + ", its value has " + std::to_string(e.w));
                u.cont(*v.g, o, e);
            }
            // the first one once more, as the same object and nested
            int again = c.choose(4, "again");
            DX e = keep;
            if (again == 1) e = u.bin(B::Sub, keep, keep);
            if (again == 2) e = u.cat(keep, keep);
            if (again == 3) { DX x = u.ext(v.b, keep.w + 3), y = u.ext(keep, keep.w + 3); y.k = keep.k; e = u.bin(B::Xor, x, y); }
            t += " again " + std::to_string(again);
            DX o = u.port(*v.g, false, "z", e.w, e.s);
            u.cont(*v.g, o, e);
        });
        k.key = "sharing" + t;
        k.emit.passes = minimal;
        k.opt.both_fills = false;
        check(c, u, k, "expressions" + t);
    }, 3});
    return mc::run("C01", f, argc, argv, "model_checking",
                   {"expressions up to the stated nesting over three-bit operands; every input value; two-state values",
                    "the SystemVerilog reading is that of core/svparse.cc and core/svelab.cc"});
}
