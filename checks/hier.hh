// A top module with ports a, b, c, o, p around child modules of many kinds, wired in every way.
#pragma once
#include "dual.hh"
using namespace dual;
struct Child {
    std::shared_ptr<Generator> g;
    DX x, e, q, r;
};
struct Top {
    Dual u;
    Generator *g;
    DX a, b, c, o, p;
    std::string t;
    int uid = 0;
    bool small = false;   // the design keeps state: fewer input values
    Top() {
        g = &u.ctx.generator("mod");
        a = u.port(*g, true, "a", 4);
        b = u.port(*g, true, "b", 2);
        c = u.port(*g, true, "c", 1);
        o = u.port(*g, false, "o", 4);
        p = u.port(*g, false, "p", 4);
    }
    // a child with inputs x, e and outputs q, r; what is inside is up to the kind
    Child child(const std::string &mod, const std::string &inst, Generator *parent = nullptr, int kind = 0) {
        Child k;
        auto &m = u.ctx.generator(mod);
        m.instance_name = inst;
        k.g = m.shared_from_this();
        k.x = u.port(m, true, "x", 4);
        k.e = u.port(m, true, "e", 1);
        k.q = u.port(m, false, "q", 4);
        k.r = u.port(m, false, "r", 1);
        body(k, kind);
        (parent ? parent : g)->add_child_generator(inst, k.g);
        return k;
    }
    static constexpr int NKIND = 22;
    static const char *kind_name(int n) {
        static const char *t[] = {"logic", "feed-through", "inverting", "inverted e", "process", "split", "swapped halves", "two uses", "inner variables", "if", "switch", "latch", "register", "function",
                                  "inner a", "array", "conditional", "index", "constant", "unused e", "for", "feed-through processes"};
        return t[n];
    }
    void body(Child &k, int kind) {
        auto &m = *k.g;
        auto &x = k.x, &e = k.e, &q = k.q, &r = k.r;
        auto X = [&] { u.cont(m, r, u.un(U::RXor, x)); };
        switch (kind) {
            case 0: u.cont(m, q, u.mux(e, u.un(U::Inv, x), u.bin(B::Add, x, u.con(1, 4)))); X(); break;
            case 1: u.cont(m, q, x); u.cont(m, r, e); break;
            case 2: u.cont(m, q, u.un(U::Inv, x)); u.cont(m, r, e); break;
            case 3: u.cont(m, q, x); u.cont(m, r, u.un(U::Inv, e)); break;
            case 4: u.comb(m, {u.assign(q, x), u.assign(r, e)}); break;
            case 5: u.cont(m, u.slice(q, 1, 0), u.slice(x, 1, 0)); u.cont(m, u.slice(q, 3, 2), u.slice(x, 3, 2)); u.cont(m, r, e); break;
            case 6: u.cont(m, q, u.cat(u.slice(x, 1, 0), u.slice(x, 3, 2))); u.cont(m, r, e); break;
            case 7: u.cont(m, q, x); u.cont(m, r, u.slice(x, 2, 2)); break;
            case 8: { DX v = u.var(m, "v", 4), w = u.var(m, "w", 4); u.cont(m, v, u.bin(B::Sub, x, u.ext(e, 4))); u.cont(m, w, u.bin(B::Xor, v, x)); u.cont(m, q, u.bin(B::Add, w, v)); u.cont(m, r, u.slice(w, 1, 1)); break; }
            case 9: u.comb(m, {u.if_(e, {u.assign(q, u.un(U::Neg, x))}, {u.if_(u.bin(B::Gt, x, u.con(6, 4)), {u.assign(q, u.con(3, 4))}, {u.assign(q, x)})})}); X(); break;
            case 10: u.comb(m, {u.assign(q, u.con(0, 4)), u.switch_(x, {{u.con(1, 4), {u.assign(q, u.con(9, 4))}}, {u.con(8, 4), {u.assign(q, x)}}}, nullptr), u.switch_(u.slice(x, 1, 0), {{u.con(2, 2), {u.assign(u.slice(q, 2, 2), e)}}}, nullptr)}); X(); break;
            case 11: u.latch(m, {u.if_(e, {u.assign(q, x)}, {})}); X(); small = true; break;
            case 12: u.seq(m, {{e, true}}, {u.assign(q, u.bin(B::Add, x, u.con(1, 4)), true)}); u.cont(m, r, e); small = true; break;
            case 13: { auto f = u.func(m, "pick", {{"y", 4, false}, {"z", 1, false}}, 4, false); u.func_body(f, {u.if_(f.args[1], {u.ret(f, u.bin(B::Sub, f.args[0], u.con(2, 4)))}, {u.ret(f, f.args[0])})}); u.cont(m, q, u.call(m, f, {x, e})); X(); break; }
            case 14: { DX v = u.var(m, "a", 4), w = u.var(m, "o", 4), z = u.var(m, "inst_a", 4); u.cont(m, v, u.un(U::Inv, x)); u.cont(m, w, u.bin(B::And, v, u.con(11, 4))); u.cont(m, z, u.bin(B::Or, w, u.ext(e, 4))); u.cont(m, q, z); u.cont(m, r, u.slice(v, 0, 0)); break; }
            case 15: { DX v = u.arr(m, 0, "tab", 4, {2}); u.cont(m, u.elem(v, 0, 4), x); u.cont(m, u.elem(v, 1, 4), u.un(U::Inv, x)); u.cont(m, q, u.elem(v, e, 4)); X(); break; }
            case 16: u.comb(m, {u.assign(q, x), u.if_(e, {u.assign(u.slice(q, 1, 0), u.slice(x, 3, 2))}, {}), u.assign(r, u.slice(q, 0, 0))}); break;
            case 17: u.cont(m, q, u.cat(u.slice(x, 3, 1), u.bit(x, u.slice(x, 1, 0)))); u.cont(m, r, u.bin(B::And, u.bit(x, u.cat(e, e)), e)); break;
            case 18: u.cont(m, q, u.con(12, 4)); u.cont(m, r, e); break;
            case 19: u.cont(m, q, x); u.cont(m, r, u.con(1, 1)); break;
            case 20: u.comb(m, {u.for_("i", 0, 4, 1, [&](const DX &i) { return std::vector<DS>{u.assign(u.bit(q, i), u.bin(B::Xor, u.bit(x, i), e))}; })}); X(); break;
            default: u.comb(m, {u.assign(q, x)}); u.comb(m, {u.assign(r, e)}); break;
        }
    }
    DX fresh(int w) { return u.var(*g, "v" + std::to_string(uid++), w); }
    // connections go through the library's own direction inference, or are given explicitly
    void join(const DX &l, const DX &r, bool wired, bool swap, Generator *in = nullptr) {
        if (!in) in = g;
        if (!wired) { u.cont(*in, l, r); return; }
        // wire() takes the direction from its arguments' order only
        auto [dir, ok] = in->correct_wire_direction((swap ? r : l).p(), (swap ? l : r).p());
        if (!ok) throw std::runtime_error("the connection is refused");
        auto x = swap ? r : l, y = swap ? l : r;
        if (dir) in->wire(*x.k, *y.k); else in->wire(*y.k, *x.k);
        rtl::Proc p;
        p.k = rtl::Proc::Assign;
        p.body = rassign(l.lv, r.r, false);
        u.d.procs.push_back(p);
    }
    static constexpr int NSRC4 = 16, NSRC1 = 8, NSINK4 = 25, NSINK1 = 5;
    void drive4(mc::Ctx &x, const DX &port, int n, const DX *other) {
        auto S = [&](const DX &r) { u.cont(*g, port, r); };
        t += " in4:" + std::to_string(n);
        switch (n) {
            case 0: S(a); break;
            case 1: { DX v = fresh(4); u.cont(*g, v, u.un(U::Inv, a)); S(v); break; }
            case 2: S(u.con(5, 4)); break;
            case 3: S(u.bin(B::Add, a, u.con(3, 4))); break;
            case 4: { DX v = fresh(8); u.cont(*g, v, u.cat(a, u.cat(b, b))); S(u.slice(v, 5, 2)); break; }
            case 5: S(u.cat(u.slice(a, 1, 0), b)); break;
            case 6: u.cont(*g, u.slice(port, 1, 0), b); u.cont(*g, u.slice(port, 3, 2), u.slice(a, 2, 1)); break;
            case 7: { DX v = u.arr(*g, 0, "arr", 4, {2}); u.cont(*g, u.elem(v, 0, 4), a); u.cont(*g, u.elem(v, 1, 4), u.un(U::Inv, a)); S(u.elem(v, 1, 4)); break; }
            case 8: { DX v = u.arr(*g, 0, "arr", 4, {2}); u.cont(*g, u.elem(v, 0, 4), a); u.cont(*g, u.elem(v, 1, 4), u.un(U::Inv, a)); S(u.elem(v, c, 4)); break; }
            case 9: S(u.mux(c, a, u.con(9, 4))); break;
            case 10: { DX v = u.var(*g, "sv", 4, true); u.cont(*g, v, u.cast(a, true)); S(u.cast(v, false)); break; }
            case 11: u.comb(*g, {u.if_(c, {u.assign(port, a)}, {u.assign(port, u.con(6, 4))})}); break;
            case 12: S(other ? *other : u.ext(b, 4)); break;
            case 13: { if (!other) x.skip(); S(u.bin(B::Xor, *other, a)); break; }
            case 14: { if (!other) x.skip(); u.cont(*g, u.slice(port, 1, 0), u.slice(*other, 2, 1)); u.cont(*g, u.slice(port, 3, 2), b); break; }
            default: { if (!other) x.skip(); S(u.cat(u.slice(*other, 1, 0), u.slice(*other, 3, 2))); break; }
        }
    }
    void drive1(mc::Ctx &x, const DX &port, int n, const DX *other) {
        auto S = [&](const DX &r) { u.cont(*g, port, r); };
        t += " in1:" + std::to_string(n);
        switch (n) {
            case 0: S(c); break;
            case 1: S(u.con(1, 1)); break;
            case 2: S(u.slice(a, 2, 2)); break;
            case 3: S(u.bin(B::Eq, b, u.con(2, 2))); break;
            case 4: S(u.bit(a, b)); break;
            case 5: S(u.un(U::RNot, c)); break;
            case 6: if (!other) x.skip(); S(*other); break;
            default: if (!other) x.skip(); S(u.un(U::Inv, *other)); break;
        }
    }
    void sink4(mc::Ctx &, const DX &q, int n, const DX &o) {
        t += " out4:" + std::to_string(n);
        switch (n) {
            case 0: u.cont(*g, o, q); break;
            case 1: { DX v = fresh(4); u.cont(*g, v, q); u.cont(*g, o, u.bin(B::Sub, v, u.con(1, 4))); break; }
            case 2: u.cont(*g, u.slice(o, 1, 0), u.slice(q, 3, 2)); u.cont(*g, u.slice(o, 3, 2), u.slice(q, 1, 0)); break;
            case 3: u.cont(*g, o, u.bin(B::Sub, a, q)); break;
            case 4: u.comb(*g, {u.if_(u.bin(B::Eq, q, u.con(3, 4)), {u.assign(o, a)}, {u.assign(o, q)})}); break;
            case 5: { DX v = fresh(4); u.cont(*g, v, q); u.cont(*g, o, u.bin(B::Xor, q, v)); DX w = fresh(4); u.cont(*g, w, q); break; }
            case 6: u.cont(*g, o, a); break;   // not connected
            case 7: { DX v = fresh(8); u.cont(*g, u.slice(v, 5, 2), q); u.cont(*g, u.slice(v, 1, 0), b); u.cont(*g, u.slice(v, 7, 6), b); u.cont(*g, o, u.slice(v, 4, 1)); break; }
            case 8: { DX v = u.arr(*g, 0, "qarr", 4, {2}); u.cont(*g, u.elem(v, 1, 4), q); u.cont(*g, u.elem(v, 0, 4), a); u.cont(*g, o, u.elem(v, c, 4)); break; }
            case 9: { DX v = fresh(2), w = fresh(2); u.cont(*g, u.cat(v, w), q); u.cont(*g, o, u.cat(w, v)); break; }
            case 10: u.cont(*g, o, u.cat(u.slice(q, 0, 0), u.slice(q, 3, 1))); break;
            case 11: u.comb(*g, {u.assign(o, u.con(0, 4)), u.switch_(u.slice(q, 1, 0), {{u.con(0, 2), {u.assign(o, q)}}, {u.con(2, 2), {u.assign(o, u.un(U::Inv, q))}}}, nullptr)}); break;
            case 12: { DX v = fresh(4); u.comb(*g, {u.assign(v, q)}); u.cont(*g, o, u.mux(c, v, q)); break; }
            // the output inside every kind of expression
            case 13: { DX v = fresh(6); u.cont(*g, v, u.ext(q, 6)); u.cont(*g, o, u.slice(v, 4, 1)); break; }
            case 14: { DX v = fresh(8); u.cont(*g, v, u.dup(q, 2)); u.cont(*g, o, u.slice(v, 5, 2)); break; }
            case 15: { DX v = u.var(*g, "sg", 4, true); u.cont(*g, v, u.bin(B::AShr, u.cast(q, true), u.con(1, 4, true))); u.cont(*g, o, u.cast(v, false)); break; }
            case 16: u.cont(*g, o, u.cat(u.slice(a, 2, 0), u.bit(a, u.slice(q, 1, 0)))); break;
            case 17: { DX v = u.arr(*g, 0, "tab", 4, {4}); for (int i = 0; i < 4; i++) u.cont(*g, u.elem(v, i, 4), u.con(5 * i ^ 6, 4)); u.cont(*g, o, u.elem(v, u.slice(q, 2, 1), 4)); break; }
            case 18: u.cont(*g, o, u.mux(u.slice(q, 2, 2), u.cat(u.bin(B::And, u.slice(q, 3, 2), b), u.slice(q, 1, 0)), u.un(U::Inv, a))); break;
            case 19: { auto f = u.func(*g, "pick", {{"x", 4, false}, {"y", 2, false}}, 4, false); u.func_body(f, {u.ret(f, u.bin(B::Sub, f.args[0], u.ext(f.args[1], 4)))}); u.cont(*g, o, u.call(*g, f, {q, u.slice(q, 2, 1)})); break; }
            case 20: u.comb(*g, {u.assign(o, u.con(0, 4)), u.assign(u.bit(o, u.slice(q, 1, 0)), c)}); break;
            // the only use of the output is an assignment inside a process
            case 22: u.comb(*g, {u.assign(o, a), u.if_(c, {u.assign(o, q)}, {})}); break;
            case 23: u.comb(*g, {u.assign(o, q), u.assign(u.slice(o, 1, 0), b)}); break;
            case 24: { small = true; DX v = fresh(4); u.latch(*g, {u.if_(c, {u.assign(v, q)}, {})}); u.cont(*g, o, v); break; }
            default: { DX v = u.arr(*g, 0, "tab", 4, {4}); u.comb(*g, {u.assign(u.elem(v, 0, 4), a), u.assign(u.elem(v, 1, 4), a), u.assign(u.elem(v, 2, 4), a), u.assign(u.elem(v, 3, 4), a), u.assign(u.elem(v, u.slice(q, 3, 2), 4), q)}); u.cont(*g, o, u.elem(v, b, 4)); break; }
        }
    }
    void sink1(mc::Ctx &, const DX &r, int n, const DX &p) {
        t += " out1:" + std::to_string(n);
        switch (n) {
            case 0: u.cont(*g, p, u.cat(b, u.cat(c, r))); break;
            case 1: { u.cont(*g, u.slice(p, 0, 0), r); u.cont(*g, u.slice(p, 3, 1), u.cat(b, c)); break; }
            case 2: u.cont(*g, p, u.mux(r, a, u.con(3, 4))); break;
            case 3: u.comb(*g, {u.if_(r, {u.assign(p, a)}, {u.assign(p, u.con(0, 4))})}); break;
            default: u.cont(*g, p, a); break;
        }
    }
};
