// C03: emitted hierarchies are wired as the program connected them.
#include "hier.hh"
static void fin(mc::Ctx &c, Top &v, const std::string &key, const std::vector<std::string> &passes = minimal, Check k = {}) {
    k.key = key + v.t;
    k.emit.passes = passes;
    k.opt.both_fills = false;
    if (v.small) { k.opt.alphabet["a"] = {0, 6, 13}; k.opt.alphabet["b"] = {0, 2}; }
    check(c, v.u, k, key + v.t);
}
int main(int argc, char **argv) {
    std::vector<mc::Family> f;
    f.push_back({"one", [](mc::Ctx &c) {
        Top v;
        accepted(c, "one:rejected", "a legal connection is rejected", [&] {
            Child k = v.child("child", "inst");
            int i4 = c.choose(13, "x source"), i1 = c.choose(6, "e source"), o4 = c.choose(Top::NSINK4, "q sink"), o1 = c.choose(Top::NSINK1, "r sink");
            if (c.flip("outputs first")) { v.sink4(c, k.q, o4, v.o); v.sink1(c, k.r, o1, v.p); v.drive4(c, k.x, i4, nullptr); v.drive1(c, k.e, i1, nullptr); }
            else { v.drive4(c, k.x, i4, nullptr); v.drive1(c, k.e, i1, nullptr); v.sink4(c, k.q, o4, v.o); v.sink1(c, k.r, o1, v.p); }
        });
        fin(c, v, "one");
    }, 3});
    f.push_back({"siblings", [](mc::Ctx &c) {
        Top v;
        accepted(c, "siblings:rejected", "a legal connection is rejected", [&] {
            bool same = c.flip("same module");
            Child k = v.child("child", "i1"), m;
            if (same) {
                // two instances of one definition
                m = v.child("child", "i2");
            } else {
                auto &n = v.u.ctx.generator("other");
                n.instance_name = "i2";
                m.g = n.shared_from_this();
                m.x = v.u.port(n, true, "x", 4);
                m.e = v.u.port(n, true, "sel", 1);
                m.q = v.u.port(n, false, "res", 4);
                m.r = v.u.port(n, false, "r", 1);
                v.u.cont(n, m.q, v.u.bin(B::Sub, m.x, v.u.ext(m.e, 4)));
                v.u.cont(n, m.r, v.u.un(U::RAnd, m.x));
                v.g->add_child_generator("i2", m.g);
            }
            int how = c.choose(5, "x of the second"), e2 = c.choose(3, "e of the second"), o4 = c.choose(Top::NSINK4, "sink"), both = c.choose(3, "first's output also used");
            int i4 = c.thorough ? c.choose(12, "x of the first") : c.choose(3, "x of the first") * 3, o1 = c.choose(2, "r sink");
            bool late = c.flip("connected before driven");
            auto first = [&] { v.drive4(c, k.x, i4, nullptr); v.drive1(c, k.e, 0, nullptr); };
            if (!late) first();
            v.drive4(c, m.x, std::vector<int>{12, 13, 14, 15, 0}[how], &k.q);
            v.drive1(c, m.e, std::vector<int>{6, 7, 3}[e2], &k.r);
            if (both == 1) { DX t = v.fresh(4); v.u.cont(*v.g, t, k.q); }
            if (both == 2) v.u.cont(*v.g, v.p, k.q);
            else if (o1 == 0) v.u.cont(*v.g, v.p, v.u.cat(v.b, v.u.cat(m.r, k.r)));
            else v.sink1(c, m.r, 1, v.p);
            v.sink4(c, m.q, o4, v.o);
            if (late) first();
            v.t += " second x " + std::to_string(how) + " e " + std::to_string(e2) + " also " + std::to_string(both) + (same ? " same" : "");
        });
        fin(c, v, "siblings");
    }, 4});
    // connections made with the direction left to the library
    f.push_back({"direction", [](mc::Ctx &c) {
        Top v;
        accepted(c, "direction:rejected", "a legal connection is rejected", [&] {
            Child k = v.child("child", "i1"), m = v.child("child", "i2");
            auto W = [&](const DX &l, const DX &r) { bool s = c.flip("arguments swapped"); v.join(l, r, true, s); v.t += s ? " s" : " n"; };
            W(k.x, v.a);
            v.u.cont(*v.g, k.e, v.c);
            W(m.x, k.q);
            int n = c.choose(3, "e");
            if (n == 0) W(m.e, k.r); else if (n == 1) W(m.e, v.c); else W(m.e, v.u.slice(v.a, 1, 1));
            int n2 = c.choose(3, "o");
            if (n2 == 0) W(v.o, m.q);
            else if (n2 == 1) { DX t = v.fresh(4); W(t, m.q); W(v.o, t); }
            else { W(v.u.slice(v.o, 3, 2), v.u.slice(m.q, 1, 0)); W(v.u.slice(v.o, 1, 0), v.b); }
            W(v.u.slice(v.p, 0, 0), m.r);
            v.u.cont(*v.g, v.u.slice(v.p, 3, 1), v.u.slice(v.a, 2, 0));
            v.t += " " + std::to_string(n) + std::to_string(n2);
        });
        fin(c, v, "direction");
    }, 3});
    // ports wired by wire_ports
    f.push_back({"wireports", [](mc::Ctx &c) {
        Top v;
        accepted(c, "wireports:rejected", "a legal connection is rejected", [&] {
            Child k = v.child("child", "i1"), m = v.child("child", "i2");
            auto W = [&](const DX &l, const DX &r) {
                auto x = l.k->as<kratos::Port>(), y = r.k->as<kratos::Port>();
                if (c.flip("arguments swapped")) { v.g->wire_ports(y, x); v.t += " s"; } else { v.g->wire_ports(x, y); v.t += " n"; }
                rtl::Proc p;
                p.k = rtl::Proc::Assign;
                p.body = rassign(l.lv, r.r, false);
                v.u.d.procs.push_back(p);
            };
            W(k.x, v.a); W(k.e, v.c); W(m.x, k.q); W(m.e, k.r); W(v.o, m.q);
            v.u.cont(*v.g, v.p, v.u.cat(v.b, v.u.cat(m.r, k.r)));
        });
        fin(c, v, "wireports");
    }, 3});
    // three levels
    f.push_back({"nested", [](mc::Ctx &c) {
        Top v;
        auto &u = v.u;
        accepted(c, "nested:rejected", "a legal connection is rejected", [&] {
            auto &mid = u.ctx.generator("mid");
            mid.instance_name = "m";
            DX mx = u.port(mid, true, "mx", 4), me = u.port(mid, true, "me", 1), mo = u.port(mid, false, "mo", 4), mr = u.port(mid, false, "mr", 1);
            bool order = c.flip("grandchild added first");
            if (!order) v.g->add_child_generator("m", mid.shared_from_this());
            Child k = v.child("child", "g1", &mid);
            int n = c.choose(6, "grandchild input"), w = c.choose(5, "grandchild output"), e = c.choose(3, "e"), two = c.choose(3, "second");
            switch (n) {
                case 0: u.cont(mid, k.x, mx); break;
                case 1: u.cont(mid, k.x, u.un(U::Inv, mx)); break;
                case 2: u.cont(mid, u.slice(k.x, 3, 2), u.slice(mx, 1, 0)); u.cont(mid, u.slice(k.x, 1, 0), u.slice(mx, 3, 2)); break;
                case 3: u.cont(mid, k.x, u.con(10, 4)); break;
                case 4: { DX z = u.var(mid, "z", 4); u.cont(mid, z, u.bin(B::Add, mx, u.con(2, 4))); u.cont(mid, k.x, z); break; }
                default: u.comb(mid, {u.assign(k.x, mx), u.if_(me, {u.assign(k.x, u.con(1, 4))}, {})}); break;
            }
            if (e == 0) u.cont(mid, k.e, me); else if (e == 1) u.cont(mid, k.e, u.con(1, 1)); else u.cont(mid, k.e, u.slice(mx, 0, 0));
            DX q = k.q, r = k.r;
            if (two) {
                Child k2 = v.child(two == 1 ? "child" : "child2", "g2", &mid);
                u.cont(mid, k2.x, q);
                u.cont(mid, k2.e, r);
                q = k2.q; r = k2.r;
            }
            switch (w) {
                case 0: u.cont(mid, mo, q); break;
                case 1: u.cont(mid, mo, u.bin(B::Xor, q, mx)); break;
                case 2: u.cont(mid, u.slice(mo, 3, 1), u.slice(q, 2, 0)); u.cont(mid, u.slice(mo, 0, 0), u.slice(q, 3, 3)); break;
                case 3: u.cont(mid, mo, mx); break;
                default: { DX z = u.var(mid, "y", 4); u.cont(mid, z, q); u.comb(mid, {u.assign(mo, z)}); break; }
            }
            u.cont(mid, mr, r);
            if (order) v.g->add_child_generator("m", mid.shared_from_this());
            v.drive4(c, mx, c.choose(6, "x"), nullptr);
            v.drive1(c, me, c.choose(2, "e source") * 3, nullptr);
            v.sink4(c, mo, c.choose(3, "sink") * 2, v.o);
            v.sink1(c, mr, c.choose(2, "sink1"), v.p);
            v.t += " n" + std::to_string(n) + std::to_string(w) + std::to_string(e) + std::to_string(two) + (order ? "first" : "");
        });
        fin(c, v, "nested");
    }, 5});
    // ports of other kinds: signed, arrays, clocks
    f.push_back({"kinds", [](mc::Ctx &c) {
        Top v;
        auto &u = v.u;
        Check k;
        accepted(c, "kinds:rejected", "a legal connection is rejected", [&] {
            auto &m = u.ctx.generator("child");
            m.instance_name = "inst";
            int kind = c.choose(5, "port kind"), how = c.choose(4, "how");
            v.t = " kind " + std::to_string(kind) + " how " + std::to_string(how);
            if (kind == 0) {   // signed
                DX x = u.port(m, true, "x", 3, true), y = u.port(m, false, "y", 5, true);
                u.cont(m, y, u.un(U::Neg, u.ext(x, 5)));
                v.g->add_child_generator("inst", m.shared_from_this());
                DX s = u.cast(u.slice(v.a, 2, 0), true);
                if (how == 0) u.cont(*v.g, x, s);
                else if (how == 1) u.cont(*v.g, x, u.con(-3, 3, true));
                else if (how == 2) { DX t = u.var(*v.g, "t", 3, true); u.cont(*v.g, t, s); u.cont(*v.g, x, t); }
                else { DX t = u.var(*v.g, "t", 3, true); u.cont(*v.g, t, s); u.cont(*v.g, x, u.bin(B::Sub, t, u.con(1, 3, true))); }
                if (c.flip("direct sink")) { DX t = u.var(*v.g, "w", 5, true); u.cont(*v.g, t, y); u.cont(*v.g, v.o, u.slice(t, 4, 1)); }
                else { DX t = u.var(*v.g, "w", 5); u.cont(*v.g, t, u.cast(u.bin(B::AShr, y, u.con(1, 5, true)), false)); u.cont(*v.g, v.o, u.slice(t, 3, 0)); }
                u.cont(*v.g, v.p, v.a);
            } else if (kind == 1 || kind == 2) {   // arrays
                bool pk = kind == 1;
                DX x = u.arr(m, 1, "x", 2, {2}, pk), y = u.arr(m, 2, "y", 2, {2}, pk);
                u.cont(m, u.elem(y, 0, 2), u.elem(x, 1, 2));
                u.cont(m, u.elem(y, 1, 2), u.bin(B::Add, u.elem(x, 0, 2), u.con(1, 2)));
                v.g->add_child_generator("inst", m.shared_from_this());
                DX t = u.arr(*v.g, 0, "t", 2, {2}, pk), w = u.arr(*v.g, 0, "w", 2, {2}, pk);
                if (how < 2) { u.cont(*v.g, u.elem(t, 0, 2), v.b); u.cont(*v.g, u.elem(t, 1, 2), u.slice(v.a, 2, 1)); u.cont(*v.g, x, t); }
                else if (how == 2) { u.cont(*v.g, u.elem(x, 0, 2), v.b); u.cont(*v.g, u.elem(x, 1, 2), u.slice(v.a, 2, 1)); }
                else { u.comb(*v.g, {u.assign(u.elem(x, 0, 2), v.b), u.assign(u.elem(x, 1, 2), u.slice(v.a, 3, 2)), u.if_(v.c, {u.assign(u.elem(x, 0, 2), u.con(3, 2))}, {})}); }
                if (how & 1) { u.cont(*v.g, w, y); u.cont(*v.g, v.o, u.cat(u.elem(w, 0, 2), u.elem(w, 1, 2))); }
                else u.cont(*v.g, v.o, u.cat(u.elem(y, 0, 2), u.elem(y, 1, 2)));
                u.cont(*v.g, v.p, v.a);
            } else {   // clocked children
                DX clk = u.port(*v.g, true, "clk", 1, false, PortType::Clock), rst = u.port(*v.g, true, "rst_n", 1, false, PortType::AsyncReset);
                auto reg = [&](Generator &m) {
                    DX ck = u.port(m, true, "ck", 1, false, PortType::Clock), rs = u.port(m, true, "rs", 1, false, PortType::AsyncReset);
                    DX x = u.port(m, true, "x", 2), y = u.port(m, false, "y", 2);
                    u.seq(m, {{ck, true}, {rs, false}}, {u.if_(u.un(U::Inv, rs), {u.assign(y, u.con(2, 2), true)}, {u.assign(y, x, true)})});
                    return std::vector<DX>{ck, rs, x, y};
                };
                auto p1 = reg(m);
                v.g->add_child_generator("inst", m.shared_from_this());
                auto con = [&](std::vector<DX> &p) {
                    if (how == 1) {   // clock through a casted wire
                        static int n = 0;
                        DX w = u.var(*v.g, "ckw" + std::to_string(v.uid), 1), z = u.var(*v.g, "rsw" + std::to_string(v.uid++), 1);
                        u.cont(*v.g, w, clk); u.cont(*v.g, z, rst);
                        DX wc = w, zc = z;
                        wc.k = w.k->cast(kratos::VarCastType::Clock).get();
                        zc.k = z.k->cast(kratos::VarCastType::AsyncReset).get();
                        u.cont(*v.g, p[0], wc); u.cont(*v.g, p[1], zc);
                    } else { u.cont(*v.g, p[0], clk); u.cont(*v.g, p[1], rst); }
                };
                con(p1);
                u.cont(*v.g, p1[2], how == 2 ? u.bin(B::Add, v.b, p1[3]) : v.b);
                if (kind == 4) {
                    auto &m2 = u.ctx.generator("child");
                    m2.instance_name = "inst2";
                    auto p2 = reg(m2);
                    v.g->add_child_generator("inst2", m2.shared_from_this());
                    con(p2);
                    u.cont(*v.g, p2[2], p1[3]);
                    u.cont(*v.g, v.o, u.cat(p1[3], p2[3]));
                } else u.cont(*v.g, v.o, u.cat(p1[3], v.b));
                u.cont(*v.g, v.p, how == 3 ? u.cat(p1[3], p1[3]) : v.a);
                k.opt.clocks = {"clk", "rst_n"};
                k.opt.alphabet["a"] = {0, 6};
                k.opt.alphabet["c"] = {0};
            }
        });
        fin(c, v, "kinds", minimal, k);
    }, 2});
    return mc::run("C03", f, argc, argv, "model_checking",
                   {"hierarchies of at most three levels and three instances over four-bit data; every input value, and for clocked children every history",
                    "the SystemVerilog reading is that of core/svparse.cc and core/svelab.cc"});
}
