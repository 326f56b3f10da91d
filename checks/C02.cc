// C02: emitted processes behave as the statement tree says.
#include "dual.hh"
using namespace dual;
using rtl::u128;
struct P {
    Dual u;
    Generator *g;
    DX a, b, c, d, o, p, s, clk, rst;
    bool nba = false;
    int uid = 0;
    bool rich = true;
    std::string t;      // reading of the program
    P(bool clocked, bool reset) {
        g = &u.ctx.generator("mod");
        if (clocked) clk = u.port(*g, true, "clk", 1, false, PortType::Clock);
        if (reset) rst = u.port(*g, true, "rst", 1, false, PortType::AsyncReset);
        a = u.port(*g, true, "a", 2);
        c = u.port(*g, true, "c", 1);
        d = u.port(*g, true, "d", 1);
        o = u.port(*g, false, "o", 2);
        p = u.port(*g, false, "p", 2);
        s = u.var(*g, "s", 2);
    }
    DS asg(const DX &l, const DX &r) { t += l.t + (nba ? "<=" : "=") + r.t + "; "; return u.assign(l, r, nba); }
    // small assignments; reads of what was assigned before make the order visible
    DS leaf(mc::Ctx &x, bool rd) {
        switch (rich ? x.choose(rd ? 6 : 4, "assignment") : x.pick(std::vector<int>{0, 3, rd ? 4 : 1, rd ? 5 : 2}, "assignment")) {
            case 0: return asg(o, a);
            case 1: return asg(p, u.un(U::Inv, a));
            case 2: return asg(o, u.con(2, 2));
            case 3: return asg(u.slice(p, 1, 1), c);
            case 4: return asg(p, u.bin(B::Add, o, a));
            default: return asg(o, u.bin(B::Sub, p, u.con(1, 2)));
        }
    }
    DX cond(mc::Ctx &x) {
        switch (x.choose(rich ? 4 : 2, "condition")) {
            case 0: return c;
            case 1: return d;
            case 2: return u.bin(B::Eq, a, u.con(2, 2));
            default: return u.un(U::RNot, c);
        }
    }
    std::vector<DS> gen(mc::Ctx &x, int depth, bool rd, bool loops) {
        if (!depth) return {leaf(x, rd)};
        switch (x.choose(loops ? 5 : 4, "statement")) {
            case 0: return {leaf(x, rd)};
            case 1: {
                DX k = cond(x);
                t += "if(" + k.t + "){ ";
                auto th = gen(x, depth - 1, rd, loops);
                t += "} ";
                std::vector<DS> el;
                if (x.flip("else")) { t += "else{ "; el = gen(x, depth - 1, rd, loops); t += "} "; }
                return {u.if_(k, th, el)};
            }
            case 2: {
                static const std::vector<std::vector<int>> labels = {{0, 1}, {3, 0}, {1, 2, 3}, {0, 1, 2, 3}};
                auto &l = labels[x.choose(rich ? 4 : 2, "labels") * (rich ? 1 : 2)];
                t += "switch(a){ ";
                int deep = depth > 1 ? x.choose(2, "nested") * ((int)l.size() - 1) : -1;
                std::vector<std::pair<DX, std::vector<DS>>> it;
                for (size_t i = 0; i < l.size(); i++) {
                    t += std::to_string(l[i]) + ": ";
                    std::vector<DS> body;
                    if ((int)i == deep) body = gen(x, depth - 1, rd, false);
                    else body = {asg(i % 2 ? p : o, u.con((l[i] + 1 + i) & 3, 2))};
                    it.push_back({u.con(l[i], 2), body});
                }
                int dk = x.choose(3, "default");
                std::vector<DS> df;
                if (dk) { t += "default: "; df = dk == 1 ? std::vector<DS>{asg(o, u.un(U::Inv, a))} : gen(x, depth - 1, rd, false); }
                t += "} ";
                return {u.switch_(a, it, dk ? &df : nullptr)};
            }
            case 3: {   // two statements
                auto r = gen(x, depth - 1, rd, loops);
                auto q = gen(x, depth - 1, rd, loops);
                r.insert(r.end(), q.begin(), q.end());
                return r;
            }
            default: {
                static const std::vector<std::vector<int>> rng = {{0, 2, 1}, {0, 4, 2}, {1, 2, 1}, {1, -1, -1}};
                auto &r = x.pick(rng, "range");
                bool down = r[2] < 0;
                t += "for(" + std::to_string(r[0]) + ".." + std::to_string(r[1]) + " step " + std::to_string(r[2]) + "){ ";
                DX v = x.flip("if in loop") ? c : DX();
                auto f = u.for_("i" + std::to_string(uid++), r[0], r[1], r[2], [&](const DX &i) -> std::vector<DS> {
                    DX i2 = i;
                    i2.r = rtl::part(i.r, nullptr, 0, 2);
                    i2.w = 2; i2.s = false;
                    std::vector<DS> b;
                    if (r[1] <= 2 && !down) b.push_back(asg(u.bit(p, i), u.bit(a, i)));
                    else if (!i.s) b.push_back(asg(p, rd ? u.bin(B::Add, p, i2) : i2));
                    else b.push_back(asg(p, rd ? u.bin(B::Add, p, a) : a));
                    if (v.k) return {u.if_(v, b, {})};
                    return b;
                });
                t += "} ";
                return {f};
            }
        }
    }
};
static Check mk(mc::Ctx &c, const std::string &key, bool opts) {
    Check k;
    k.key = key;
    k.emit.passes = minimal;
    if (opts) {
        k.emit.unique_case = c.flip("unique case");
        k.emit.line_wrap = c.flip("narrow lines") ? 20 : 80;
    }
    return k;
}
static void prog(mc::Ctx &c, int mode, int depth, bool opts, const std::string &fam, bool rich = true) {
    // 0 comb, 1 latch, 2 posedge, 3 async high, 4 async low, 5 sync, 6 negedge clock, 7 initial
    bool clocked = mode >= 2 && mode <= 6, reset = mode >= 3 && mode <= 5;
    P v(clocked, reset);
    auto &u = v.u;
    Check k = mk(c, fam, opts);
    v.nba = clocked;
    v.rich = rich;
    accepted(c, fam + ":rejected", "a legal process is rejected", [&] {
        std::vector<DS> b;
        if (mode == 0) { b.push_back(v.asg(v.o, u.con(1, 2))); b.push_back(v.asg(v.p, u.con(0, 2))); }
        auto body = v.gen(c, depth, mode == 0 || clocked, mode != 1 && rich);
        if (reset) {
            DX r = v.rst;
            std::vector<DS> rv = {v.asg(v.o, u.con(3, 2)), v.asg(v.p, u.con(1, 2))};
            if (mode == 4) {
                if (c.flip("inverted by comparison")) r = u.bin(B::Eq, v.rst, u.con(0, 1)); else r = u.un(U::Inv, v.rst);
            }
            b.push_back(u.if_(r, rv, body));
        } else b.insert(b.end(), body.begin(), body.end());
        if (mode == 0) u.comb(*v.g, b);
        else if (mode == 1) u.latch(*v.g, b);
        else if (mode == 7) u.initial(*v.g, b);
        else {
            std::vector<std::pair<DX, bool>> sens = {{v.clk, mode != 6}};
            if (mode == 3) sens.push_back({v.rst, true});
            if (mode == 4) sens.push_back({v.rst, false});
            u.seq(*v.g, sens, b);
        }
        if (clocked) k.opt.clocks = {"clk"};
        if (mode == 3 || mode == 4) k.opt.clocks.push_back("rst");
        if (clocked && !rich) { k.opt.alphabet["a"] = {0, 2, 3}; k.opt.both_fills = false; }
    });
    k.key += " mode " + std::to_string(mode) + " " + v.t.substr(0, 150);
    check(c, u, k, "mode " + std::to_string(mode) + ": " + v.t);
}
int main(int argc, char **argv) {
    std::vector<mc::Family> f;
    f.push_back({"shallow", [](mc::Ctx &c) { prog(c, c.choose(8, "mode"), 1, true, "shallow"); }, 4});
    f.push_back({"comb", [](mc::Ctx &c) { prog(c, 0, 2, false, "comb", c.thorough); }, 5});
    f.push_back({"clocked", [](mc::Ctx &c) {
        int mode = c.thorough ? c.choose(5, "mode") + 2 : 3;
        prog(c, mode, 2, false, "clocked", c.thorough);
    }, 5});
    f.push_back({"latch", [](mc::Ctx &c) { prog(c, 1, 2, false, "latch", c.thorough); }, 5});
    // several processes that read one another
    f.push_back({"processes", [](mc::Ctx &c) {
        P v(true, false);
        auto &u = v.u;
        Check k = mk(c, "processes", false);
        k.opt.clocks = {"clk"};
        DX q = u.var(*v.g, "q", 2), r = u.var(*v.g, "r", 2), n = u.var(*v.g, "n", 2);
        accepted(c, "processes:rejected", "legal processes are rejected", [&] {
            auto rhs = [&](int i) -> DX {
                switch (i) {
                    case 0: return q;
                    case 1: return r;
                    case 2: return v.a;
                    case 3: return n;
                    default: return u.bin(B::Add, q, u.con(1, 2));
                }
            };
            int i1 = c.choose(5, "q"), i2 = c.choose(5, "r"), i3 = c.choose(5, "n");
            if (i3 == 3) c.skip();
            bool same = c.flip("one block"), edge2 = !same && c.flip("other edge"), en = c.flip("enable");
            v.t = "q<=" + rhs(i1).t + "; r<=" + rhs(i2).t + "; n=" + rhs(i3).t + (same ? " same block" : "") + (edge2 ? " opposite edges" : "") + (en ? " enabled" : "");
            DS s1 = u.assign(q, rhs(i1), true), s2 = u.assign(r, rhs(i2), true);
            if (en) s1 = u.if_(v.c, {s1}, {});
            if (same) u.seq(*v.g, {{v.clk, true}}, {s1, s2});
            else { u.seq(*v.g, {{v.clk, true}}, {s1}); u.seq(*v.g, {{v.clk, !edge2}}, {s2}); }
            int how = c.choose(3, "n kind");
            if (how == 0) u.cont(*v.g, n, rhs(i3));
            else if (how == 1) u.comb(*v.g, {u.assign(n, rhs(i3))});
            else u.comb(*v.g, {u.if_(v.d, {u.assign(n, rhs(i3))}, {u.assign(n, u.con(2, 2))})});
            if (c.flip("output first")) { u.cont(*v.g, v.o, u.bin(B::Xor, q, n)); u.cont(*v.g, v.p, r); }
            else { u.comb(*v.g, {u.assign(v.o, q), u.assign(v.p, u.bin(B::Add, r, n))}); }
            // last assignment in the block wins
            if (c.thorough && c.flip("reset values")) u.initial(*v.g, {u.assign(q, u.con(1, 2)), u.assign(r, u.con(2, 2))});
        });
        k.key += " " + v.t;
        check(c, u, k, v.t);
    }, 4});
    // non-blocking assignments to one register, whole and in parts
    f.push_back({"nba", [](mc::Ctx &c) {
        P v(true, false);
        v.nba = true;
        auto &u = v.u;
        Check k = mk(c, "nba", false);
        k.opt.clocks = {"clk"};
        accepted(c, "nba:rejected", "a legal process is rejected", [&] {
            auto one = [&]() -> DS {
                switch (c.choose(7, "assignment")) {
                    case 0: return v.asg(v.o, v.a);
                    case 1: return v.asg(v.o, v.p);
                    case 2: return v.asg(u.slice(v.o, 0, 0), v.c);
                    case 3: return v.asg(u.slice(v.o, 1, 1), u.slice(v.p, 0, 0));
                    case 4: return v.asg(v.p, v.o);
                    case 5: return v.asg(u.cat(u.slice(v.o, 0, 0), v.p), u.cat(v.a, v.d));
                    default: return v.asg(u.bit(v.p, v.c), v.d);
                }
            };
            std::vector<DS> b = {one(), one()};
            if (c.flip("guarded")) b = {b[0], u.if_(v.d, {b[1]}, {one()})};
            else if (c.flip("third")) b.push_back(one());
            u.seq(*v.g, {{v.clk, true}}, b);
        });
        k.key += " " + v.t;
        check(c, u, k, v.t);
    }, 4});
    // functions: returns, early returns, argument order, nested calls, void calls
    f.push_back({"function", [](mc::Ctx &c) {
        bool clocked = c.flip("clocked");
        P v(clocked, false);
        auto &u = v.u;
        auto &g = *v.g;
        Check k = mk(c, "function", false);
        if (clocked) k.opt.clocks = {"clk"};
        bool sg = c.flip("signed");
        DX x = u.port(g, true, "x", 2, sg), y = u.port(g, false, "y", 2, sg);
        std::string t;
        accepted(c, "function:rejected", "a legal function is rejected", [&] {
            int nargs = c.choose(3, "arguments") + 1;
            std::vector<std::tuple<std::string, int, bool>> args = {{"m", 2, sg}, {"k", 1, false}, {"n", 2, sg}};
            args.resize(nargs);
            std::map<std::string, uint32_t> ord;
            int perm = c.choose(nargs == 3 ? 4 : nargs == 2 ? 3 : 1, "order");
            static const int P3[4][3] = {{}, {0, 1, 2}, {2, 0, 1}, {1, 2, 0}};
            static const int P2[3][2] = {{}, {0, 1}, {1, 0}};
            if (perm) for (int i = 0; i < nargs; i++) ord[std::get<0>(args[i])] = nargs == 3 ? P3[perm][i] : P2[perm][i];
            auto fn = u.func(g, "f", args, 2, sg, ord);
            DX m = fn.args[0];
            DX last = nargs == 3 ? u.bin(B::Sub, m, fn.args[2]) : m;
            int body = c.choose(4, "body");
            t = "function body " + std::to_string(body) + " args " + std::to_string(nargs) + " order " + std::to_string(perm) + (sg ? " signed" : "");
            auto one = [&] { return u.con(1, 2, sg); };
            if (body == 0) u.func_body(fn, {u.ret(fn, u.bin(B::Add, last, one()))});
            else if (body == 1) u.func_body(fn, {u.if_(nargs > 1 ? fn.args[1] : u.bin(B::Lt, m, one()), {u.ret(fn, last)}, {u.ret(fn, u.un(U::Inv, last))})});
            else if (body == 2) u.func_body(fn, {u.if_(nargs > 1 ? fn.args[1] : u.bin(B::Eq, m, one()), {u.ret(fn, one())}, {}), u.ret(fn, last)});
            else u.func_body(fn, {u.switch_(m, {{one(), {u.ret(fn, u.un(U::Neg, last))}}, {u.con(0, 2, sg), {u.ret(fn, one())}}}, nullptr), u.ret(fn, m)});
            auto actual = [&](int i) -> DX {
                if (i == 1) return v.c;
                switch (c.choose(i == 0 ? 3 : 2, "argument")) {
                    case 0: return x;
                    case 1: return sg ? u.cast(v.a, true) : v.a;
                    default: return u.bin(B::Add, x, one());
                }
            };
            std::vector<DX> as;
            for (int i = 0; i < nargs; i++) as.push_back(actual(i));
            DX e = u.call(g, fn, as);
            int how = c.choose(4, "use");
            if (how == 1) e = u.bin(B::Sub, x, e);
            if (how == 2) { auto bs = as; bs[0] = e; e = u.call(g, fn, bs); }
            t += " " + e.t + " use " + std::to_string(how);
            if (clocked) u.seq(g, {{v.clk, true}}, {u.assign(y, e, true)});
            else if (how == 3) u.cont(g, y, e);
            else u.comb(g, {u.assign(y, e)});
            k.opt.outputs = {"y"};
        });
        k.key += " " + t;
        check(c, u, k, t);
    }, 6});
    f.push_back({"voidcall", [](mc::Ctx &c) {
        P v(false, false);
        auto &u = v.u;
        auto &g = *v.g;
        Check k = mk(c, "voidcall", false);
        std::string t;
        accepted(c, "voidcall:rejected", "a legal function is rejected", [&] {
            int nargs = c.choose(3, "arguments");
            std::vector<std::tuple<std::string, int, bool>> args = {{"n", 2, false}, {"m", 2, false}};
            args.resize(nargs);
            auto fn = u.func(g, "f", args, 0, false);
            DX src = nargs == 2 ? u.bin(B::Sub, fn.args[0], fn.args[1]) : nargs ? fn.args[0] : v.a;
            int body = c.choose(3, "body");
            if (body == 0) u.func_body(fn, {u.assign(v.o, src)});
            else if (body == 1) u.func_body(fn, {u.if_(v.c, {u.assign(v.o, src)}, {u.assign(v.p, src), u.assign(v.o, u.con(3, 2))})});
            else u.func_body(fn, {u.assign(v.o, src), u.assign(v.p, u.bin(B::Add, v.o, src))});
            std::vector<DX> as;
            for (int i = 0; i < nargs; i++) as.push_back(c.flip("argument") ? u.bin(B::Add, v.a, u.con(1, 2)) : v.a);
            DS call = u.call_stmt(g, fn, as);
            std::vector<DS> b = {u.assign(v.o, u.con(0, 2)), u.assign(v.p, u.con(1, 2))};
            int where = c.choose(3, "where");
            if (where == 0) b.push_back(call);
            else if (where == 1) b.push_back(u.if_(v.d, {call}, {}));
            else b.push_back(u.if_(v.d, {u.assign(v.o, v.a)}, {call}));
            if (c.flip("statement after")) b.push_back(u.assign(v.o, u.bin(B::Add, v.o, u.con(1, 2))));
            t = "void body " + std::to_string(body) + " args " + std::to_string(nargs) + " where " + std::to_string(where);
            u.comb(g, b);
        });
        k.key += " " + t;
        check(c, u, k, t);
    }, 3});
    // loops over arrays, both directions, nested loops
    f.push_back({"loops", [](mc::Ctx &c) {
        bool clocked = c.flip("clocked");
        P v(clocked, false);
        auto &u = v.u;
        auto &g = *v.g;
        Check k = mk(c, "loops", true);
        if (clocked) k.opt.clocks = {"clk"};
        DX w = u.port(g, true, "w", 4), z = u.port(g, false, "z", 4);
        std::string t;
        accepted(c, "loops:rejected", "a legal loop is rejected", [&] {
            static const std::vector<std::vector<int>> rng = {{0, 4, 1}, {0, 4, 2}, {1, 4, 1}, {0, 3, 2}, {2, 3, 1}, {3, -1, -1}, {3, 0, -1}, {3, 0, -2}, {3, -1, -2}, {0, 0, 1}, {-2, 1, 1}, {0, 4, 3}, {3, 1, -1}};
            auto r = c.pick(rng, "range");
            t = "for " + std::to_string(r[0]) + ".." + std::to_string(r[1]) + " by " + std::to_string(r[2]);
            int kind = c.choose(5, "body");
            std::vector<DS> b;
            if (!clocked) b.push_back(u.assign(z, u.con(5, 4)));
            b.push_back(u.for_("i", r[0], r[1], r[2], [&](const DX &i) -> std::vector<DS> {
                DX i4 = i, i2 = i;
                i4.r = rtl::part(i.r, nullptr, 0, 4); i4.w = 4; i4.s = false;
                bool sg = i.s;
                switch (kind) {
                    case 0:   // bit copy
                        if (sg) return {u.assign(z, w, clocked)};
                        return {u.assign(u.bit(z, i), u.bit(w, i), clocked)};
                    case 1:
                        if (sg) return {u.if_(u.bin(B::Lt, i, u.con(0, 32, true)), {u.assign(z, u.un(U::Inv, w), clocked)}, {u.assign(z, w, clocked)})};
                        return {u.if_(u.bin(B::Eq, w, i4), {u.assign(z, u.un(U::Inv, w), clocked)}, {})};
                    case 2:
                        if (sg) return {u.if_(u.bin(B::Eq, i, u.con(-1, 32, true)), {u.assign(z, u.con(9, 4), clocked)}, {})};
                        return {u.assign(z, clocked ? i4 : u.bin(B::Add, z, i4), clocked)};
                    case 3:
                        if (sg) return {u.assign(u.slice(z, 1, 0), v.a, clocked), u.if_(v.c, {u.assign(u.slice(z, 3, 2), v.a, clocked)}, {})};
                        return {u.for_("j", 0, 2, 1, [&](const DX &j) -> std::vector<DS> {
                            return {u.if_(u.bin(B::Eq, i, j), {u.assign(u.bit(z, i), v.c, clocked)}, {u.if_(v.d, {u.assign(u.bit(z, j), u.bit(w, i), clocked)}, {})})};
                        })};
                    default:
                        if (sg) return {u.if_(u.bin(B::Ge, i, u.con(0, 32, true)), {u.assign(u.slice(z, 0, 0), v.c, clocked)}, {u.assign(u.slice(z, 3, 3), v.d, clocked)})};
                        return {u.if_(u.bit(w, i), {u.assign(u.bit(z, i), v.c, clocked)}, {u.assign(u.bit(z, i), v.d, clocked)})};
                }
            }));
            t += " body " + std::to_string(kind) + (clocked ? " clocked" : "");
            if (clocked) u.seq(g, {{v.clk, true}}, b);
            else u.comb(g, b);
            k.opt.outputs = {"z"};
            if (clocked) { k.opt.alphabet["w"] = {0, 5, 9, 14}; if (kind < 3) k.opt.alphabet["c"] = k.opt.alphabet["d"] = {0}; }
            if (kind != 3 || !r[0]) k.opt.alphabet["a"] = {0, 2};
        });
        k.key += " " + t;
        check(c, u, k, t);
    }, 3});
    // arithmetic on loop variables, as an index and as a value
    f.push_back({"loopindex", [](mc::Ctx &c) {
        P v(false, false);
        auto &u = v.u;
        auto &g = *v.g;
        Check k = mk(c, "loopindex", false);
        DX w = u.port(g, true, "w", 4), z = u.port(g, false, "z", 8);
        std::string t;
        accepted(c, "loopindex:rejected " + std::to_string(0), "a legal loop is rejected", [&] {
            static const std::vector<std::vector<int>> rng = {{0, 3, 1}, {1, 4, 1}, {2, -1, -1}, {0, 4, 2}, {3, 15, 4}, {13, 0, -4}};
            auto r = c.pick(rng, "range");
            int kind = c.choose(11, "index"), use = c.choose(3, "use");
            bool sg = r[1] < 0 || (r[2] < 0 && r[0] == 13);
            auto C = [&](int x) { return u.con(x, 32, sg); };
            std::vector<DS> b = {u.assign(z, u.con(5, 8))};
            auto idx = [&](const DX &i, const DX &j) -> DX {
                switch (kind) {
                    case 0: return u.bin(B::Add, i, C(1));
                    case 1: return u.bin(B::Sub, C(4), i);
                    case 2: return u.bin(B::Mul, i, C(2));
                    case 3: return u.bin(B::Div, i, C(2));
                    case 4: return u.bin(B::Mod, i, C(2));
                    case 5: return u.bin(B::Shr, i, C(1));
                    case 6: return u.bin(B::Add, u.bin(B::Mul, i, C(2)), j);
                    case 7: return u.bin(B::Add, u.bin(B::Mod, i, C(3)), C(1));
                    case 8: return u.bin(B::Xor, i, C(3));
                    case 9: return u.bin(B::Div, u.bin(B::Add, i, C(4)), C(3));
                    default: return u.bin(B::Sub, u.bin(B::Add, i, C(5)), u.bin(B::Mul, j, C(2)));
                }
            };
            auto stmt = [&](const DX &i, const DX &j) -> DS {
                DX e = idx(i, j);
                t += e.t;
                if (use == 0) return u.assign(u.bit(z, e), v.c);
                if (use == 1) { DX x = e; x.r = rtl::part(e.r, nullptr, 0, 8); x.w = 8; x.s = false; return u.if_(u.bin(B::Eq, z, u.con(5, 8)), {u.assign(z, x)}, {u.assign(z, x)}); }
                return u.if_(u.bin(B::Gt, e, C(2)), {u.assign(u.slice(z, 3, 0), w)}, {u.assign(u.slice(z, 6, 3), w)});
            };
            if (use == 1 && sg) c.skip();
            if (use < 2) {   // indices stay inside, values fit
                std::vector<int> js = kind == 6 || kind == 10 ? std::vector<int>{0, 1} : std::vector<int>{0};
                for (int i = std::min(r[0], r[1] + 1); i < std::max(r[1], r[0] + 1); i++)   // whatever the step
                    for (int j : js) {
                        int e[] = {i + 1, 4 - i, i * 2, i / 2, i % 2, i >> 1, i * 2 + j, i % 3 + 1, i ^ 3, (i + 4) / 3, i + 5 - j * 2};
                        if (e[kind] < 0 || e[kind] > (use ? 255 : 7)) c.skip();
                    }
            }
            b.push_back(u.for_("i", r[0], r[1], r[2], [&](const DX &i) -> std::vector<DS> {
                if (kind == 6 || kind == 10) return {u.for_("j", sg ? 1 : 0, sg ? -1 : 2, sg ? -1 : 1, [&](const DX &j) -> std::vector<DS> { return {stmt(i, j)}; })};
                return {stmt(i, i)};
            }));
            t = "for " + std::to_string(r[0]) + ".." + std::to_string(r[1]) + ": " + t + " use " + std::to_string(use);
            u.comb(g, b);
            k.opt.outputs = {"z"};
        });
        k.key += " " + t;
        check(c, u, k, t);
    }, 3});
    // long expressions and comments under narrow lines
    f.push_back({"wrap", [](mc::Ctx &c) {
        P v(false, false);
        auto &u = v.u;
        auto &g = *v.g;
        Check k;
        k.key = "wrap";
        k.emit.passes = minimal;
        k.emit.line_wrap = c.choose(c.thorough ? 60 : 34, "line width") + 4;
        std::string t;
        accepted(c, "wrap:rejected", "a legal design is rejected", [&] {
            DX ln = u.var(g, "a_rather_long_variable_name", 2);
            DX e = c.flip("grouping") ? u.bin(B::Sub, v.a, u.bin(B::Sub, ln, u.con(1, 2))) : u.bin(B::Xor, u.bin(B::Add, u.un(U::Neg, v.a), ln), u.un(U::Inv, ln));
            if (c.flip("conditional")) e = u.mux(v.c, e, u.mux(v.d, ln, v.a));
            u.cont(g, ln, u.un(U::Inv, v.a));
            int cm = c.choose(5, "comment");
            static const char *CM[] = {"", "short", "a comment that is much longer than the narrow lines it is printed in", "two\nlines; assign o = 3", "ends in newline\n\n"};
            DS s1 = u.assign(v.o, e), s2 = u.assign(v.p, v.a);
            s1.k->comment = CM[cm];
            int kind = c.choose(4, "process");
            if (kind == 0) { u.comb(g, {s1, s2}); (*g.get_all_stmts().rbegin())->comment = CM[cm]; }
            else if (kind == 1) {
                DS i = u.if_(u.bin(B::Eq, e, u.bin(B::Add, ln, v.a)), {s1}, {u.assign(v.o, u.con(2, 2))});
                i.k->comment = CM[cm];
                u.comb(g, {s2, i});
            } else if (kind == 2) {
                DS i = u.switch_(v.a, {{u.con(1, 2), {s1}}, {u.con(2, 2), {u.assign(v.o, ln)}}}, nullptr);
                i.k->comment = CM[cm];
                u.comb(g, {u.assign(v.o, v.a), s2, i});
            } else { u.cont(g, v.o, e); u.cont(g, v.p, v.a); (*g.get_all_stmts().rbegin())->comment = CM[cm]; v.o.k->comment = CM[cm]; ln.k->comment = CM[cm]; v.a.k->comment = CM[cm]; g.comment = CM[cm]; }
            t = "wrap " + e.t + " kind " + std::to_string(kind) + " comment " + std::to_string(cm);
        });
        k.key += " " + t;
        check(c, u, k, t);
    }, 3});
    return mc::run("C02", f, argc, argv, "model_checking",
                   {"statement trees up to the stated nesting over two-bit data; every input and clock/reset edge in every reachable state; two-state values",
                    "the SystemVerilog reading is that of core/svparse.cc and core/svelab.cc"});
}
