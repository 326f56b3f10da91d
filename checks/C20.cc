// C20: a parameter behaves as the value it has, wherever it is used and however it gets its value.
#include <iostream>
#include "dual.hh"
using namespace dual;
using kratos::Param;
using rtl::u128;
typedef std::shared_ptr<Param> PP;
static PP pp(Param &p) { return p.as<Param>(); }
struct Use {
    const char *name;
    bool resize;               // the shape of ports or variables follows
    bool sgn;
    int pw;                    // width of the parameter
    std::vector<int> values;
};
enum { ADD, SUB, CMP, LABEL, INDEX, RESET, SHIFT, MUX, WIDTH, WIDTHVAR, WIDTHEXPR, WIDTHMUL, PACKED, UNPACKED, SIZEEXPR, BOTH, SIZEVAR, WIDTHCAT, CALL, ELEMENT, ELEMENTEXPR, PICKED, CONCAT, CHOICE, CASTED, BITOF, NESTEDARR };
static const Use USES[] = {
    {"operand", false, false, 3, {1, 2, 3}},
    {"signed operand", false, true, 3, {1, -2, 3}},
    {"compared", false, true, 3, {1, -2, 3}},
    {"case label", false, false, 3, {1, 2, 3}},
    {"run-time index", false, false, 2, {1, 2, 3}},
    {"reset value", false, false, 3, {1, 2, 3}},
    {"shift amount", false, false, 3, {1, 2, 3}},
    {"selected", false, false, 3, {1, 2, 3}},
    {"width", true, false, 32, {2, 1, 3}},
    {"width of a variable", true, false, 32, {2, 1, 3}},
    {"width plus one", true, false, 32, {2, 1, 3}},
    {"width doubled", true, false, 32, {2, 1, 3}},
    {"size", true, false, 32, {2, 1, 3}},
    {"unpacked size", true, false, 32, {2, 1, 3}},
    {"size plus one", true, false, 32, {2, 1, 3}},
    {"width and size", true, false, 32, {2, 1, 3}},
    {"size of a variable", true, false, 32, {2, 1, 3}},
    {"width and operand", true, false, 32, {2, 1, 3}},
    {"function argument", false, false, 3, {1, 2, 3}},
    {"width of elements", true, false, 32, {2, 1, 3}},
    {"width of elements plus one", true, false, 32, {2, 1, 3}},
    {"element picked at run time", true, false, 32, {2, 1, 3}},
    {"width of concatenated parts", true, false, 32, {2, 1, 3}},
    {"width of a choice", true, false, 32, {2, 1, 3}},
    {"width of a signed reading", true, false, 32, {2, 1, 3}},
    {"width of the indexed", true, false, 32, {2, 4, 3}},
    {"inner size", true, false, 32, {2, 1, 3}},
};
static constexpr int NUSE = sizeof(USES) / sizeof(USES[0]);
static constexpr int NOREF = 1 << 20;
static int REF = NOREF;
struct Leaf {
    Generator *g = nullptr;
    Param *p = nullptr;
    DX a, y, clk, rst;
    std::vector<std::pair<std::string, DX>> shapes;   // widths the library has to report
};
// fin: the value the parameter ends up with
static DX of(Dual &u, kratos::Var &v, const std::string &n, int w, bool s = false) { return u.wrap(v, n, w, s); }
static Leaf leaf(Dual &u, Generator &g, const std::string &scope, int use, Param &p, int fin, int now) {
    Leaf l;
    l.g = &g;
    l.p = &p;
    const Use &U_ = USES[use];
    DX pv;
    pv.k = &p;
    pv.w = U_.pw;
    pv.s = U_.sgn;
    pv.r = rtl::cst((u128)(rtl::i128)(REF == NOREF ? fin : REF), U_.pw, U_.sgn);
    pv.t = "P";
    auto port = [&](bool in, const std::string &n, int w, bool s = false) {
        auto &k = g.port(in ? PortDirection::In : PortDirection::Out, n, (uint32_t)w, 1, PortType::Data, s);
        return of(u, k, scope + n, w, s);
    };
    auto shaped = [&](int dir, const std::string &n, int ew, std::vector<uint32_t> dims, bool packed, kratos::Var *wp, std::vector<kratos::Var *> sp, int total) {
        kratos::Var *k = dir ? (kratos::Var *)&g.port(dir == 1 ? PortDirection::In : PortDirection::Out, n, (uint32_t)ew, dims, PortType::Data, false) : &g.var(n, (uint32_t)ew, dims, false);
        k->set_is_packed(packed);
        if (wp) k->set_width_param(wp);
        for (size_t i = 0; i < sp.size(); i++) if (sp[i]) k->set_size_param(i, sp[i]);
        auto x = of(u, *k, scope + n, total);
        l.shapes.emplace_back(n, x);
        return x;
    };
    bool S = U_.sgn;
    if (!U_.resize && use != INDEX && use != RESET) l.a = port(true, "a", 3, S), l.y = port(false, "y", 3, S);
    auto &a = l.a, &y = l.y;
    auto &one = kratos::constant(1, 32);
    auto &two = kratos::constant(2, 32);
    switch (use) {
        case ADD: u.cont(g, y, u.bin(B::Add, a, pv)); break;
        case SUB: u.cont(g, y, u.bin(B::Sub, a, pv)); break;
        case CMP: u.comb(g, {u.if_(u.bin(B::Lt, a, pv), {u.assign(y, pv)}, {u.assign(y, u.un(U::Neg, a))})}); break;
        case LABEL: { std::vector<DS> d = {u.assign(y, u.con(7, 3))}; u.comb(g, {u.switch_(a, {{pv, {u.assign(y, u.con(4, 3))}}}, &d)}); break; }
        case INDEX: a = port(true, "a", 4), y = port(false, "y", 1); u.cont(g, y, u.bit(a, pv)); break;
        case RESET: {
            auto &ck = g.port(PortDirection::In, "clk", 1, PortType::Clock);
            auto &rs = g.port(PortDirection::In, "rst", 1, PortType::AsyncReset);
            l.clk = of(u, ck, scope + "clk", 1), l.rst = of(u, rs, scope + "rst", 1);
            a = port(true, "a", 3), y = port(false, "y", 3);
            u.seq(g, {{l.clk, true}, {l.rst, true}}, {u.if_(l.rst, {u.assign(y, pv, true)}, {u.assign(y, a, true)})});
            break;
        }
        case SHIFT: u.cont(g, y, u.bin(B::Shl, a, pv)); break;
        case MUX: u.cont(g, y, u.mux(u.bin(B::Eq, a, pv), u.un(U::Inv, a), pv)); break;
        case WIDTH: a = shaped(1, "a", now, {1}, true, &p, {}, fin), y = shaped(2, "y", now, {1}, true, &p, {}, fin); u.cont(g, y, u.un(U::Inv, a)); break;
        case WIDTHVAR: {
            a = shaped(1, "a", now, {1}, true, &p, {}, fin), y = shaped(2, "y", now, {1}, true, &p, {}, fin);
            DX w = shaped(0, "w", now, {1}, true, &p, {}, fin), v = shaped(0, "v", now, {1}, true, &p, {}, fin);
            u.cont(g, w, u.un(U::Inv, a));
            u.comb(g, {u.if_(u.un(U::ROr, a), {u.assign(v, u.bin(B::Add, w, a))}, {u.assign(v, w)})});
            u.cont(g, y, u.bin(B::Xor, v, w));
            break;
        }
        case WIDTHEXPR: a = shaped(1, "a", now + 1, {1}, true, &(p + one), {}, fin + 1), y = shaped(2, "y", now + 1, {1}, true, &(p + one), {}, fin + 1); u.cont(g, y, u.un(U::Inv, a)); break;
        case WIDTHMUL: a = shaped(1, "a", now * 2, {1}, true, &(p * two), {}, fin * 2), y = shaped(2, "y", now * 2, {1}, true, &(two * p), {}, fin * 2); u.cont(g, y, u.un(U::Inv, a)); break;
        case PACKED:
        case UNPACKED:
            a = shaped(1, "a", 2, {(uint32_t)now}, use == PACKED, nullptr, {&p}, fin * 2), y = shaped(2, "y", 2, {(uint32_t)now}, use == PACKED, nullptr, {&p}, fin * 2);
            if (use == PACKED) u.cont(g, y, u.un(U::Inv, a)); else u.cont(g, y, a);
            break;
        case SIZEEXPR: a = shaped(1, "a", 2, {(uint32_t)now + 1}, true, nullptr, {&(p + one)}, fin * 2 + 2), y = shaped(2, "y", 2, {(uint32_t)now + 1}, true, nullptr, {&(p + one)}, fin * 2 + 2); u.cont(g, y, a); break;
        case BOTH: a = shaped(1, "a", now, {(uint32_t)now}, true, &p, {&p}, fin * fin), y = shaped(2, "y", now, {(uint32_t)now}, true, &p, {&p}, fin * fin); u.cont(g, y, u.un(U::Inv, a)); break;
        case SIZEVAR: {
            a = shaped(1, "a", 2, {(uint32_t)now}, false, nullptr, {&p}, fin * 2), y = shaped(2, "y", 2, {(uint32_t)now}, false, nullptr, {&p}, fin * 2);
            DX w = shaped(0, "w", 2, {(uint32_t)now}, false, nullptr, {&p}, fin * 2);
            u.cont(g, w, a);
            u.cont(g, y, w);
            break;
        }
        case WIDTHCAT: {
            a = shaped(1, "a", now, {1}, true, &p, {}, fin);
            y = port(false, "y", 32);
            DX w = shaped(0, "w", now, {1}, true, &p, {}, fin);
            u.cont(g, w, u.un(U::Inv, a));
            u.comb(g, {u.if_(u.un(U::ROr, w), {u.assign(y, pv)}, {u.assign(y, u.con(9, 32))})});
            break;
        }
        case ELEMENT: a = shaped(1, "a", now, {2}, true, &p, {}, fin * 2), y = shaped(2, "y", now, {1}, true, &p, {}, fin); u.cont(g, y, u.elem(a, 1, fin)); break;
        case ELEMENTEXPR: {
            a = shaped(1, "a", now + 1, {2}, true, &(p + one), {}, fin * 2 + 2), y = shaped(2, "y", now + 1, {1}, true, &(p + one), {}, fin + 1);
            u.comb(g, {u.if_(u.un(U::ROr, u.elem(a, 0, fin + 1)), {u.assign(y, u.elem(a, 1, fin + 1))}, {u.assign(y, u.un(U::Inv, u.elem(a, 1, fin + 1)))})});
            break;
        }
        case PICKED: {
            a = shaped(1, "a", now, {2}, true, &p, {}, fin * 2), y = shaped(2, "y", now, {1}, true, &p, {}, fin);
            u.cont(g, y, u.elem(a, u.un(U::RXor, a), fin));
            break;
        }
        case CONCAT: {
            a = shaped(1, "a", now, {1}, true, &p, {}, fin), y = shaped(2, "y", now * 2, {1}, true, &(p + p), {}, fin * 2);
            u.cont(g, y, u.cat(a, u.un(U::Inv, a)));
            break;
        }
        case CHOICE: {
            a = shaped(1, "a", now, {1}, true, &p, {}, fin), y = shaped(2, "y", now, {1}, true, &p, {}, fin);
            DX w = shaped(0, "w", now, {1}, true, &p, {}, fin);
            u.cont(g, w, u.un(U::Neg, a));
            u.cont(g, y, u.mux(u.un(U::RAnd, a), w, u.bin(B::Sub, w, a)));
            break;
        }
        case CASTED: {
            a = shaped(1, "a", now, {1}, true, &p, {}, fin), y = shaped(2, "y", now, {1}, true, &p, {}, fin);
            u.cont(g, y, u.cast(u.bin(B::AShr, u.cast(a, true), u.cast(a, true)), false));
            break;
        }
        case BITOF: {
            a = shaped(1, "a", now, {1}, true, &p, {}, fin), y = port(false, "y", 1);
            // the index is as wide as the widest needs it
            u.cont(g, y, u.bit(a, u.con(1, 1)));
            break;
        }
        case NESTEDARR: {
            a = shaped(1, "a", 2, {2, (uint32_t)now}, true, nullptr, {nullptr, &p}, fin * 4), y = shaped(2, "y", 2, {(uint32_t)now}, true, nullptr, {&p}, fin * 2);
            u.cont(g, y, u.elem(a, 1, fin * 2));
            break;
        }
        case CALL: {
            auto f = u.func(g, "f", {{"i", 3, false}, {"j", 3, false}}, 3, false);
            u.func_body(f, {u.ret(f, u.bin(B::Sub, f.args[0], f.args[1]))});
            u.cont(g, y, u.call(g, f, {a, pv}));
            break;
        }
    }
    return l;
}
// where the value comes from
enum { BEFORE, AFTER, LATE, INITSET, INITONLY, PARENT, PARENTLATE, PARENTSWAP, INITPARENT, INITSAME, TWICE, COPIED, CHAIN, CHAINSWAP, NHOW };
static const char *HOW[] = {"set before the use", "set after the use", "set on the instance", "initial value and set", "initial value", "parent", "parent set later", "parent replaced by a value", "initial value and parent", "initial value and parent of that value", "set twice", "parent copied from it", "parent of the parent", "parent of the parent replaced"};
static void join_top(Dual &u, Generator &top, Leaf &l, int n, bool through = false) {
    std::string sfx = n ? std::to_string(n) : "";
    if (l.clk.k) {
        static const char *N[] = {"clk", "rst"};
        DX *c[] = {&l.clk, &l.rst};
        for (int i = 0; i < 2; i++) {
            DX t = u.port(top, true, N[i] + sfx, 1, false, i ? PortType::AsyncReset : PortType::Clock);
            u.cont(top, *c[i], t);
        }
    }
    auto same = [&](bool in, const std::string &nm, DX &x) {
        DX t;
        if (x.k->size().size() > 1 || x.k->size().front() > 1 || !x.k->is_packed() || x.k->get_size_param(0)) {
            std::vector<uint32_t> d(x.k->size().begin(), x.k->size().end());
            t = u.arr(top, in ? 1 : 2, nm, (int)x.k->var_width(), d, x.k->is_packed());
            if (!x.k->is_packed() || x.k->get_size_param(0)) t.k->set_explicit_array(true);
        } else t = u.port(top, in, nm, (int)x.k->width(), x.s);
        if (through) {
            // an expression over the port, which the library has to take apart
            if (in) u.cont(top, x, u.un(U::Inv, t)); else u.cont(top, t, u.un(U::Neg, x));
        } else if (in) u.cont(top, x, t);
        else u.cont(top, t, x);
    };
    same(true, "a" + sfx, l.a);
    same(false, "y" + sfx, l.y);
}
struct Given { PP own; int parent_value = 0; };
static int before(int how, int use, int fin) {
    // the value while the module is built
    if (how == BEFORE || how == INITONLY || how == INITSAME) return fin;
    for (int v : USES[use].values) if (v != fin) return v;
    return fin;
}
static void build(mc::Ctx &c, Dual &u, Generator &top, int use, int how, int fin, int n, Leaf &l, bool mid) {
    auto &g = u.ctx.generator("leaf");
    g.instance_name = "inst" + std::to_string(n);
    const Use &U_ = USES[use];
    auto &p = g.parameter("P", (uint32_t)U_.pw, U_.sgn);
    int now = before(how, use, fin), other = now;
    for (int v : U_.values) if (v != fin && v != now) other = v;
    bool init = how == INITSET || how == INITONLY || how == INITPARENT || how == INITSAME;
    if (init) p.set_initial_value(now);
    p.set_value(now);
    l = leaf(u, g, (mid ? "mid" + std::to_string(n) + "." : "") + g.instance_name + ".", use, p, fin, now);
    Generator *parent = &top;
    Generator *m = nullptr;
    if (mid) {
        m = &u.ctx.generator("mid" + std::to_string(n));
        m->instance_name = m->name;
        parent = m;
    }
    parent->add_child_generator(g.instance_name, g.shared_from_this());
    Param *t = nullptr;
    auto from = [&](int v) {
        t = &parent->parameter(n ? "T" + std::to_string(n) : "T", (uint32_t)U_.pw, U_.sgn);
        t->set_value(v);
        p.set_value(pp(*t));
    };
    switch (how) {
        case BEFORE: case INITONLY: break;
        case TWICE: p.set_value(other); p.set_value(fin); break;
        case PARENT: case INITPARENT: case INITSAME: from(fin); break;
        case PARENTLATE: from(now); t->set_value(fin); break;
        case PARENTSWAP: from(other); p.set_value(fin); break;
        case CHAIN: case CHAINSWAP: {
            from(now);
            auto &tt = top.parameter(n ? "TT" + std::to_string(n) : "TT", (uint32_t)U_.pw, U_.sgn);
            tt.set_value(how == CHAIN ? now : other);
            t->set_value(pp(tt));
            if (how == CHAIN) tt.set_value(fin); else t->set_value(fin);
            break;
        }
        case COPIED:
            t = &parent->parameter(pp(p), n ? "T" + std::to_string(n) : "T");
            p.set_value(pp(*t));
            t->set_value(fin);
            break;
        default: p.set_value(fin);
    }
    (void)c;
    if (mid) {
        // the middle module gets its parameter from the one above or keeps it
        std::vector<kratos::Port *> ps;
        DX ma, my;
        Leaf lm = l;
        auto &a = m->port(dynamic_cast<kratos::Port &>(*l.a.k), p.parent_param() != nullptr);
        auto &y = m->port(dynamic_cast<kratos::Port &>(*l.y.k), p.parent_param() != nullptr);
        std::string s = m->instance_name + ".";
        lm.a = u.wrap(a, s + "a", l.a.w, l.a.s), lm.y = u.wrap(y, s + "y", l.y.w, l.y.s);
        u.cont(*m, l.a, lm.a);
        u.cont(*m, lm.y, l.y);
        if (l.clk.k) {
            auto &ck = m->port(PortDirection::In, "clk", 1, PortType::Clock);
            auto &rs = m->port(PortDirection::In, "rst", 1, PortType::AsyncReset);
            lm.clk = u.wrap(ck, s + "clk", 1, false), lm.rst = u.wrap(rs, s + "rst", 1, false);
            u.cont(*m, l.clk, lm.clk);
            u.cont(*m, l.rst, lm.rst);
        }
        top.add_child_generator(m->instance_name, m->shared_from_this());
        l.a = lm.a, l.y = lm.y, l.clk = lm.clk, l.rst = lm.rst;
    }
}
static void reported(mc::Ctx &c, const std::string &key, const std::string &what, Leaf &l, int use, int fin, bool after = false) {
    auto v = l.p->value();
    if (v != fin) c.fail(key + ":value", what + ": the value reported is " + std::to_string(v) + " instead of " + std::to_string(fin));
    for (auto &[n, x] : l.shapes)
        // a pass may have removed a variable
        if ((!after || n == "a" || n == "y") && (int)x.k->width() != x.w) c.fail(key + ":shape", what + ": the width of " + n + " is reported as " + std::to_string(x.k->width()) + " instead of " + std::to_string(x.w));
    (void)use;
}
static Check pk(const std::string &key, bool full) { Check k; k.key = key; k.emit.passes = full ? standard : minimal; return k; }
static void opts(Check &k, std::vector<Leaf> &ls) {
    for (size_t i = 0; i < ls.size(); i++) {
        std::string s = i ? std::to_string(i) : "";
        if (ls[i].clk.k) k.opt.clocks.push_back("clk" + s), k.opt.clocks.push_back("rst" + s);
        if (ls[i].y.w > 8 || ls.size() > 1) {
            int w = ls[i].a.w;
            u128 top = w >= 2 ? ((u128)1 << (w - 1)) : 1;
            k.opt.alphabet["a" + s] = w > 4 || ls[i].clk.k ? std::vector<u128>{0, 1, top, top | 1} : std::vector<u128>{};
            if (k.opt.alphabet["a" + s].empty()) k.opt.alphabet.erase("a" + s);
        }
    }
}
static void one(mc::Ctx &c) {
    Dual u;
    auto &top = u.ctx.generator("mod");
    u.top = &top;
    int use = c.choose(NUSE, "use"), how = c.choose(NHOW, "how");
    int fin = c.pick(USES[use].values, "value");
    bool mid = c.flip("two levels"), full = c.flip("standard"), through = c.flip("through expressions");
    if (!mid && (how == CHAIN || how == CHAINSWAP)) c.skip();
    if (through && (use == UNPACKED || use == SIZEVAR)) c.skip();
    std::string t = std::string(USES[use].name) + ", " + HOW[how];
    std::vector<Leaf> ls(1);
    accepted(c, t + ":rejected", t, [&] {
        build(c, u, top, use, how, fin, 0, ls[0], mid);
        join_top(u, top, ls[0], 0, through);
    });
    reported(c, t, t, ls[0], use, fin);
    auto k = pk(t, full);
    opts(k, ls);
    check(c, u, k, k.key + " = " + std::to_string(fin));
    reported(c, t + " after passes", t, ls[0], use, fin, true);
}
static void two(mc::Ctx &c) {
    Dual u;
    auto &top = u.ctx.generator("mod");
    u.top = &top;
    int use = c.choose(NUSE, "use");
    int how[2], fin[2];
    std::string t = USES[use].name;
    for (int i = 0; i < 2; i++) {
        how[i] = c.thorough ? c.choose(CHAIN, "how") : c.pick(std::vector<int>{AFTER, INITSET, INITONLY, PARENTLATE, PARENTSWAP}, "how");
        fin[i] = c.pick(USES[use].values, "value");
        t += std::string(", ") + HOW[how[i]];
    }
    std::vector<Leaf> ls(2);
    accepted(c, t + ":rejected", t, [&] {
        for (int i = 0; i < 2; i++) {
            build(c, u, top, use, how[i], fin[i], i, ls[i], false);
            join_top(u, top, ls[i], i);
        }
    });
    for (int i = 0; i < 2; i++) reported(c, t, t, ls[i], use, fin[i]);
    auto k = pk(t, true);
    opts(k, ls);
    check(c, u, k, k.key + " = " + std::to_string(fin[0]) + ", " + std::to_string(fin[1]));
}
// the value of the parameter of the top module given by whoever instantiates the emitted text
static void outside(mc::Ctx &c) {
    Dual u;
    auto &top = u.ctx.generator("mod");
    u.top = &top;
    std::vector<int> uses;
    for (int i = 0; i < NUSE; i++) if (!USES[i].resize) uses.push_back(i);
    int use = c.pick(uses, "use"), how = c.pick(std::vector<int>{PARENT, PARENTLATE, INITPARENT, INITSAME, COPIED, CHAIN}, "how");
    int fin = c.pick(USES[use].values, "value");
    bool mid = how == CHAIN, full = c.flip("standard"), through = c.flip("through expressions");
    std::string t = std::string(USES[use].name) + ", given from outside, " + HOW[how];
    std::vector<Leaf> ls(1);
    // every reference to the parameter reads the value given, the library knows another one
    int lib = c.pick(USES[use].values, "value in the program");
    accepted(c, t + ":rejected", t, [&] {
        REF = fin;
        build(c, u, top, use, how, lib, 0, ls[0], mid);
        REF = NOREF;
        join_top(u, top, ls[0], 0, through);
    });
    auto k = pk(t, full);
    opts(k, ls);
    rtl::Design dut;
    std::string src;
    try {
        run_passes(top, k.emit.passes);
        auto x = text(top, k.emit);
        src = join(x);
        if (c.replaying) c.log += src;
        auto pv = (u128)(rtl::i128)fin & (((u128)1 << USES[use].pw) - 1);
        dut = elab(top, x, {{mid ? "TT" : "T", pv}});
    } catch (rtl::Unsupported &) { throw; }
    catch (std::exception &e) { c.fail(t + ":refused", t + ": " + e.what() + "\n" + src); }
    if (!dut.lint.empty()) c.fail(t + ":illegal-text", t + ": " + dut.lint[0] + "\n" + src);
    auto r = rtl::product(u.d, dut, k.opt);
    c.states(r.states);
    c.trans(r.trans);
    c.trace();
    if (!r.ok) c.fail(t, t + " = " + std::to_string(fin) + "\n" + r.msg + "\n" + src);
}
// values that no width can have are refused and leave everything as it was
static void refused(mc::Ctx &c) {
    Dual u;
    auto &top = u.ctx.generator("mod");
    auto &g = u.ctx.generator("leaf");
    bool above = c.flip("through the parent"), wide = c.flip("also a size"), expr = c.flip("plus one");
    auto &p = g.parameter("P", 32u, false);
    p.set_value(2);
    auto &a = g.port(PortDirection::In, "a", 2u);
    a.set_width_param(expr ? (kratos::Var *)&(p + kratos::constant(1, 32)) : &p);
    auto &b = g.port(PortDirection::In, "b", 2u);
    if (wide) b.set_size_param(0, &p);
    top.add_child_generator("inst", g.shared_from_this());
    auto &t = top.parameter("T", 32u, false);
    t.set_value(2);
    if (above) p.set_value(pp(t));
    for (int i = 0; i < 3; i++) {
        int v = c.pick(std::vector<int>{0, 3, -1, 1}, "value");
        int64_t before = p.value(), tb = t.value();
        bool threw = false;
        try { if (above) t.set_value(v); else p.set_value(v); } catch (std::exception &) { threw = true; }
        std::string w = "setting " + std::to_string(v) + (above ? " through the parent" : "");
        if (threw != (v <= 0)) c.fail(threw ? "refused" : "accepted", w + (threw ? " is refused" : " is accepted"));
        int64_t now = threw ? before : v;
        if (p.value() != now || t.value() != (threw || !above ? tb : v)) c.fail("value after", w + ": the parameter is " + std::to_string(p.value()) + " and its parent " + std::to_string(t.value()));
        if (a.width() != now + expr || b.width() != (wide ? 2 * now : 2)) c.fail("width after", w + ": the widths are " + std::to_string(a.width()) + " and " + std::to_string(b.width()));
        c.trans(1);
    }
    c.states(1);
    c.outcome((uint64_t)p.value());
}
int main(int argc, char **argv) {
    std::cerr.rdbuf(nullptr);
    std::vector<mc::Family> fams = {
        {"one instance", one, -1},
        {"two instances", two, -1},
        {"given from outside", outside, -1},
        {"refused", refused, -1},
    };
    return mc::run("C20", fams, argc, argv, "model_checking",
                   {"parameters of 2, 3 and 32 bits with three values each; uses and ways of setting listed in checks/C20.cc",
                    "type parameters and enumeration parameters are not covered; values given from outside only where no width depends on them"});
}
