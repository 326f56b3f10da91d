// C05: statement-level passes leave every output of every design alone.
#include <iostream>
#include "dual.hh"
using namespace dual;
using rtl::u128;
typedef std::vector<DS> L;
struct P {
    Dual u;
    Generator *g;
    DX x, y, z, a, b, o, p, clk;
    bool clocked = false;
    std::string t;
    std::map<std::string, std::vector<u128>> alpha;
    explicit P(bool clocked) : clocked(clocked) {
        g = &u.ctx.generator("mod");
        if (clocked) clk = u.port(*g, true, "clk", 1, false, PortType::Clock);
        x = u.port(*g, true, "x", 2);
        y = u.port(*g, true, "y", 2);
        z = u.port(*g, true, "z", 1);
        a = u.port(*g, true, "a", 2);
        o = u.port(*g, false, "o", 2);
        p = u.port(*g, false, "p", 2);
    }
    DS as(const DX &l, const DX &r) { t += l.t + "=" + r.t + "; "; return u.assign(l, r, clocked); }
    DX k2(int v) { return u.con(v, 2); }
    void block(const L &l) { if (clocked) u.seq(*g, {{clk, true}}, l); else u.comb(*g, l); }
    DS ifs(const DX &c, const std::function<L()> &th, const std::function<L()> &el) {
        t += "if(" + c.t + "){ ";
        L a = th();
        t += "} ";
        L b;
        if (el) { t += "else{ "; b = el(); t += "} "; }
        return u.if_(c, a, b);
    }
};
static const std::vector<std::string> ALL = {"transform_if_to_case", "merge_if_block", "remove_fanout_one_wires", "dead_code_elimination", "merge_wire_assignments", "remove_unused_vars", "remove_unused_stmts", "sort_stmts", "sort_initial_stmts", "fix_assignment_type", "merge_const_port_assignment", "remove_assertion", "ssa_transform_fix"};
// how a pass is embedded: alone first, in its usual place, last, or next to another one
static std::vector<std::string> embed(mc::Ctx &c, const std::string &pass, std::string &t, bool pairs) {
    std::vector<std::string> r;
    int at = c.choose(pairs ? 2 : 3, "place");
    std::vector<std::string> ps = {pass};
    if (pairs) {
        int q = c.choose((int)ALL.size(), "other pass");
        if (c.flip("other first")) ps.insert(ps.begin(), ALL[q]); else ps.push_back(ALL[q]);
    }
    // sorting knows instantiations, so it may come after them
    if (at == 0) r = ps;
    r.insert(r.end(), {"decouple_generator_ports", "fix_assignment_type"});
    if (at == 1) r.insert(r.end(), ps.begin(), ps.end());
    r.insert(r.end(), {"create_module_instantiation", "create_interface_instantiation"});
    if (at == 2) r.insert(r.end(), ps.begin(), ps.end());
    t = "[" + std::to_string(at);
    for (auto &q : ps) t += " " + q;
    t += "] " ;
    return r;
}
static void fin(mc::Ctx &c, P &v, const std::string &pass, bool pairs) {
    Check k;
    std::string e;
    k.emit.passes = embed(c, pass, e, pairs);
    k.key = e + v.t;
    k.opt.both_fills = false;
    k.opt.alphabet = v.alpha;
    if (v.clocked) {
        k.opt.clocks = {"clk"};
        if (!k.opt.alphabet.count("x")) k.opt.alphabet["x"] = {0, 1, 2, 3};
        if (!k.opt.alphabet.count("y")) k.opt.alphabet["y"] = {1};
        if (!k.opt.alphabet.count("a")) k.opt.alphabet["a"] = {1, 2};
    }
    check(c, v.u, k, e + v.t);
}
// ---- chains of comparisons
static void t_ifcase(mc::Ctx &c, P &v, int lvl) {
    auto &u = v.u;
    int tk = c.choose(lvl ? 11 : 4, "target");
    int n = 2 + c.choose(lvl ? 3 : v.clocked ? 1 : 2, "length");
    DX X, X2 = v.y; int w = 2; bool sg = false;
    switch (tk) {
        case 0: X = v.x; break;
        case 1: X = u.bin(B::Xor, v.x, v.y); break;
        case 2: X = v.z; w = 1; break;
        case 3: break;   // two targets
        case 4: X = u.slice(u.cat(v.x, v.y), 2, 1); { DX q = u.var(*v.g, "q", 4); u.cont(*v.g, q, u.cat(v.x, v.y)); X = u.slice(q, 2, 1); } break;
        case 5: { X = u.var(*v.g, "sx", 2, true); u.cont(*v.g, X, u.cast(v.x, true)); sg = true; break; }
        case 6: { X = u.var(*v.g, "wx", 32); u.cont(*v.g, X, u.ext(v.x, 32)); w = 32; break; }
        case 7: { X = u.var(*v.g, "wx", 33); u.cont(*v.g, X, u.ext(v.x, 33)); w = 33; break; }
        case 9: { DX q = u.var(*v.g, "q", 4); u.cont(*v.g, q, u.cat(v.x, v.y)); X = u.slice(q, 3, 2); X2 = u.slice(q, 1, 0); break; }
        case 10: X = u.bin(B::Xor, v.x, v.y); X2 = u.bin(B::And, v.x, v.y); break;
        default: { X = u.var(*v.g, "wx", 65); u.cont(*v.g, X, u.ext(v.x, 65)); w = 65; break; }
    }
    if (n > 3 && tk > 1) c.skip();
    if (!c.thorough && v.clocked && (n > 2 || tk > 3)) c.skip();
    if (!c.thorough && n > 3) c.skip();
    int top = w == 1 ? 2 : 4;
    int oddity = lvl ? c.choose(n > (c.thorough ? 3 : 2) || v.clocked ? 1 : 6, "oddity") : c.choose(2, "oddity");   // 0 none; 1 constant on the left; 2 != ; 3 variable; 4 parameter; 5 narrower literal
    int odd_at = oddity ? c.choose(n, "at") : -1;
    int empty = lvl && n < 4 && !oddity && c.flip("empty body") ? c.choose(n, "where") : -1;
    std::vector<int> labels;
    for (int i = 0; i < n; i++) labels.push_back(c.choose(lvl ? (c.thorough || n < 3 ? top : std::min(top, 3)) : 2, "label"));
    int el = c.choose(lvl ? (c.thorough || n < 3 ? 5 : 2) : 3, "else");
    if (oddity == 5 && w == 1) c.skip();
    std::function<DS(int)> chain = [&](int i) -> DS {
        DX T = tk == 3 ? (i % 2 ? v.y : v.x) : tk > 8 && i % 2 ? X2 : X;
        DX cond, C;
        if (oddity != 5 || odd_at != i) C = u.con(sg && labels[i] > 1 ? labels[i] - 4 : labels[i], w, sg);
        if (odd_at != i) cond = u.bin(B::Eq, T, C);
        else if (oddity == 1) cond = u.bin(B::Eq, C, T);
        else if (oddity == 2) cond = u.bin(B::Ne, T, C);
        else if (oddity == 3) { if (w != 2 || sg) c.skip(); cond = u.bin(B::Eq, T, v.y); }
        else if (oddity == 4) {
            if (w > 33) c.skip();
            auto &pr = v.g->parameter("PRM" + std::to_string(i), (uint32_t)w, sg);
            pr.set_value(sg && labels[i] > 1 ? labels[i] - 4 : labels[i]);
            C.k = &pr;
            C.t = "PRM" + std::to_string(labels[i]);
            cond = u.bin(B::Eq, T, C);
        } else { C = u.con(labels[i] & 1, 1, false); if (sg) c.skip(); DX R = u.con(labels[i] & 1, w, false); R.k = C.k; R.t = "narrow" + C.t; cond = u.bin(B::Eq, T, R); }
        return v.ifs(cond, [&]() -> L { if (i == empty) return {}; return {v.as(v.o, v.k2(i ^ 3))}; }, i + 1 < n ? std::function<L()>([&, i]() -> L { return {chain(i + 1)}; })
            : el == 0 ? std::function<L()>() : std::function<L()>([&]() -> L {
                if (el == 1) return {v.as(v.o, v.a)};
                if (el == 2) return {v.as(v.o, v.a), v.as(v.p, v.y)};
                if (el == 3) return {v.ifs(v.z, [&]() -> L { return {v.as(v.o, v.a)}; }, [&]() -> L { return {v.as(v.p, v.a)}; })};
                return {u.switch_(v.y, {{v.k2(0), {v.as(v.o, v.a)}}, {v.k2(1), {v.as(v.p, v.a)}}}, nullptr)}; }));
    };
    L l = {v.as(v.o, v.y), v.as(v.p, v.k2(0))};
    if (lvl && n < 4 && c.flip("nested")) l.push_back(v.ifs(v.z, [&]() -> L { return {chain(0)}; }, nullptr)); else l.push_back(chain(0));
    v.block(l);
}
// ---- independent ifs in a marked block
static void t_mergeif(mc::Ctx &c, P &v, int lvl) {
    auto &u = v.u;
    DX q = u.var(*v.g, "q", 2);
    DX q4;
    bool sl = lvl && !v.clocked && c.flip("selections");
    if (sl) { q4 = u.var(*v.g, "q4", 3); u.cont(*v.g, q4, u.cat(v.z, v.x)); }
    int n = 2 + (lvl && (c.thorough || !v.clocked) && !sl ? c.choose(2, "ifs") : 0);
    L l = {v.as(v.o, v.y), v.as(v.p, v.k2(0)), v.as(q, v.x)};
    for (int i = 0; i < n; i++) {
        if (i && (lvl ? c.choose(n > 2 && !c.thorough ? 1 : 2, "between") : 0)) l.push_back(c.flip("which") ? v.as(v.p, v.o) : v.as(v.o, v.a));
        DX T = c.pick(sl ? std::vector<DX>{u.slice(q4, 2, 1), u.slice(q4, 1, 0)} : std::vector<DX>{v.x, q}, "target");
        int lab = c.choose(2, "label");
        int body = c.choose(!lvl || sl ? 2 : n > 2 ? (c.thorough ? 3 : 2) : 4, "body");
        if (!lvl || sl) body *= 2;
        auto B_ = [&]() -> L {
            switch (body) {
                case 0: return {v.as(v.o, v.k2(3 - i))};
                case 1: return {v.as(v.p, v.o)};
                case 2: return {v.as(q, v.k2(1))};
                default: return {v.ifs(v.z, [&]() -> L { return {v.as(v.o, v.a)}; }, nullptr)};
            }
        };
        bool el = c.flip("else");
        DX C = v.k2(lab);
        l.push_back(v.ifs(u.bin(B::Eq, T, C), B_, el ? std::function<L()>([&]() -> L { return {v.as(i % 2 ? v.o : v.p, v.a)}; }) : nullptr));
    }
    auto attr = std::make_shared<kratos::Attribute>();
    attr->value_str = "merge_if_block";
    std::shared_ptr<kratos::StmtBlock> blk;
    v.block(l);
    v.g->get_stmt(v.g->stmts_count() - 1)->add_attribute(attr);
}
// ---- bits wired one at a time
static void t_wires(mc::Ctx &c, P &v, int lvl) {
    auto &u = v.u;
    int kind = c.choose(lvl ? 5 : 2, "kind");   // 0 module level, 1 in a process, 2 array module level, 3 array process, 4 three bits
    DX src = v.a, dst = v.o;
    int n = 2;
    bool proc = kind == 1 || kind == 3;
    if (kind == 0 || kind == 2 || kind == 4) { if (v.clocked) c.skip(); }
    if (kind == 2 || kind == 3) {
        int ew = c.flip("wide elements") ? 2 : 1;
        src = u.arr(*v.g, 0, "s", ew, {2}); dst = u.arr(*v.g, 0, "d", ew, {2});
        for (int i = 0; i < 2; i++) { u.cont(*v.g, u.elem(src, i, ew), ew == 2 ? (i ? v.x : v.a) : u.slice(v.a, i, i)); }
        if (ew == 2) u.cont(*v.g, v.o, u.bin(B::Sub, u.elem(dst, 0, ew), u.elem(dst, 1, ew))); else u.cont(*v.g, v.o, u.cat(u.elem(dst, 1, ew), u.elem(dst, 0, ew)));
        v.t += "ew" + std::to_string(ew) + " ";
    } else if (kind == 4) {
        n = 3;
        src = u.var(*v.g, "s", 3); dst = u.var(*v.g, "d", 3);
        u.cont(*v.g, src, u.cat(v.z, v.a));
        u.cont(*v.g, v.o, u.slice(dst, 2, 1)); u.cont(*v.g, v.p, u.ext(u.slice(dst, 0, 0), 2));
    }
    auto el = [&](const DX &d, int i) { return kind == 2 || kind == 3 ? u.elem(d, i, d.w / 2) : u.slice(d, i, i); };
    if (!proc) {
        if (kind == 0) { int m = c.choose(3, "p"); if (m == 0) u.cont(*v.g, v.p, v.y); else for (int i = 0; i < 2; i++) u.cont(*v.g, el(v.p, i), m == 1 ? el(v.a, i) : u.bin(B::Xor, el(v.a, i), el(v.o, 1 - i))); }
        if (kind == 2) u.cont(*v.g, v.p, v.y);
        std::vector<int> order = {0, 1, 2};
        order.resize(n);
        if (c.flip("descending")) std::reverse(order.begin(), order.end());
        bool rng = kind == 4 && c.flip("a range");
        if (rng) {
            // two statements for three bits
            int lo = c.choose(2, "range low");
            v.t += "range ";
            u.cont(*v.g, u.slice(dst, lo + 1, lo), u.slice(src, 1, 0));
            u.cont(*v.g, u.slice(dst, lo ? 0 : 2, lo ? 0 : 2), u.slice(src, 2, 2));
        } else for (int i : order) {
            int j = c.choose(n + (kind == 4 ? 0 : 2), "from");
            if (j == n) { DX r = el(src, 0); u.cont(*v.g, el(dst, i), u.un(U::Inv, r)); v.t += "d" + std::to_string(i) + "=~s0; "; }
            else if (j == n + 1) { DX r = kind == 2 ? u.elem(src, v.z, src.w / 2) : u.bit(src, v.z); u.cont(*v.g, el(dst, i), r); v.t += "d" + std::to_string(i) + "=s[z]; "; }
            else { u.cont(*v.g, el(dst, i), el(src, j)); v.t += "d" + std::to_string(i) + "=s" + std::to_string(j) + "; "; }
        }
        return;
    }
    L l;
    if (kind == 1) { l.push_back(v.as(v.o, v.y)); l.push_back(v.as(v.p, v.x)); }
    else { u.cont(*v.g, v.p, v.y); l.push_back(v.as(dst, src)); }
    int k = 2 + (lvl ? c.choose(2, "statements") : 0);
    for (int i = 0; i < k; i++) {
        switch (c.choose(kind == 1 ? 8 : 5, "statement")) {
            case 0: l.push_back(v.as(el(dst, 0), el(src, 0))); break;
            case 1: l.push_back(v.as(el(dst, 1), el(src, 1))); break;
            case 2: l.push_back(v.as(el(dst, 0), el(src, 1))); break;
            case 3: l.push_back(v.as(kind == 1 ? u.bit(dst, v.z) : u.elem(dst, v.z, dst.w / 2), el(src, 1))); break;
            case 4: l.push_back(v.as(el(dst, 1), kind == 1 ? u.bit(src, v.z) : u.elem(src, v.z, src.w / 2))); break;
            case 5: l.push_back(v.as(dst, v.x)); break;
            case 6: l.push_back(v.as(v.p, v.o)); break;
            default: l.push_back(v.ifs(v.z, [&]() -> L { return {v.as(el(dst, 0), el(src, 0)), v.as(el(dst, 1), el(src, 1))}; }, nullptr)); break;
        }
    }
    v.block(l);
}
// ---- chains of plain wires
static void t_fanout(mc::Ctx &c, P &v, int lvl) {
    auto &u = v.u;
    DX w1 = u.var(*v.g, "w1", 2), w2 = u.var(*v.g, "w2", 2), w3 = u.var(*v.g, "w3", 2);
    int from = c.choose(lvl ? 6 : 2, "driver");
    v.t += "from" + std::to_string(from) + " ";
    DX head = w1;
    switch (from) {
        case 0: u.cont(*v.g, w1, v.a); break;
        case 1: v.block({v.ifs(v.z, [&]() -> L { return {v.as(w1, v.a)}; }, [&]() -> L { return {v.as(w1, v.x)}; })}); break;
        case 2: u.cont(*v.g, w1, u.bin(B::Add, v.a, v.x)); break;
        case 3: u.cont(*v.g, u.slice(w1, 0, 0), v.z); u.cont(*v.g, u.slice(w1, 1, 1), u.slice(v.a, 0, 0)); break;
        case 4: u.cont(*v.g, w1, v.k2(2)); break;
        default: u.cont(*v.g, u.cat(u.slice(w1, 0, 0), u.slice(w1, 1, 1)), v.a); break;
    }
    int mid = c.choose(lvl ? 4 : 2, "middle");
    v.t += "mid" + std::to_string(mid) + " ";
    switch (mid) {
        case 0: u.cont(*v.g, w2, w1); u.cont(*v.g, w3, w2); break;
        case 1: u.cont(*v.g, u.slice(w2, 0, 0), u.slice(w1, 0, 0)); u.cont(*v.g, u.slice(w2, 1, 1), u.slice(w1, 1, 1)); u.cont(*v.g, w3, w2); break;
        case 2: u.cont(*v.g, w2, w1); u.cont(*v.g, u.slice(w3, 0, 0), u.slice(w2, 0, 0)); u.cont(*v.g, u.slice(w3, 1, 1), v.z); break;
        default: u.cont(*v.g, w2, w1); v.block({v.as(w3, w2)}); break;
    }
    // somebody else looks at the wire in the middle
    int use = c.choose(lvl ? 14 : 3, "use");
    DX wu = c.pick(std::vector<DX>{w2, w1}, "used wire");
    v.t += "use" + std::to_string(use) + " " + wu.t + " ";
    switch (use) {
        case 0: u.cont(*v.g, v.p, v.y); break;
        case 1: u.cont(*v.g, v.p, wu); break;
        case 2: v.block({v.as(v.p, v.y), v.ifs(u.slice(wu, 0, 0), [&]() -> L { return {v.as(v.p, v.x)}; }, nullptr)}); break;
        case 3: v.block({v.as(v.p, v.y), u.switch_(wu, {{v.k2(1), {v.as(v.p, v.x)}}}, nullptr)}); break;
        case 4: u.cont(*v.g, v.p, u.mux(u.slice(wu, 1, 1), v.x, v.y)); break;
        case 5: { DX m = u.var(*v.g, "m", 4); u.cont(*v.g, m, u.cat(v.x, v.y)); u.cont(*v.g, v.p, u.ext(u.bit(m, wu), 2)); break; }
        case 6: v.block({v.as(v.p, v.y), v.as(u.bit(v.p, u.slice(wu, 0, 0)), v.z)}); break;
        case 7: { auto f = u.func(*v.g, "f", {{"i", 2, false}}, 2, false); u.func_body(f, {u.ret(f, u.un(U::Inv, f.args[0]))}); u.cont(*v.g, v.p, u.call(*v.g, f, {wu})); break; }
        case 8: { DX s = u.var(*v.g, "s", 2, true); u.cont(*v.g, s, u.cast(wu, true)); u.cont(*v.g, v.p, u.cast(s, false)); break; }
        case 9: u.cont(*v.g, u.slice(v.p, 0, 0), u.slice(wu, 1, 1)); u.cont(*v.g, u.slice(v.p, 1, 1), v.z); break;
        case 10: { if (v.clocked) c.skip(); L l = {v.as(v.p, v.y)}; l.push_back(u.for_("i", 0, 2, 1, [&](const DX &) -> L { return {u.assign(v.p, u.bin(B::Add, v.p, wu))}; })); v.block(l); break; }
        case 11: u.cont(*v.g, v.p, u.dup(u.slice(wu, 0, 0), 2)); break;
        case 12: v.block({v.as(v.p, v.y), v.ifs(u.bin(B::Eq, wu, v.k2(2)), [&]() -> L { return {v.as(v.p, v.x)}; }, nullptr)}); break;
        default: {
            // a chain of one-bit wires ends in a sensitivity list
            if (v.clocked || mid || from) c.skip();
            DX c1 = u.var(*v.g, "c1", 1), c2 = u.var(*v.g, "c2", 1), c3 = u.var(*v.g, "c3", 1);
            u.cont(*v.g, c1, v.z); u.cont(*v.g, c2, c1); u.cont(*v.g, c3, c2);
            u.seq(*v.g, {{c.pick(std::vector<DX>{c1, c2, c3}, "clock"), true}}, {u.assign(v.p, v.x, true)});
            v.alpha["y"] = {1}; v.alpha["a"] = {1, 2}; v.alpha["x"] = {1, 2};
        }
    }
    int out = c.choose(lvl ? 7 : 1, "out");
    v.t += "out" + std::to_string(out);
    switch (out) {
        case 0: u.cont(*v.g, v.o, w3); break;
        case 1: u.cont(*v.g, v.o, u.un(U::Inv, w3)); break;
        case 2: { DX w4 = u.var(*v.g, "w4", 2); u.cont(*v.g, w4, w3); u.cont(*v.g, v.o, w4); break; }
        case 3: v.block({v.as(v.o, w3)}); break;
        // an output that is read inside to drive other outputs
        case 4: { DX q = u.port(*v.g, false, "q", 2); u.cont(*v.g, v.o, w3); u.cont(*v.g, q, v.o); break; }
        case 5: { DX q = u.port(*v.g, false, "q", 2), w4 = u.var(*v.g, "w4", 2); u.cont(*v.g, v.o, w3); u.cont(*v.g, w4, v.o); u.cont(*v.g, q, w4); break; }
        default: { DX q = u.port(*v.g, false, "q", 2), r = u.port(*v.g, false, "r", 2); u.cont(*v.g, v.o, v.a); u.cont(*v.g, q, v.o); u.cont(*v.g, r, w3); break; }
    }
}
// ---- logic nothing depends on
static void t_dead(mc::Ctx &c, P &v, int lvl) {
    auto &u = v.u;
    DX d1 = u.var(*v.g, "d1", 2), d2 = u.var(*v.g, "d2", 2);
    int k = c.choose(lvl ? 10 : 4, "dead"), m = c.choose(lvl ? 9 : 3, "live");
    v.t += "dead" + std::to_string(k) + " live" + std::to_string(m) + " ";
    L l = {v.as(v.o, v.y)};
    auto dead = [&]() -> L {
        switch (k) {
            case 0: return {v.as(d1, v.a)};
            case 1: return {v.as(d1, v.a), v.as(d2, d1)};
            case 2: return {v.as(u.slice(d1, 0, 0), v.z), v.as(u.slice(d1, 1, 1), v.z)};
            case 3: return {v.as(d1, v.a), v.as(d2, u.bin(B::Add, d1, v.x))};
            case 4: return {v.ifs(v.z, [&]() -> L { return {v.as(d1, v.a)}; }, nullptr)};
            case 5: if (!v.clocked) c.skip(); return {v.as(d1, u.bin(B::Add, d1, v.a))};
            case 6: return {u.switch_(v.x, {{v.k2(0), {v.as(d1, v.a)}}, {v.k2(1), {v.as(d1, v.y)}}}, nullptr)};
            case 7: return {v.as(u.bit(d1, v.z), v.z)};
            case 8: return {v.as(d1, v.a), v.ifs(u.slice(d1, 0, 0), [&]() -> L { return {v.as(d2, v.x)}; }, nullptr)};
            default: if (!v.clocked) c.skip(); return {v.as(d1, d2), v.as(d2, d1)};
        }
    };
    DS s;
    switch (m) {
        case 0: for (auto &q : dead()) l.push_back(q); break;
        case 1: l.push_back(v.ifs(v.z, dead, [&]() -> L { return {v.as(v.o, v.a)}; })); break;
        case 2: l.push_back(v.ifs(v.z, [&]() -> L { return {v.as(v.o, v.a)}; }, dead)); break;
        case 3: { L q = dead(); std::vector<std::pair<DX, L>> it = {{v.k2(0), q}, {v.k2(1), {v.as(v.o, v.a)}}}; L df = {v.as(v.o, v.x)}; l.push_back(u.switch_(v.x, it, &df)); break; }
        case 4: { L q = dead(); l.push_back(u.switch_(v.x, {{v.k2(0), {v.as(v.o, v.a)}}, {v.k2(1), {v.as(v.o, v.k2(3))}}}, &q)); break; }
        case 5: l.push_back(v.ifs(u.bin(B::Eq, v.x, v.k2(1)), dead, [&]() -> L { return {v.as(v.o, v.a)}; })); break;
        case 6: l.push_back(v.ifs(v.x, dead, [&]() -> L { return {v.as(v.o, v.a)}; })); break;   // a condition of two bits
        case 7: l.push_back(v.ifs(v.z, [&]() -> L { return {v.ifs(u.slice(v.x, 0, 0), dead, nullptr)}; }, [&]() -> L { return {v.as(v.o, v.a)}; })); break;
        default: l.push_back(v.ifs(v.z, dead, nullptr)); break;
    }
    // a second process that only feeds dead logic, and one that feeds the output through a variable
    int extra = c.choose(lvl ? 5 : 1, "extra");
    v.t += "extra" + std::to_string(extra);
    v.block(l);
    switch (extra) {
        case 0: u.cont(*v.g, v.p, v.y); break;
        case 1: { DX e = u.var(*v.g, "e", 2); u.cont(*v.g, e, u.bin(B::Xor, v.a, v.x)); u.cont(*v.g, v.p, v.y); break; }
        case 2: { DX e = u.var(*v.g, "e", 2); u.cont(*v.g, e, u.bin(B::Xor, v.a, v.x)); u.comb(*v.g, {u.assign(v.p, v.y), u.if_(u.slice(e, 0, 0), {u.assign(v.p, v.x)}, {})}); break; }
        case 3: { DX e = u.var(*v.g, "e", 2), f = u.var(*v.g, "f", 4); u.cont(*v.g, e, u.bin(B::Xor, v.a, v.x)); u.cont(*v.g, f, u.cat(v.x, v.y)); u.cont(*v.g, v.p, u.cat(v.z, u.bit(f, e))); break; }
        default: { DX e = u.var(*v.g, "e", 2); u.cont(*v.g, e, u.bin(B::Xor, v.a, v.x)); u.comb(*v.g, {u.assign(v.p, v.y), u.switch_(e, {{v.k2(1), {u.assign(v.p, v.x)}}}, nullptr)}); break; }
    }
}
// ---- every kind of top-level item in every order
static void t_items(mc::Ctx &c, P &v, int lvl) {
    auto &u = v.u;
    std::vector<int> kinds = {0, 1, 2, 3, 4, 5};
    DX q = u.var(*v.g, "q", 2), r = u.var(*v.g, "r", 2), i0 = u.var(*v.g, "i0", 2), la = u.var(*v.g, "la", 2), e = u.var(*v.g, "e", 2);
    bool has_init = c.flip("initial"), has_fn = lvl && c.flip("function"), empty = c.flip("empty process"), child = c.flip("child"), latch = lvl && c.flip("latch");
    std::vector<std::function<void()>> items;
    items.push_back([&] { u.cont(*v.g, v.o, u.bin(B::Xor, q, r)); });
    items.push_back([&] { if (v.clocked) u.seq(*v.g, {{v.clk, true}}, {u.assign(q, v.a, true)}); else u.comb(*v.g, {u.assign(q, v.a)}); });
    items.push_back([&] { u.comb(*v.g, {u.assign(r, u.bin(B::Add, q, v.x))}); });
    std::function<DX()> pv = [&]() -> DX { return v.y; };
    if (has_init) items.push_back([&] { u.initial(*v.g, {u.assign(i0, v.k2(2))}); });
    if (empty) items.push_back([&] { v.g->combinational(); });
    if (latch) items.push_back([&] { u.latch(*v.g, {u.if_(v.z, {u.assign(la, v.x)}, {})}); });
    Dual::Fn f;
    if (has_fn) items.push_back([&] { f = u.func(*v.g, "f", {{"i", 2, false}}, 2, false); u.func_body(f, {u.ret(f, u.un(U::Inv, f.args[0]))}); });
    if (child) items.push_back([&] {
        auto &ch = u.ctx.generator("child");
        ch.instance_name = "inst";
        DX ci = u.port(ch, true, "ci", 2), co = u.port(ch, false, "co", 2);
        u.cont(ch, co, u.un(U::Inv, ci));
        v.g->add_child_generator("inst", ch.shared_from_this());
        u.cont(*v.g, ci, v.x);
        u.cont(*v.g, e, co);
    });
    v.t += std::string(has_init ? "init " : "") + (has_fn ? "fn " : "") + (empty ? "empty " : "") + (child ? "child " : "") + (latch ? "latch " : "");
    // rotations and the reverse are enough to put every item before and after every other
    int rot = c.choose((int)items.size(), "rotation");
    bool rev = c.flip("reverse");
    std::rotate(items.begin(), items.begin() + rot, items.end());
    if (rev) std::reverse(items.begin(), items.end());
    v.t += "rot" + std::to_string(rot) + (rev ? "r" : "");
    for (auto &f_ : items) f_();
    DX acc = v.y;
    if (has_init) acc = u.bin(B::Xor, acc, i0);
    if (child) acc = u.bin(B::Add, acc, e);
    if (latch) acc = u.bin(B::Sub, acc, la);
    if (has_fn) acc = u.bin(B::Xor, acc, u.call(*v.g, f, {v.a}));
    u.cont(*v.g, v.p, acc);
    if (v.clocked || latch) { v.alpha["x"] = {1, 2}; v.alpha["y"] = {1}; v.alpha["a"] = {0, 3}; }
}
typedef void (*T)(mc::Ctx &, P &, int);
static void one(mc::Ctx &c, T f, const std::vector<std::string> &passes, int lvl, bool pairs) {
    P v(c.flip("clocked"));
    f(c, v, lvl);
    fin(c, v, passes.size() == 1 ? passes[0] : passes[c.choose((int)passes.size(), "pass")], pairs);
}
int main(int argc, char **argv) {
    std::cerr.rdbuf(nullptr);   // a pass warns about unused variables
    std::vector<mc::Family> f;
    auto add = [&](const std::string &n, T t, const std::vector<std::string> &p, int depth) {
        f.push_back({n, [=](mc::Ctx &c) { one(c, t, p, 1, false); }, depth});
        f.push_back({n + " pairs", [=](mc::Ctx &c) { one(c, t, p, c.thorough ? 1 : 0, true); }, depth});
    };
    add("ifcase", t_ifcase, {"transform_if_to_case"}, 5);
    add("mergeif", t_mergeif, {"merge_if_block"}, 5);
    add("wires", t_wires, {"merge_wire_assignments"}, 5);
    add("fanout", t_fanout, {"remove_fanout_one_wires"}, 5);
    add("dead", t_dead, {"dead_code_elimination"}, 4);
    add("items", t_items, {"sort_stmts", "sort_initial_stmts", "remove_unused_stmts", "remove_unused_vars"}, 4);
    // every pass on every shape
    T shapes[] = {t_ifcase, t_mergeif, t_wires, t_fanout, t_dead, t_items};
    for (int i = 0; i < 6; i++) {
        T t = shapes[i];
        static const char *names[] = {"ifcase", "mergeif", "wires", "fanout", "dead", "items"};
        f.push_back({std::string("all passes on ") + names[i], [=](mc::Ctx &c) { one(c, t, ALL, c.thorough ? 1 : 0, false); }, 4});
    }
    return mc::run("C05", f, argc, argv, "model_checking",
                   {"two-bit data, shapes listed in checks/C05.cc; one pass in three places of the usual order, and every ordered pair with the pass a shape is made for",
                    "the SystemVerilog reading is that of core/svparse.cc and core/svelab.cc"});
}
