// C07: passes that add behaviour add exactly the behaviour they promise.
#include <iostream>

#include "formal.hh"
#include "hier.hh"
typedef std::vector<std::string> PL;
using rtl::EP;
using rtl::SP;
static void attr(kratos::IRNode &n, const std::string &type, const std::string &value) {
    auto a = std::make_shared<kratos::Attribute>();
    a->type_str = type;
    a->value_str = value;
    n.add_attribute(a);
}
// ---- edits of the reference machine
static SP redirect(const SP &s, int from, int to, const EP &by) {
    if (!s) return s;
    auto r = std::make_shared<rtl::Stmt>(*s);
    for (auto &l : r->lhs) { if (l.sig == from) l.sig = to; l.off = subst(l.off, from, by); }
    r->rhs = subst(s->rhs, from, by);
    for (auto &b : r->body) b = redirect(b, from, to, by);
    for (auto &[labels, b] : r->items) { for (auto &e : labels) e = subst(e, from, by); b = redirect(b, from, to, by); }
    r->dflt = redirect(s->dflt, from, to, by);
    return r;
}
static SP rif(const EP &c, const SP &t, const SP &e) {
    auto s = std::make_shared<rtl::Stmt>();
    s->k = rtl::Stmt::If;
    s->rhs = c;
    s->body = {t, e ? e : block()};
    return s;
}
static EP sg(Dual &u, int s) { return rtl::sigx(s, u.d.sigs[s].w, u.d.sigs[s].s); }
// what the processes [from, to) put on the signal appears n cycles later
static void delay(Dual &u, size_t from, size_t to, int sig, int n, const EP &clk) {
    auto &d = u.d;
    std::vector<int> st;
    for (int i = 0; i < n; i++) st.push_back(d.add_sig(d.sigs[sig].name + "#" + std::to_string(i), d.sigs[sig].w, d.sigs[sig].s));
    auto by = sg(u, st[0]);
    for (size_t i = from; i < to; i++) d.procs[i].body = redirect(d.procs[i].body, sig, st[0], by);
    for (int i = 0; i < n; i++) {
        rtl::Proc p;
        p.k = rtl::Proc::Ff;
        p.sens = {{clk, rtl::Edge::Pos}};
        int t = i + 1 < n ? st[i + 1] : sig;
        p.body = rassign({{t, nullptr, 0, d.sigs[t].w}}, sg(u, st[i]), true);
        d.procs.push_back(p);
    }
}
static const char *ORDER[] = {"first", "after instantiation", "before instantiation", "alone"};
static PL around(const std::string &pass, int order) {
    PL r;
    if (order == 1) { r = standard; r.push_back(pass); return r; }
    if (order == 3) return {pass, "decouple_generator_ports", "fix_assignment_type", "hash_generators_parallel", "uniquify_generators", "create_module_instantiation"};
    if (order == 2) return {"fix_assignment_type", "decouple_generator_ports", pass, "fix_assignment_type", "hash_generators_parallel", "uniquify_generators", "create_module_instantiation"};
    r = {pass};
    for (auto &p : standard) r.push_back(p);
    return r;
}
// ---------------------------------------------------------------- pipelines
static void zero(Dual &u, const DX &x) {
    rtl::Proc p;
    p.k = rtl::Proc::Assign;
    p.body = rassign(x.lv, rtl::cst(0, x.w), false);
    u.d.procs.push_back(p);
}
static constexpr int NLOGIC = 20;
static void logic(mc::Ctx &c, Top &v, int n) {
    auto &u = v.u;
    auto &g = *v.g;
    auto a = v.a, b = v.b, e = v.c, o = v.o, p = v.p;
    DX clk;
    switch (n) {
        case 0: u.cont(g, o, u.bin(B::Add, a, u.ext(b, 4))); u.cont(g, p, u.un(U::Inv, a)); break;
        case 1: u.comb(g, {u.if_(e, {u.assign(o, a), u.assign(p, u.con(3, 4))}, {u.assign(o, u.con(9, 4)), u.assign(p, a)})}); break;
        case 2: u.comb(g, {u.assign(o, u.con(0, 4)), u.switch_(b, {{u.con(1, 2), {u.assign(o, a)}}, {u.con(2, 2), {u.assign(u.slice(o, 2, 1), b)}}}, nullptr)}); u.cont(g, p, u.cat(b, b)); break;
        case 3: u.cont(g, u.slice(o, 3, 2), b); u.cont(g, u.slice(o, 1, 0), u.slice(a, 2, 1)); for (int i = 0; i < 4; i++) u.cont(g, u.slice(p, i, i), u.slice(a, 3 - i, 3 - i)); break;
        case 4: u.cont(g, u.cat(o, p), u.cat(u.bin(B::Xor, a, u.con(5, 4)), u.cat(b, b))); break;
        case 5: u.cont(g, o, u.bin(B::Sub, a, u.con(1, 4))); u.cont(g, p, u.un(U::Inv, o)); break;                     // an output is read inside
        case 6: u.comb(g, {u.assign(o, a), u.if_(u.bin(B::Gt, o, u.con(6, 4)), {u.assign(p, o)}, {u.assign(p, u.ext(b, 4))})}); break;
        case 7: { DX t = u.var(g, "t", 4); u.cont(g, t, u.un(U::Inv, a)); u.cont(g, o, t); u.cont(g, p, u.bin(B::And, t, a)); break; }
        case 8: { DX t = u.var(g, "o_stage_0", 4), w = u.var(g, "stage_0", 4); u.cont(g, t, u.un(U::Inv, a)); u.cont(g, w, t); u.cont(g, o, w); u.cont(g, p, t); break; }   // names the pass could pick
        case 9: { Child k = v.child("child", "inst"); v.drive4(c, k.x, 0, nullptr); v.drive1(c, k.e, 0, nullptr); u.cont(g, o, k.q); u.cont(g, p, u.cat(b, u.cat(k.r, e))); break; }
        case 10: { Child k = v.child("child", "inst", nullptr, 8); v.drive4(c, k.x, 3, nullptr); v.drive1(c, k.e, 0, nullptr); u.cont(g, u.slice(o, 1, 0), u.slice(k.q, 3, 2)); u.cont(g, u.slice(o, 3, 2), b); u.cont(g, p, k.q); break; }
        case 11: u.cont(g, o, u.con(6, 4)); u.cont(g, p, a); break;
        case 12: { DX i = u.con(0, 1); (void)i; u.comb(g, {u.for_("i", 0, 4, 1, [&](const DX &i) { return std::vector<DS>{u.assign(u.bit(o, i), u.bin(B::Xor, u.bit(a, i), e))}; })}); u.cont(g, p, a); break; }
        case 13: { auto f = u.func(g, "pick", {{"x", 4, false}}, 4, false); u.func_body(f, {u.ret(f, u.bin(B::Sub, f.args[0], u.con(2, 4)))}); u.cont(g, o, u.call(g, f, {a})); u.cont(g, p, a); break; }
        case 14: u.latch(g, {u.if_(e, {u.assign(o, a)}, {})}); u.cont(g, p, u.con(0, 4)); break;
        case 15: u.comb(g, {u.assign(o, u.con(0, 4)), u.assign(u.bit(o, b), e)}); u.cont(g, p, u.mux(u.slice(o, 0, 0), a, u.con(1, 4))); break;
        case 16: { u.cont(g, o, a); Child k = v.child("child", "inst"); v.drive4(c, k.x, 12, &o); v.drive1(c, k.e, 1, nullptr); u.cont(g, p, k.q); break; }   // an output feeds a child
        case 17: u.cont(g, o, a); u.cont(g, p, o); break;
        case 18: u.comb(g, {u.assign(p, a)}); u.comb(g, {u.assign(o, u.bin(B::Add, p, u.con(1, 4)))}); break;
        default: u.cont(g, o, u.ext(b, 4)); { DX t = u.var(g, "t", 2); u.cont(g, t, u.slice(o, 1, 0)); u.cont(g, p, u.cat(t, t)); } break;
    }
}
static const char *LOGIC[] = {"assignments", "if", "switch", "slices", "parts of a concatenation", "output read inside", "output read in a process", "inner variable", "taken names", "child", "child in slices", "constant", "for", "function",
                              "latch", "index", "output into a child", "output to output", "process to process", "slice of an output"};
static Check pk(const std::string &key, const PL &passes) {
    Check k;
    k.key = key;
    k.emit.passes = passes;
    k.opt.both_fills = false;
    return k;
}
static void pipe_top(mc::Ctx &c) {
    Top v;
    auto &u = v.u;
    int n = c.choose(NLOGIC, "logic"), N = c.choose(3, "stages") + 1, order = c.choose(4, "order"), clocks = c.choose(3, "clocks");
    v.t = std::string("pipeline ") + LOGIC[n];
    DX clk, clk2;
    accepted(c, v.t + ":rejected", v.t, [&] {
        clk = u.port(*v.g, true, "clk", 1, false, PortType::Clock);
        if (clocks) clk2 = u.port(*v.g, true, "ck2", 1, false, PortType::Clock);
        logic(c, v, n);
    });
    delay(u, 0, u.d.procs.size(), v.o.lv[0].sig, N, (clocks == 2 ? clk2 : clk).r);
    delay(u, 0, u.d.procs.size() - N, v.p.lv[0].sig, N, (clocks == 2 ? clk2 : clk).r);
    attr(*v.g, "pipeline", std::to_string(N));
    if (clocks) attr(*v.g, "pipeline_clk", clocks == 2 ? "ck2" : "clk");
    auto k = pk(v.t + " " + ORDER[order], around("insert_pipeline_stages", order));
    k.opt.clocks = {"clk"};
    if (clocks) k.opt.clocks.push_back("ck2");
    k.opt.alphabet = {{"a", {0, 6, 13}}, {"b", {1, 2}}};
    check(c, u, k, k.key + " N" + std::to_string(N) + " clocks " + std::to_string(clocks));
}
// kinds of output ports
static void pipe_port(mc::Ctx &c) {
    Dual u;
    auto &g = u.ctx.generator("mod");
    DX clk, a, o;
    int n = c.choose(12, "port"), N = c.choose(2, "stages") + 1, order = c.choose(4, "order");
    static const char *NAME[] = {"wide", "one bit", "signed", "packed array", "unpacked array", "two dimensions", "array slice by slice", "enum", "struct", "very wide", "parameter width", "inout beside"};
    std::string t = std::string("pipelined port ") + NAME[n];
    kratos::Var *param = nullptr;
    accepted(c, t + ":rejected", t, [&] {
        clk = u.port(g, true, "clk", 1, false, PortType::Clock);
        a = u.port(g, true, "a", 8, n == 2);
        switch (n) {
            case 0: o = u.port(g, false, "o", 8); u.cont(g, o, u.un(U::Inv, a)); break;
            case 1: o = u.port(g, false, "o", 1); u.cont(g, o, u.un(U::RXor, a)); break;
            case 2: o = u.port(g, false, "o", 8, true); u.cont(g, o, u.bin(B::AShr, a, u.con(1, 8, true))); break;
            case 3: case 4: case 5: case 6:
                o = u.arr(g, 2, "o", n == 5 ? 2 : 4, n == 5 ? std::vector<uint32_t>{2, 2} : std::vector<uint32_t>{2}, n != 4);
                if (n == 5) { for (int i = 0; i < 2; i++) { DX r = u.elem(o, i, 4); for (int j = 0; j < 2; j++) u.cont(g, u.elem(r, j, 2), u.slice(a, 7 - 4 * i - 2 * j, 6 - 4 * i - 2 * j)); } }
                else if (n == 6) { for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) u.cont(g, u.slice(u.elem(o, i, 4), j, j), u.slice(a, 7 - 4 * i - j, 7 - 4 * i - j)); }
                else { u.cont(g, u.elem(o, 0, 4), u.slice(a, 7, 4)); u.cont(g, u.elem(o, 1, 4), u.slice(a, 3, 0)); }
                break;
            case 7: {
                auto &en = u.ctx.enum_("mode", {{"A", 0}, {"B", 1}, {"C", 2}}, 2);
                auto &p = g.port(PortDirection::Out, "o", en.shared_from_this());
                o = u.wrap(p, "o", 2, false);
                u.d.ports["o"] = {o.lv[0].sig, 2, false, false, "logic"};
                auto comb = g.combinational();
                auto if_ = std::make_shared<kratos::IfStmt>(u.slice(a, 0, 0).p());
                if_->add_then_stmt(p.assign(en.get_enum("C"), kratos::AssignmentType::Blocking));
                if_->add_else_stmt(p.assign(en.get_enum("B"), kratos::AssignmentType::Blocking));
                comb->add_stmt(if_);
                rtl::Proc pr;
                pr.k = rtl::Proc::Comb;
                pr.body = rassign(o.lv, rtl::mk(rtl::Op::Cond, 2, false, {u.slice(a, 0, 0).r, rtl::cst(2, 2), rtl::cst(1, 2)}), false);
                u.d.procs.push_back(pr);
                break;
            }
            case 8: {
                auto s = std::make_shared<kratos::PackedStruct>("pair", std::vector<std::tuple<std::string, uint32_t, bool>>{{"lo", 3, false}, {"hi", 5, false}});
                auto &p = g.port_packed(PortDirection::Out, "o", s);
                o = u.wrap(p, "o", 8, false);
                u.d.ports["o"] = {o.lv[0].sig, 8, false, false, "logic"};
                u.cont(g, o, u.un(U::Inv, a));
                break;
            }
            case 9: o = u.port(g, false, "o", 70); u.cont(g, o, u.ext(a, 70)); break;
            case 10: {
                auto &w = g.parameter("W", 8);
                w.set_initial_value(8);
                w.set_value(8);
                o = u.port(g, false, "o", 8);
                o.k->set_width_param(w.shared_from_this());
                a.k->set_width_param(w.shared_from_this());
                u.cont(g, o, a);
                param = &w;
                break;
            }
            default: o = u.port(g, false, "o", 4); u.cont(g, o, u.slice(a, 6, 3)); break;
        }
    });
    delay(u, 0, u.d.procs.size(), o.lv[0].sig, N, clk.r);
    attr(g, "pipeline", std::to_string(N));
    auto k = pk(t + " " + ORDER[order], around("insert_pipeline_stages", order));
    k.opt.clocks = {"clk"};
    k.opt.alphabet = {{"a", {0, 0x4b, 0x96, 0xff}}};
    if (n == 4) k.opt.check_ports = true;
    check(c, u, k, k.key + " N" + std::to_string(N));
}
// the pipelined module is an instance: its outputs are used in every way
static void pipe_child(mc::Ctx &c) {
    Top v;
    auto &u = v.u;
    static const int KIND[] = {0, 1, 4, 6, 9, 8};
    int kind = KIND[c.choose(c.thorough ? 6 : 4, "child")], N = c.choose(2, "stages") + 1, order = c.choose(3, "order"), o4 = c.choose(Top::NSINK4, "q sink"), o1 = c.choose(2, "r sink"), i4 = std::vector<int>{0, 3, 6, 11}[c.choose(c.thorough ? 4 : 2, "x source")];
    bool twin = c.flip("twin");
    if (o4 == 24) c.skip();
    v.t = std::string("pipelined instance ") + Top::kind_name(kind) + (twin ? " twin" : "");
    accepted(c, v.t + ":rejected", v.t, [&] {
        DX clk = u.port(*v.g, true, "clk", 1, false, PortType::Clock);
        size_t from = u.d.procs.size();
        Child k = v.child("child", "inst", nullptr, kind);
        size_t to = u.d.procs.size();
        DX ck = u.port(*k.g, true, "clk", 1, false, PortType::Clock);
        v.drive4(c, k.x, i4, nullptr);
        v.drive1(c, k.e, 0, nullptr);
        u.cont(*v.g, ck, clk);
        attr(*k.g, "pipeline", std::to_string(N));
        delay(u, from, to, k.q.lv[0].sig, N, clk.r);
        delay(u, from, to, k.r.lv[0].sig, N, clk.r);
        if (twin) {   // the same module without the mark
            Child m = v.child("child", "other", nullptr, kind);
            DX cm = u.port(*m.g, true, "clk", 1, false, PortType::Clock);
            v.drive4(c, m.x, 0, nullptr);
            v.drive1(c, m.e, 0, nullptr);
            u.cont(*v.g, cm, clk);
            v.sink4(c, k.q, o4, v.o);
            u.cont(*v.g, v.p, u.bin(B::Xor, m.q, u.cat(v.b, u.cat(m.r, k.r))));
        } else {
            v.sink4(c, k.q, o4, v.o);
            v.sink1(c, k.r, o1, v.p);
        }
    });
    auto k = pk(v.t + " " + ORDER[order], around("insert_pipeline_stages", order));
    k.opt.clocks = {"clk"};
    k.opt.alphabet = {{"a", {6, 13}}, {"b", {1, 2}}};
    check(c, u, k, k.key + " out4:" + std::to_string(o4) + " N" + std::to_string(N));
}
// ---------------------------------------------------------------- registers with resets and enables
struct Reg {
    size_t proc;
    int reset;   // 0 none, 1 async high, 2 async low, 3 async low with the branches swapped, 4 sync, 5 cast, 6 async high and sync
    bool enabled;   // the enable is already there
    EP cond, flush;
    SP r, n;
};
static SP seqb(const std::vector<DS> &b) {
    std::vector<SP> r;
    for (auto &s : b) r.push_back(s.r);
    return block(r);
}
struct Mod {   // a module (the top or a child) with its clock, resets and enable
    Generator *g = nullptr;
    DX clk, rst, rst_n, srst, en, x, q, w;
    bool has_en = false;
    int before = 0;   // a combinational block (1) or another register (2) added before the register
};
static void something_before(Dual &u, Mod &m) {
    if (!m.before) return;
    DX w = m.w = u.port(*m.g, false, "w", 2);
    if (m.before == 1) u.comb(*m.g, {u.if_(u.slice(m.x, 0, 0), {u.assign(w, u.un(U::Inv, m.x), false)}, {u.assign(w, m.x, false)})});
    else u.seq(*m.g, {{m.clk, true}}, {u.assign(w, m.x, true)});
}
static const char *RESET[] = {"no reset", "async high", "async low", "async low swapped", "sync", "cast", "async and sync", "async without else", "async edge, test of a copy", "sync low"};
// an active-low reset tested as it is and a reset without anything else are refused by the library's own checks
static const int RESETS[] = {0, 1, 2, 4, 5, 6};
static constexpr int NRESET = 6, NBODY = 9;
static const char *BODY[] = {"one", "if", "switch", "two registers", "slices", "loop", "nested if", "if without else", "two statements"};
static std::vector<DS> body(Dual &u, Mod &m, int n) {
    auto &q = m.q;
    auto &x = m.x;
    auto A = [&](const DX &r) { return u.assign(q, r, true); };
    switch (n) {
        case 0: return {A(u.bin(B::Add, q, x))};
        case 1: return {u.if_(u.slice(x, 0, 0), {A(x)}, {A(u.bin(B::Sub, q, u.con(1, 2)))})};
        case 2: { std::vector<DS> d = {A(u.con(1, 2))}; return {u.switch_(x, {{u.con(1, 2), {A(u.con(2, 2))}}, {u.con(2, 2), {A(x)}}}, &d)}; }
        case 3: return {u.assign(u.slice(q, 0, 0), u.slice(x, 1, 1), true), u.assign(u.slice(q, 1, 1), u.slice(q, 0, 0), true)};
        case 4: return {u.assign(u.slice(q, 1, 1), u.slice(x, 0, 0), true), u.if_(u.slice(x, 1, 1), {u.assign(u.slice(q, 0, 0), u.slice(q, 1, 1), true)}, {})};
        case 5: return {u.for_("i", 0, 2, 1, [&](const DX &i) { return std::vector<DS>{u.assign(u.bit(q, i), u.bit(x, i), true)}; })};
        case 6: return {u.if_(u.slice(x, 0, 0), {u.if_(u.slice(x, 1, 1), {A(u.con(3, 2))}, {A(u.con(1, 2))})}, {A(u.bin(B::Add, q, u.con(1, 2)))})};
        case 7: return {u.if_(u.bin(B::Eq, x, u.con(2, 2)), {A(u.un(U::Inv, q))}, {})};
        default: return {A(x), u.if_(u.slice(x, 0, 0), {A(u.un(U::Inv, q))}, {})};
    }
}
static Reg reg(Dual &u, Mod &m, int reset, int nbody, bool enabled, bool neg = false) {
    Reg r;
    r.reset = reset;
    r.enabled = enabled;
    something_before(u, m);
    auto n = body(u, m, nbody);
    std::vector<DS> inner = n;
    if (enabled) inner = {u.if_(m.en, n, {})};
    r.n = seqb(n);
    std::vector<DS> z = {u.assign(m.q, u.con(2, 2), true)};
    r.r = seqb(z);
    std::vector<std::pair<DX, bool>> sens = {{m.clk, !neg}};
    std::vector<DS> b;
    switch (reset) {
        case 0: b = inner; break;
        case 1: sens.push_back({m.rst, true}); r.cond = m.rst.r; b = {u.if_(m.rst, z, inner)}; break;
        case 2: { sens.push_back({m.rst_n, false}); DX c = u.un(U::Inv, m.rst_n); r.cond = c.r; b = {u.if_(c, z, inner)}; break; }
        case 3: sens.push_back({m.rst_n, false}); r.cond = rtl::mk(rtl::Op::LNot, 1, false, {m.rst_n.r}); b = {u.if_(m.rst_n, inner, z)}; break;
        case 4: r.cond = m.srst.r; b = {u.if_(m.srst, z, inner)}; break;
        case 5: {
            DX v = u.var(*m.g, "local_rst", 1);
            u.cont(*m.g, v, m.rst);
            DX k = v;
            auto cast = v.k->cast(kratos::VarCastType::AsyncReset);
            k.k = cast.get();
            sens.push_back({k, true});
            r.cond = v.r;
            b = {u.if_(k, z, inner)};
            break;
        }
        case 6: sens.push_back({m.rst, true}); r.cond = m.rst.r; r.flush = m.srst.r; b = {u.if_(m.rst, z, {u.if_(m.srst, z, inner)})}; break;
        case 7: sens.push_back({m.rst, true}); r.cond = m.rst.r; b = {u.if_(m.rst, z, {})}; r.n = block(); break;
    }
    u.seq(*m.g, sens, b);
    r.proc = u.d.procs.size() - 1;
    return r;
}
static Mod ports(Dual &u, Generator &g, int reset, bool en, const std::string &sname = "srst") {
    Mod m;
    m.g = &g;
    m.clk = u.port(g, true, "clk", 1, false, PortType::Clock);
    if (reset == 1 || reset == 5 || reset == 6 || reset == 7) m.rst = u.port(g, true, "rst", 1, false, PortType::AsyncReset);
    if (reset == 2 || reset == 3) m.rst_n = u.port(g, true, "rst_n", 1, false, PortType::AsyncReset);
    if (reset == 4 || reset == 6) m.srst = u.port(g, true, sname, 1, false, PortType::Reset);
    m.has_en = en;
    if (en) m.en = u.port(g, true, "clk_en", 1, false, PortType::ClockEnable);
    m.x = u.port(g, true, "x", 2);
    m.q = u.port(g, false, "q", 2);
    return m;
}
static void link(Dual &u, Generator &g, Mod &m, Mod &p) {
    u.cont(g, m.clk, p.clk);
    if (m.rst.k) u.cont(g, m.rst, p.rst);
    if (m.rst_n.k) u.cont(g, m.rst_n, p.rst_n);
    if (m.srst.k) u.cont(g, m.srst, p.srst);
}
static std::vector<std::string> clocks(const Mod &m) {
    std::vector<std::string> r = {"clk"};
    if (m.rst.k) r.push_back("rst");
    if (m.rst_n.k) r.push_back("rst_n");
    return r;
}
// the promised machine: registers only move while the enable is high; a reset is not held back
static void gate(Dual &u, const Reg &r, const EP &en) {
    SP n = rif(en, r.n, nullptr);
    if (r.flush) n = rif(r.flush, r.r, r.n), n = r.reset == 6 ? rif(en, n, nullptr) : n;
    u.d.procs[r.proc].body = r.cond ? rif(r.cond, r.r, n) : n;
}
static void enable_top(mc::Ctx &c) {
    Dual u;
    auto &g = u.ctx.generator("mod");
    int reset = RESETS[c.choose(NRESET, "reset")], nb = c.choose(NBODY, "body"), order = c.choose(4, "order"), touch = c.choose(3, "dont_touch");
    bool already = c.flip("enable already there"), neg = c.flip("falling edge"), twice = c.flip("twice");
    std::string t = std::string("enable ") + RESET[reset] + ", " + BODY[nb] + (already ? ", already" : "");
    if (reset == 0 && (nb == 4 || nb == 8) && order < 2) c.skip();   // refused by the library's own check of always_ff
    Mod m;
    Reg r;
    accepted(c, t + ":rejected", t, [&] {
        m = ports(u, g, reset, true);
        r = reg(u, m, reset, nb, already, neg);
        if (reset == 5) u.d.ports.erase("local_rst");
    });
    auto before = u.d.procs[r.proc].body;
    gate(u, r, m.en.r);
    if (reset == 6 && already) u.d.procs[r.proc].body = rif(r.cond, r.r, rif(r.flush, r.r, rif(m.en.r, r.n, nullptr))), c.skip();
    if (touch) u.d.procs[r.proc].body = before;
    if (touch == 1) attr(g, "", "dont_touch");
    if (touch == 2) for (uint64_t i = 0; i < g.stmts_count(); i++) attr(*g.get_stmt(i), "", "dont_touch");
    auto pl = around("auto_insert_clock_enable", order);
    if (twice) pl.push_back("auto_insert_clock_enable");
    auto k = pk(t + " " + ORDER[order], pl);
    k.opt.clocks = clocks(m);
    check(c, u, k, k.key + (touch ? " dont_touch" : "") + (neg ? " negedge" : "") + (twice ? " twice" : ""));
}
// two statements in one block, only the first of them enabled
static void enable_mixed(mc::Ctx &c) {
    Dual u;
    auto &g = u.ctx.generator("mod");
    int how = c.choose(6, "how"), order = c.choose(4, "order");
    bool rs = c.flip("reset");
    static const char *NAME[] = {"first enabled", "second enabled", "both enabled", "enable and something", "enabled in a branch", "enable of another name"};
    if (!rs && order < 2) c.skip();   // refused by the library's own check of always_ff
    std::string t = std::string("enable mixed ") + NAME[how];
    Mod m;
    size_t proc = 0;
    SP want;
    accepted(c, t + ":rejected", t, [&] {
        m = ports(u, g, rs ? 1 : 0, true);
        DX p = u.port(g, false, "p", 2), w = u.port(g, true, "w", 1);
        auto A = u.assign(m.q, m.x, true), D = u.assign(p, m.q, true);
        std::vector<DS> b;
        std::vector<SP> ref = {A.r, D.r};
        if (how == 0) b = {u.if_(m.en, {A}, {}), D};
        if (how == 1) b = {A, u.if_(m.en, {D}, {})};
        if (how == 2) b = {u.if_(m.en, {A}, {}), u.if_(m.en, {D}, {})};
        if (how == 3) { auto e = u.bin(B::And, m.en, w); b = {u.if_(e, {A}, {}), D}; ref[0] = rif(e.r, A.r, nullptr); }
        if (how == 4) { b = {u.if_(w, {u.if_(m.en, {A}, {})}, {D})}; ref = {rif(w.r, A.r, D.r)}; }
        if (how == 5) { b = {u.if_(w, {A}, {}), D}; ref[0] = rif(w.r, A.r, nullptr); }
        std::vector<std::pair<DX, bool>> sens = {{m.clk, true}};
        want = rif(m.en.r, block(ref), nullptr);
        if (rs) {
            std::vector<DS> z = {u.assign(m.q, u.con(2, 2), true), u.assign(p, u.con(1, 2), true)};
            sens.push_back({m.rst, true});
            want = rif(m.rst.r, seqb(z), want);
            b = {u.if_(m.rst, z, b)};
        }
        u.seq(g, sens, b);
        proc = u.d.procs.size() - 1;
    });
    u.d.procs[proc].body = want;
    auto k = pk(t + " " + ORDER[order], around("auto_insert_clock_enable", order));
    k.opt.clocks = clocks(m);
    k.opt.alphabet["x"] = {1, 2};
    check(c, u, k, k.key);
}
// hierarchies: mod > mid > leaf, and a second leaf in mod
static void enable_hier(mc::Ctx &c) {
    Dual u;
    auto &g = u.ctx.generator("mod");
    static const int RS[] = {0, 1, 2, 4};
    int reset = RS[c.choose(4, "reset")], order = c.choose(4, "order"), shape = c.choose(3, "shape"), port = c.choose(6, "enable port of the child"), touch = c.choose(3, "dont_touch");
    // connections cannot be added once the instances exist; an open port that has to be left alone is an error
    if (order == 1 || (port == 4 && (touch || order == 2))) c.skip();
    static const char *SHAPE[] = {"child", "two children", "grandchild"}, *PORT[] = {"no port", "top's enable", "constant one", "gated enable", "left open", "constant zero"};
    std::string t = std::string("enable ") + SHAPE[shape] + ", " + PORT[port] + ", " + RESET[reset];
    Mod m;
    std::vector<std::pair<Reg, EP>> regs;
    accepted(c, t + ":rejected", t, [&] {
        m = ports(u, g, reset, true);
        DX w = port == 3 ? u.port(g, true, "w", 1) : DX();
        EP en = m.en.r;
        auto leaf = [&](const std::string &mod, const std::string &inst, Generator &in, Mod &pm, int nb, int pk, bool skip) {
            auto &l = u.ctx.generator(mod);
            l.instance_name = inst;
            Mod lm = ports(u, l, reset, pk != 0, "srst");
            in.add_child_generator(inst, l.shared_from_this());
            link(u, in, lm, pm);
            EP e = en;
            if (pk == 1) u.cont(in, lm.en, pm.en);
            if (pk == 2) u.cont(in, lm.en, u.con(1, 1));
            if (pk == 3) { DX x = u.bin(B::And, m.en, w); auto k = x.k->cast(kratos::VarCastType::ClockEnable); x.k = k.get(); u.cont(in, lm.en, x); e = x.r; }
            if (pk == 5) u.cont(in, lm.en, u.con(0, 1));
            auto r = reg(u, lm, reset, nb, false);
            if (skip) attr(l, "", "dont_touch");
            else regs.emplace_back(r, e);
            return lm;
        };
        if (shape == 0) {
            Mod l = leaf("leaf", "inst", g, m, 0, port, touch == 1);
            u.cont(g, l.x, m.x);
            u.cont(g, m.q, l.q);
        } else if (shape == 1) {
            Mod l = leaf("leaf", "i1", g, m, 0, port, touch == 1), k = leaf("leaf", "i2", g, m, 0, 0, touch == 2);
            u.cont(g, l.x, m.x);
            u.cont(g, k.x, l.q);
            u.cont(g, m.q, u.bin(B::Xor, k.q, l.q));
        } else {
            if (port == 3 || touch == 2) c.skip();
            auto &md = u.ctx.generator("mid");
            md.instance_name = "mid";
            Mod mm = ports(u, md, reset, port == 1 || port == 2);
            g.add_child_generator("mid", md.shared_from_this());
            link(u, g, mm, m);
            if (port == 1) u.cont(g, mm.en, m.en);
            if (port == 2) u.cont(g, mm.en, u.con(1, 1));
            Mod l = leaf("leaf", "inst", md, mm, 1, port == 4 || port == 2 || port == 5 ? port : 0, touch == 1);
            u.cont(md, l.x, mm.x);
            u.cont(md, mm.q, l.q);
            u.cont(g, mm.x, m.x);
            u.cont(g, m.q, mm.q);
        }
    });
    for (auto &[r, e] : regs) gate(u, r, e);
    auto pl = around("auto_insert_clock_enable", order);
    auto k = pk(t + (touch ? " dont_touch " : " ") + ORDER[order], pl);
    k.opt.clocks = clocks(m);
    k.opt.alphabet["x"] = {1, 2};
    check(c, u, k, k.key);
}
// ---------------------------------------------------------------- sync reset
static void flush(Dual &u, const Reg &r, const EP &f, const EP &en, bool over) {
    SP n = r.n;
    if (en) n = over ? rif(f, r.r, rif(en, n, nullptr)) : rif(en, rif(f, r.r, n), nullptr);
    else n = rif(f, r.r, n);
    u.d.procs[r.proc].body = rif(r.cond, r.r, n);
}
static void sync_top(mc::Ctx &c) {
    Dual u;
    auto &g = u.ctx.generator("mod");
    int reset = RESETS[c.choose(NRESET, "reset")], nb = c.choose(NBODY, "body"), order = c.choose(4, "order"), over = c.choose(4, "over_clk_en"), have = c.choose(2, "port there");
    bool en = c.flip("enabled"), neg = c.flip("falling edge"), twice = c.flip("twice");
    static const char *ATTR[] = {"sync-reset=flush", "sync-reset=flush;over_clk_en=false", "sync-reset=flush;over_clk_en=true", "sync-reset=flush;over_clk_en=1"};
    std::string t = std::string("sync reset ") + RESET[reset] + ", " + BODY[nb] + (en ? ", enabled" : "");
    Mod m;
    Reg r;
    if (reset == 6 || (reset == 0 && (nb == 4 || nb == 8) && order < 2)) c.skip();
    accepted(c, t + ":rejected", t, [&] {
        m = ports(u, g, reset, en);
        r = reg(u, m, reset, nb, en, neg);
        if (have) { auto f = u.port(g, true, "flush", 1, false, PortType::Data); (void)f; }
        else { int s = u.d.add_sig("flush", 1, false); u.d.ports["flush"] = {s, 1, false, true, "logic"}; }
    });
    auto f = sg(u, u.d.find("flush"));
    if (r.cond && reset != 4) flush(u, r, f, en && reset != 7 ? m.en.r : nullptr, over >= 2);
    attr(g, "", ATTR[over]);
    auto pl = around("auto_insert_sync_reset", order);
    if (twice) pl.push_back("auto_insert_sync_reset");
    auto k = pk(t + " " + ORDER[order], pl);
    k.opt.clocks = clocks(m);
    check(c, u, k, k.key + " " + ATTR[over] + (twice ? " twice" : ""));
}
static void sync_hier(mc::Ctx &c) {
    Dual u;
    auto &g = u.ctx.generator("mod");
    static const int RS[] = {1, 2, 0, 5};
    int reset = RS[c.choose(4, "reset")], order = c.choose(4, "order"), shape = c.choose(3, "shape"), port = c.choose(5, "flush port of the child"), plus = c.choose(3, "with clock enable");
    if (order == 1 || (order == 2 && port == 3)) c.skip();
    static const char *SHAPE[] = {"child", "two children", "grandchild"}, *PORT[] = {"no port", "constant zero", "own signal", "left open", "top's flush"};
    std::string t = std::string("sync reset ") + SHAPE[shape] + ", " + PORT[port] + ", " + RESET[reset] + (plus ? plus == 1 ? ", then enable" : ", after enable" : "");
    Mod m;
    std::vector<std::pair<Reg, EP>> regs;
    int fs = -1;
    accepted(c, t + ":rejected", t, [&] {
        m = ports(u, g, reset, plus != 0);
        DX w, f;
        if (port == 2) w = u.port(g, true, "w", 1);
        if (port == 4) { f = u.port(g, true, "flush", 1, false, PortType::Reset); fs = f.lv[0].sig; }
        else { fs = u.d.add_sig("flush", 1, false); u.d.ports["flush"] = {fs, 1, false, true, "logic"}; }
        auto leaf = [&](const std::string &mod, const std::string &inst, Generator &in, Mod &pm, int nb, int pk, DX *pf) {
            auto &l = u.ctx.generator(mod);
            l.instance_name = inst;
            Mod lm = ports(u, l, reset, false);
            in.add_child_generator(inst, l.shared_from_this());
            link(u, in, lm, pm);
            DX lf;
            if (pk) lf = u.port(l, true, "flush", 1, false, pk == 3 ? PortType::Data : PortType::Reset);
            EP e = sg(u, fs);
            if (pk == 1) u.cont(in, lf, u.con(0, 1));
            if (pk == 2) { u.cont(in, lf, *pf); e = pf->r; }
            if (pk == 4) u.cont(in, lf, *pf);
            regs.emplace_back(reg(u, lm, reset, nb, false), e);
            return lm;
        };
        DX *pf = port == 2 ? &w : &f;
        if (shape == 0) {
            Mod l = leaf("leaf", "inst", g, m, 0, port, pf);
            u.cont(g, l.x, m.x);
            u.cont(g, m.q, l.q);
        } else if (shape == 1) {
            Mod l = leaf("leaf", "i1", g, m, 0, port, pf), k = leaf("leaf", "i2", g, m, 0, 0, pf);
            u.cont(g, l.x, m.x);
            u.cont(g, k.x, l.q);
            u.cont(g, m.q, u.bin(B::Xor, k.q, l.q));
        } else {
            if (port == 2 || port == 4) c.skip();
            auto &md = u.ctx.generator("mid");
            md.instance_name = "mid";
            Mod mm = ports(u, md, reset, false);
            g.add_child_generator("mid", md.shared_from_this());
            link(u, g, mm, m);
            Mod l = leaf("leaf", "inst", md, mm, 1, port, pf);
            u.cont(md, l.x, mm.x);
            u.cont(md, mm.q, l.q);
            u.cont(g, mm.x, m.x);
            u.cont(g, m.q, mm.q);
        }
    });
    attr(g, "", "sync-reset=flush;over_clk_en=true");
    for (auto &[r, e] : regs) {
        if (!r.cond) { if (plus) gate(u, r, m.en.r); continue; }
        flush(u, r, e, plus ? m.en.r : nullptr, plus == 2);   // an enable inserted later goes around it
    }
    auto pl = around("auto_insert_sync_reset", order);
    for (size_t i = 0; i < pl.size(); i++)
        if (pl[i] == "auto_insert_sync_reset" && plus) { pl.insert(pl.begin() + (plus == 1 ? i + 1 : i), "auto_insert_clock_enable"); break; }
    auto k = pk(t + " " + ORDER[order], pl);
    k.opt.clocks = clocks(m);
    k.opt.alphabet["x"] = {1, 2};
    check(c, u, k, k.key);
}
// ---------------------------------------------------------------- asynchronous resets removed
static void no_async(mc::Ctx &c) {
    Dual u;
    auto &g = u.ctx.generator("mod");
    int reset = RESETS[c.choose(NRESET, "reset")], nb = c.choose(NBODY, "body");
    bool child = c.flip("in a child"), neg = c.flip("falling edge"), only = c.flip("reset kept inactive");
    std::string t = std::string("async reset removed ") + RESET[reset] + (child ? " child" : "");
    bool full = c.flip("standard");
    int before = nb < 3 || c.thorough ? c.choose(3, "before the register") : 0;
    if (full && reset == 0 && (nb == 4 || nb == 8)) c.skip();
    Mod m;
    accepted(c, t + ":rejected", t, [&] {
        m = ports(u, g, reset, false);
        if (child) {
            auto &l = u.ctx.generator("leaf");
            l.instance_name = "inst";
            Mod lm = ports(u, l, reset, false);
            g.add_child_generator("inst", l.shared_from_this());
            link(u, g, lm, m);
            lm.before = before;
            reg(u, lm, reset, nb, false, neg);
            if (before) u.cont(g, u.port(g, false, "w", 2), lm.w);
            u.cont(g, lm.x, m.x);
            u.cont(g, m.q, lm.q);
        } else { m.before = before; reg(u, m, reset, nb, false, neg); }
    });
    if (!only) for (auto &p : u.d.procs) if (p.k == rtl::Proc::Ff) p.sens.resize(1);
    try { kratos::remove_async_reset(&g); } catch (std::exception &e) { c.fail(t + ":pass", t + ": " + e.what()); }
    auto k = pk(t, full ? standard : minimal);
    k.opt.clocks = clocks(m);
    if (only) {
        k.opt.clocks = {"clk"};
        if (m.rst.k) k.opt.tie["rst"] = 0;
        if (m.rst_n.k) k.opt.tie["rst_n"] = 1;
    }
    k.reading = [&](auto &text, std::string &) {
        for (auto &[n, s] : text)
            for (const char *e : {"edge rst", "edge local_rst", "edge rst_n"})
                if (s.find(e) != std::string::npos) c.fail(t + ":still there", t + ": an asynchronous reset is still there\n" + s);
    };
    check(c, u, k, k.key + ", " + BODY[nb] + (only ? " inactive" : ""));
}
// ---------------------------------------------------------------- zeroes
// an array port or a plain one, driven in parts
static void zero_inputs(mc::Ctx &c) {
    Dual u;
    auto &g = u.ctx.generator("mod");
    auto &l = u.ctx.generator("leaf");
    l.instance_name = "inst";
    int kind = c.choose(6, "port"), order = c.choose(3, "order"), marked = c.choose(3, "marked"), second = c.choose(3, "second port");
    static const char *NAME[] = {"plain", "signed", "packed array", "unpacked array", "one bit", "two dimensions"};
    std::string t = std::string("zero inputs ") + NAME[kind] + (marked == 0 ? "" : marked == 1 ? " unmarked" : " nested");
    uint32_t parts = 0;
    int total = kind == 4 ? 1 : kind == 5 ? 8 : 4;
    bool el = kind == 2 || kind == 3;
    accepted(c, t + ":rejected", t, [&] {
        DX a = u.port(g, true, "a", total, kind == 1), o = u.port(g, false, "o", total, kind == 1), p = u.port(g, false, "p", 2);
        Generator *in = &g;
        if (marked == 2) {
            auto &md = u.ctx.generator("mid");
            md.instance_name = "mid";
            g.add_child_generator("mid", md.shared_from_this());
            in = &md;
            DX ma = u.port(md, true, "a", total, kind == 1), mo = u.port(md, false, "o", total, kind == 1), mp = u.port(md, false, "p", 2);
            u.cont(g, ma, a);
            u.cont(g, o, mo);
            u.cont(g, p, mp);
            a = ma, o = mo, p = mp;
        }
        in->add_child_generator("inst", l.shared_from_this());
        DX x = el ? u.arr(l, 1, "x", 2, {2}, kind == 2) : kind == 5 ? u.arr(l, 1, "x", 2, {2, 2}) : u.port(l, true, "x", total, kind == 1), y = u.port(l, true, "y", 2), q = u.port(l, false, "q", total, kind == 1), r = u.port(l, false, "r", 2);
        if (el) u.cont(l, q, u.cat(u.elem(x, 1, 2), u.elem(x, 0, 2)));
        else if (kind == 5) {
            DX p0 = u.elem(x, 0, 4), p1 = u.elem(x, 1, 4);
            u.cont(l, q, u.cat(u.cat(u.elem(p1, 1, 2), u.elem(p1, 0, 2)), u.cat(u.elem(p0, 1, 2), u.elem(p0, 0, 2))));
        } else u.cont(l, q, x);
        u.cont(l, r, u.un(U::Inv, y));
        u.cont(*in, o, q);
        u.cont(*in, p, r);
        if (marked != 1) attr(*in, "zero_inputs", "");
        // which parts are driven
        int n = el ? 2 : kind == 5 ? 2 : total;
        parts = (uint32_t)c.choose(1 << n, "driven parts");
        bool whole = parts == (1u << n) - 1 && c.flip("whole");
        if (whole && !el && kind != 5) u.cont(*in, x, a);
        else for (int i = 0; i < n; i++) {
            if (!(parts >> i & 1)) { zero(u, el ? u.elem(x, i, 2) : kind == 5 ? u.elem(x, i, 4) : kind == 4 ? x : u.slice(x, i, i)); continue; }
            if (el) u.cont(*in, u.elem(x, i, 2), u.slice(a, 2 * i + 1, 2 * i));
            else if (kind == 5) { DX e = u.elem(x, i, 4); for (int j = 0; j < 2; j++) u.cont(*in, u.elem(e, j, 2), u.slice(a, 4 * i + 2 * j + 1, 4 * i + 2 * j)); }
            else if (kind == 4) u.cont(*in, x, a);
            else u.cont(*in, u.slice(x, i, i), u.slice(a, i, i));
        }
        if (second == 1) u.cont(*in, y, u.slice(a, 0, 0).w == 1 && total > 1 ? u.slice(a, 1, 0) : u.con(2, 2));
        if (second == 2) u.cont(*in, u.slice(y, 1, 1), u.slice(a, 0, 0));
        if (second == 0) zero(u, y);
        if (second == 2) zero(u, u.slice(y, 0, 0));
        int n2 = second == 1 ? 3 : second == 2 ? 2 : 0;
        if (marked == 1 && (parts != (1u << n) - 1 || n2 != 3)) c.skip();
    });
    auto k = pk(t + " " + ORDER[order], around("zero_generator_inputs", order == 2 ? 3 : order));
    // in the usual order the pass runs as part of the whole list
    if (order == 1) k.emit.passes = standard;
    k.opt.both_fills = true;
    check(c, u, k, k.key + " parts " + std::to_string(parts) + " second " + std::to_string(second));
}
static void zero_stub(mc::Ctx &c) {
    Dual u;
    auto &g = u.ctx.generator("mod");
    auto &l = u.ctx.generator("leaf");
    l.instance_name = "inst";
    int kind = c.choose(9, "port"), order = 1 + c.choose(2, "order");
    bool at_top = c.flip("the stub is the top"), marked = at_top || c.choose(3, "marked") != 2;
    static const char *NAME[] = {"plain", "signed", "packed array", "unpacked array", "one bit", "two dimensions", "wide", "struct", "enum"};
    std::string t = std::string("zero stub ") + NAME[kind] + (at_top ? " top" : "");
    accepted(c, t + ":rejected", t, [&] {
        int w = kind == 4 ? 1 : kind == 5 ? 8 : kind == 6 ? 70 : kind == 8 ? 2 : 4;
        auto port = [&](Generator &m) {
            if (kind == 2 || kind == 3) return u.arr(m, 2, "q", 2, {2}, kind == 2);
            if (kind == 5) return u.arr(m, 2, "q", 2, {2, 2});
            if (kind == 7 || kind == 8) {
                kratos::Var *v;
                if (kind == 7) v = &m.port_packed(PortDirection::Out, "q", std::make_shared<kratos::PackedStruct>("pair", std::vector<std::tuple<std::string, uint32_t, bool>>{{"lo", 1, false}, {"hi", 3, false}}));
                else v = &m.port(PortDirection::Out, "q", u.ctx.enum_("mode", {{"A", 0}, {"B", 1}}, 2).shared_from_this());
                DX x = u.wrap(*v, &m == &g ? "q" : "inst.q", w, false);
                if (&m == &g) { u.top = &g; u.d.ports["q"] = {x.lv[0].sig, w, false, false, "logic"}; }
                return x;
            }
            return u.port(m, false, "q", w, kind == 1);
        };
        if (at_top) {
            u.port(g, true, "x", 2);
            zero(u, port(g));
            g.set_is_stub(true);
            return;
        }
        DX a = u.port(g, true, "a", 2), o = u.port(g, false, "o", w, kind == 1), p = u.port(g, false, "p", 2);
        g.add_child_generator("inst", l.shared_from_this());
        DX x = u.port(l, true, "x", 2), q = port(l), r = u.port(l, false, "r", 2);
        u.cont(g, x, a);
        if (kind == 2 || kind == 3) u.cont(g, o, u.cat(u.elem(q, 1, 2), u.elem(q, 0, 2)));
        else if (kind == 5) { DX p0 = u.elem(q, 0, 4), p1 = u.elem(q, 1, 4); u.cont(g, o, u.cat(u.cat(u.elem(p1, 1, 2), u.elem(p1, 0, 2)), u.cat(u.elem(p0, 1, 2), u.elem(p0, 0, 2)))); }
        else if (kind == 8) { u.cont(g, o, u.con(0, 2)); }
        else u.cont(g, o, q);
        u.cont(g, p, u.bin(B::Add, r, a));
        if (marked) { l.set_is_stub(true); zero(u, q); zero(u, r); }
        else {   // not a stub: stays as it is
            if (kind == 3 || kind == 7 || kind == 8) c.skip();
            u.cont(l, r, x);
            if (kind == 2) for (int i = 0; i < 2; i++) u.cont(l, u.elem(q, i, 2), x);
            else if (kind == 5) for (int i = 0; i < 2; i++) { DX e = u.elem(q, i, 4); for (int j = 0; j < 2; j++) u.cont(l, u.elem(e, j, 2), x); }
            else if (kind == 4) u.cont(l, q, u.slice(x, 0, 0));
            else if (kind == 6) u.cont(l, q, u.ext(x, 70));
            else if (kind == 1) u.cont(l, q, u.con(-3, 4, true));
            else u.cont(l, q, u.ext(x, 4));
        }
    });
    auto k = pk(t + " " + ORDER[order], around("zero_out_stubs", order == 2 ? 3 : order));
    if (order < 2) k.emit.passes = standard;   // the usual list runs the pass
    k.opt.both_fills = true;
    check(c, u, k, k.key);
}
int main(int argc, char **argv) {
    std::cerr.rdbuf(nullptr);
    std::vector<mc::Family> f = {
        {"a pipelined top", pipe_top, -1},
        {"a pipelined top with every kind of port", pipe_port, -1},
        {"a pipelined instance", pipe_child, -1},
        {"clock enable in one module", enable_top, -1},
        {"clock enable beside an enable", enable_mixed, -1},
        {"clock enable in a hierarchy", enable_hier, -1},
        {"sync reset in one module", sync_top, -1},
        {"sync reset in a hierarchy", sync_hier, -1},
        {"async reset removed", no_async, -1},
        {"zeroed inputs", zero_inputs, -1},
        {"zeroed stubs", zero_stub, -1},
    };
    return mc::run("C07", f, argc, argv, "model_checking",
                   {"one to three modules; a reset is never held back by an enable; passes that add connections run before the instances are created; the library's own checks decide which register blocks are legal",
                    "a pass order that the Python front end does not use is checked with the short list of passes"});
}
