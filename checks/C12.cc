// C12: the driver checks raise an error for exactly the designs with wrong drivers.
// Every set of up to three drivers (process x place in the process x part of the variable) is built on the real API; the
// verdict of every check is compared with a bit-by-bit account of who drives what. The design must not be changed.
#include <iostream>
#include <set>

#include "codegen.hh"
#include "except.hh"
#include "expr.hh"
#include "generator.hh"
#include "mc.hh"
#include "pass.hh"
#include "port.hh"
#include "stmt.hh"
#include "util.hh"
using namespace kratos;
typedef std::shared_ptr<Stmt> S;
// cont and inst drivers are processes of their own
static Var &cut(Var &v, uint32_t h, uint32_t l) { return v[std::make_pair(h, l)]; }
enum P { CONT, INST, COMB1, COMB2, SEQ1, SEQ2, LATCH, INIT, FUNC, NP };
static const char *PN[] = {"assign", "inst", "comb1", "comb2", "seq1", "seq2", "latch", "initial", "function"};
enum W { TOP, THEN, ELSE, THEN2, CASE0, CASE1, DFLT, LOOP, NESTED, NW };
static const char *WN[] = {"", "if", "else", "if2", "case0", "case1", "default", "for", "if.if"};
enum T { ALL, HI, LO, MID, B0, B3, VARI, CATT, NT };
static const char *TN[] = {"v", "v[3:2]", "v[1:0]", "v[2:1]", "v[0]", "v[3]", "v[i]", "{v[3:2],w}"};
struct D { P p; W w; T t; };
static unsigned bits(const D &d) {
    switch (d.t) { case ALL: return 15; case HI: case CATT: return 12; case LO: return 3; case MID: return 6; case B0: return 1; case B3: return 8; default: return 15; }
}
static std::string str(const D &d) { return std::string(PN[d.p]) + (*WN[d.w] ? std::string(".") + WN[d.w] : "") + ":" + TN[d.t]; }
// places in one process that never run together
static bool exclusive(W a, W b) {
    auto arm = [](W w) { return w == THEN || w == NESTED ? 1 : w == ELSE ? 2 : w == CASE0 ? 11 : w == CASE1 ? 12 : w == DFLT ? 13 : 0; };
    int x = arm(a), y = arm(b);
    return x && y && x / 10 == y / 10 && x != y;
}
struct Build {
    Context ctx;
    Generator &g;
    Var *v = nullptr, *w = nullptr, *a, *b, *c, *idx, *clk;
    bool array, port, inst;
    std::map<int, std::shared_ptr<StmtBlock>> proc;
    std::map<std::pair<int, int>, std::shared_ptr<IfStmt>> ifs;
    std::map<int, std::shared_ptr<SwitchStmt>> sw;
    std::map<int, std::shared_ptr<ForStmt>> loops;
    std::vector<std::shared_ptr<Generator>> insts;
    int nw = 0;
    // the variable is the module's own, its output, or the input of an instance
    Build(bool array, bool port, bool inst = false) : g(ctx.generator("mod")), array(array), port(port), inst(inst) {
        a = &g.port(PortDirection::In, "a", 4);
        b = &g.port(PortDirection::In, "b", 2);
        c = &g.port(PortDirection::In, "c", 1);
        idx = &g.port(PortDirection::In, "idx", array ? 1 : 2);
        clk = &g.port(PortDirection::In, "clk", 1, 1, PortType::Clock, false);
        // v is four bits: one vector, or two elements of two bits
        if (inst) {
            auto &sub = ctx.generator("sub");
            v = array ? &sub.port(PortDirection::In, "v", 2, 2) : &sub.port(PortDirection::In, "v", 4);
            g.add_child_generator("target", sub.shared_from_this());
        } else if (port) v = array ? &g.port(PortDirection::Out, "v", 2, 2) : &g.port(PortDirection::Out, "v", 4);
        else v = array ? &g.var("v", 2, 2) : &g.var("v", 4);
    }
    Var &part(T t, Var *it) {
        auto &x = *v;
        if (array)
            switch (t) {
                case ALL: return x;
                case HI: return x[1];
                case LO: return x[0];
                case MID: return x[1][0];        // bit 2
                case B0: return x[0][0];
                case B3: return x[1][1];
                case VARI: return x[it ? it->shared_from_this() : idx->shared_from_this()];
                default: break;
            }
        switch (t) {
            case ALL: return x;
            case HI: return cut(x, 3, 2);
            case LO: return cut(x, 1, 0);
            case MID: return cut(x, 2, 1);
            case B0: return cut(x, 0, 0);
            case B3: return cut(x, 3, 3);
            case VARI: return x[it ? it->shared_from_this() : idx->shared_from_this()];
            default: break;
        }
        auto &ww = g.var("w" + std::to_string(nw++), 1);
        auto &hi = array ? static_cast<Var &>(x[1]) : static_cast<Var &>(cut(x, 3, 2));
        return hi.concat(ww);
    }
    static unsigned abits(bool array, T t) {
        if (array && t == MID) return 4;
        return 0;
    }
    Var &value(uint32_t width) { return width == 4 ? *a : cut((*a), width - 1, 0); }
    std::shared_ptr<StmtBlock> process(P p) {
        auto &q = proc[p];
        if (q) return q;
        switch (p) {
            case COMB1: case COMB2: q = g.combinational(); break;
            case SEQ1: case SEQ2: { auto s = g.sequential(); s->add_condition({EventEdgeType::Posedge, clk->shared_from_this()}); q = s; break; }
            case LATCH: q = g.latch(); break;
            case FUNC: q = g.task("fill"); break;
            default: q = g.initial(); break;
        }
        return q;
    }
    std::shared_ptr<IfStmt> branch(P p, int n) {
        auto &q = ifs[{p, n}];
        if (q) return q;
        q = std::make_shared<IfStmt>(n ? cut((*b), 0, 0).shared_from_this() : c->shared_from_this());
        process(p)->add_stmt(q);
        return q;
    }
    void drive(const D &d, AssignmentType at = AssignmentType::Undefined, bool broken = false) {
        (void)broken;
        if (d.p == CONT) { auto &l = part(d.t, nullptr); g.add_stmt(l.assign(value(l.width()), at)); return; }
        if (d.p == INST) {
            auto &l = part(d.t, nullptr);
            auto name = "ch" + std::to_string(insts.size());
            auto &ch = ctx.generator(name);
            auto &q = array && d.t == ALL ? ch.port(PortDirection::Out, "q", 2, 2) : ch.port(PortDirection::Out, "q", l.width());
            if (array && d.t == ALL) { ch.wire(q[0], constant(1, 2)); ch.wire(q[1], constant(2, 2)); } else ch.wire(q, constant(0, l.width()));
            insts.push_back(ch.shared_from_this());
            g.add_child_generator("i" + std::to_string(insts.size()), ch.shared_from_this());
            g.add_stmt(l.assign(q, at));
            return;
        }
        auto blk = process(d.p);
        if (d.w == LOOP) {
            auto &f = loops[d.p];
            if (!f) { f = std::make_shared<ForStmt>("i", 0, array ? 2 : 4, 1); blk->add_stmt(f); }
            auto &l = part(d.t, f->get_iter_var().get());
            f->add_stmt(l.assign(value(l.width()), at));
            return;
        }
        auto &l = part(d.t, nullptr);
        S st = l.assign(value(l.width()), at);
        switch (d.w) {
            case TOP: blk->add_stmt(st); break;
            case THEN: branch(d.p, 0)->add_then_stmt(st); break;
            case ELSE: branch(d.p, 0)->add_else_stmt(st); break;
            case THEN2: branch(d.p, 1)->add_then_stmt(st); break;
            case NESTED: { auto i = std::make_shared<IfStmt>(cut((*b), 1, 1).shared_from_this()); branch(d.p, 0)->add_then_stmt(i); i->add_then_stmt(st); break; }
            default: {
                auto &s = sw[d.p];
                if (!s) { s = std::make_shared<SwitchStmt>(b->shared_from_this()); blk->add_stmt(s); }
                s->add_switch_case(d.w == DFLT ? nullptr : constant(d.w == CASE0 ? 0 : 1, 2).as<Const>(), st);
            }
        }
    }
};
static std::string text(Generator &g) {
    std::string r;
    SystemVerilogCodeGenOptions o;
    for (auto &[n, t] : generate_verilog(&g, o)) r += t;
    return r;
}
template <class F> static bool raises(mc::Ctx &c, const std::string &what, F f) {
    try { f(); } catch (StmtException &) { return true; } catch (VarException &) { return true; } catch (UserException &) { return true; } catch (GeneratorException &) { return true; }
    catch (InternalException &e) { c.fail("internal error", what + ": " + e.what()); }
    return false;
}
static void verdicts(mc::Ctx &c, Build &m, const std::vector<D> &ds, bool array, const std::string &t) {
    auto mask = [&](const D &d) { unsigned x = bits(d); if (array && d.t == MID) x = 4; return x; };
    bool multi = false, maybe = false, wire = false, always = false, nba = false, blocking = false;
    for (size_t i = 0; i < ds.size(); i++) {
        auto &x = ds[i];
        (x.p == CONT || x.p == INST ? wire : always) = true;
        (x.p == SEQ1 || x.p == SEQ2 ? nba : blocking) = true;
        for (size_t j = 0; j < i; j++) {
            auto &y = ds[j];
            if (!(mask(x) & mask(y))) continue;
            if (x.p != y.p || x.p == CONT || x.p == INST) multi = true;
            // one process assigning a bit twice is no driver conflict, but refused in some processes (not judged)
            else if (x.p != COMB1 && x.p != COMB2 && x.p != LATCH && !exclusive(x.w, y.w)) maybe = true;
        }
    }
    auto want = [&](const char *name, bool expect, bool got, bool unsure = false) {
        c.trans(1);
        if (!unsure && expect != got) c.fail(std::string(name) + (got ? " raised" : " missed"), t + ": " + name + (got ? " raises an error, nothing is wrong" : " raises no error"));
    };
    if (raises(c, t, [&] { fix_assignment_type(&m.g); })) c.fail("assignment types", t + ": assignment types cannot be fixed");
    auto before = text(m.g);
    c.states(1);
    for (int round = 0; round < 2; round++) {
        want("check_multiple_driver", multi, raises(c, t, [&] { check_multiple_driver(&m.g); }), maybe && !multi);
        want("check_mixed_assignment", nba && blocking, raises(c, t, [&] { check_mixed_assignment(&m.g); }));
        want("verify_assignments", wire && always, raises(c, t, [&] { verify_assignments(&m.g); }));
        unsigned all = 0;
        for (auto &d : ds) all |= mask(d);
        // once the ports are decoupled a variable stands between the instance's input and its drivers
        if (round == 0 || !m.inst) want("verify_generator_connectivity", m.port && all != 15, raises(c, t, [&] { verify_generator_connectivity(&m.g); }));
        if (text(m.g) != before) c.fail("changed", t + ": the design is different after the checks");
        // the passes that come before the checks in the usual order do not change the verdict
        if (round == 0) { decouple_generator_ports(&m.g); fix_assignment_type(&m.g); before = text(m.g); }
    }
    c.outcome(mc::hash_str(std::string(multi ? "multi " : "") + (nba && blocking ? "mixed " : "") + (wire && always ? "wire" : "")));
    c.trace();
}
static std::vector<D> pool(bool small) {
    std::vector<D> r;
    for (int p = 0; p < NP; p++)
        for (int w = 0; w < NW; w++) {
            if ((p == CONT || p == INST) && w) continue;
            if ((p == COMB2 || p == SEQ2) && w != TOP && w != THEN && w != LOOP) continue;
            if (p == INIT && w != TOP && w != LOOP) continue;
            if (p == FUNC && w != TOP && w != THEN) continue;
            if (p == LATCH && w == LOOP) continue;
            if (small && (p == FUNC || w == NESTED || w == CASE1)) continue;
            for (int t = 0; t < NT; t++) {
                if (t == VARI && (p == CONT || p == INST)) continue;
                if (t == CATT && (p == INST || w == LOOP)) continue;
                if (small && t != ALL && t != HI && t != LO && t != VARI) continue;
                if (w == LOOP && t != VARI && t != B0 && t != ALL) continue;
                r.push_back({(P)p, (W)w, (T)t});
            }
        }
    return r;
}
static void run(mc::Ctx &c, int n, bool small) {
    bool array = c.flip("array");
    int kind = c.choose(3, "kind of variable");
    bool port = kind > 0;
    static const auto big = pool(false), few = pool(true);
    auto &ps = small ? few : big;
    std::vector<D> ds;
    std::string t = std::string(array ? "array " : "") + (kind == 2 ? "instance's input " : port ? "output " : "");
    int from = 0;
    for (int i = 0; i < n; i++) {
        // the order only matters between two
        int k = from + c.choose(ps.size() - from, "driver");
        if (n > 2) from = k;
        ds.push_back(ps[k]);
        t += str(ds.back()) + " ";
    }
    Build m(array, port, kind == 2);
    try { for (auto &d : ds) m.drive(d); } catch (std::exception &e) { c.fail("rejected", t + ": cannot be built: " + e.what()); }
    verdicts(c, m, ds, array, t);
}
// explicitly mixed styles
static void mixed(mc::Ctx &c) {
    static const auto ps = pool(true);
    bool array = c.flip("array");
    std::vector<D> ds;
    std::vector<AssignmentType> as;
    std::string t = array ? "array " : "";
    bool b = false, nb = false;
    for (int i = 0; i < 2; i++) {
        auto d = ps[c.choose(ps.size(), "driver")];
        int s = c.choose(3, "style");
        ds.push_back(d);
        as.push_back(s == 0 ? AssignmentType::Undefined : s == 1 ? AssignmentType::Blocking : AssignmentType::NonBlocking);
        t += str(d) + (s == 1 ? "= " : s == 2 ? "<= " : "? ");
        bool seq = d.p == SEQ1 || d.p == SEQ2;
        if (s == 0 ? seq : s == 2) nb = true; else b = true;
    }
    Build m(array, false);
    bool refused = false;
    for (int i = 0; i < 2 && !refused; i++) refused = raises(c, t, [&] { m.drive(ds[i], as[i]); });
    if (!refused) refused = raises(c, t, [&] { fix_assignment_type(&m.g); });
    if (!refused) refused = raises(c, t, [&] { check_mixed_assignment(&m.g); });
    c.trans(1); c.states(1); c.trace();
    // a style that does not fit the process is refused as well
    bool misfit = false;
    for (int i = 0; i < 2; i++) {
        bool seq = ds[i].p == SEQ1 || ds[i].p == SEQ2;
        if (as[i] == (seq ? AssignmentType::Blocking : AssignmentType::NonBlocking)) misfit = true;
    }
    if (b && nb && !refused) c.fail("mixed missed", t + ": both styles, no error");
    if (refused && !(b && nb) && !misfit) c.fail("mixed raised", t + ": one style, refused");
    c.outcome(mc::hash_str(refused ? "refused" : "accepted"));
}
// ports of instances: which bits are connected, from where
static void ports(mc::Ctx &c) {
    bool array = c.flip("array");
    int depth = 1 + c.choose(2, "levels"), dir = c.choose(2, "direction"), kind = c.choose(3, "kind"), n = c.choose(3, "drivers");
    Context ctx;
    auto &top = ctx.generator("top");
    auto &a = top.port(PortDirection::In, "a", 4);
    Generator *parent = &top;
    std::string t = std::string(array ? "array " : "") + (depth == 2 ? "nested " : "") + (dir ? "output " : "input ") + (kind == 1 ? "external " : kind == 2 ? "stub " : "");
    Var *av = &a;
    if (depth == 2) {
        auto &mid = ctx.generator("mid");
        auto &ma = mid.port(PortDirection::In, "a", 4);
        top.add_child_generator("m", mid.shared_from_this());
        top.wire(ma, a);
        parent = &mid;
        av = &ma;
    }
    auto &ch = ctx.generator("ch");
    auto &p = array ? ch.port(dir ? PortDirection::Out : PortDirection::In, "p", 2, 2) : ch.port(dir ? PortDirection::Out : PortDirection::In, "p", 4);
    parent->add_child_generator("i", ch.shared_from_this());
    if (kind == 1) ch.set_external(true);
    if (kind == 2) ch.set_is_stub(true);
    auto &owner = dir ? ch : *parent;
    Var *from = av;
    if (dir) from = &ch.var("z", 4);
    unsigned all = 0;
    for (int i = 0; i < n; i++) {
        int part = c.choose(6, "part"), how = c.choose(3, "how");
        Var *l;
        unsigned m;
        if (array) {
            switch (part) {
                case 0: l = &p; m = 15; break;
                case 1: l = &p[1]; m = 12; break;
                case 2: l = &p[0]; m = 3; break;
                case 3: l = &p[1][0]; m = 4; break;
                case 4: l = &p[1][1]; m = 8; break;
                default: l = &cut(p[0], 1, 0); m = 3; break;
            }
        } else {
            switch (part) {
                case 0: l = &p; m = 15; break;
                case 1: l = &cut(p, 3, 2); m = 12; break;
                case 2: l = &cut(p, 1, 0); m = 3; break;
                case 3: l = &cut(p, 2, 1); m = 6; break;
                case 4: l = &cut(p, 3, 3); m = 8; break;
                default: l = &cut(p, 2, 0); m = 7; break;
            }
        }
        if (m & all) c.skip();
        all |= m;
        t += std::to_string(part) + "." + std::to_string(how) + " ";
        auto &val = l->width() == 4 ? *from : cut((*from), l->width() - 1, 0);
        if (how == 0) owner.add_stmt(l->assign(val));
        else {
            auto blk = owner.combinational();
            if (how == 1) blk->add_stmt(l->assign(val));
            else { auto i = std::make_shared<IfStmt>(cut((*from), 0, 0).shared_from_this()); blk->add_stmt(i); i->add_then_stmt(l->assign(val)); }
        }
    }
    fix_assignment_type(&top);
    bool got = raises(c, t, [&] { verify_generator_connectivity(&top); });
    c.trans(1); c.states(1); c.trace();
    // modules whose content is elsewhere may leave their outputs (and inputs) alone
    if (kind != 0) { if (got && (dir || all == 15)) c.fail("ports raised", t + ": raised"); return; }
    if (got != (all != 15)) c.fail(got ? "ports raised" : "ports missed", t + (got ? ": an error, but every bit is driven" : ": no error, but a bit is not driven"));
    c.outcome(mc::hash_str(got ? "floating" : "connected"));
}
// a port driven from the wrong side, or from nowhere near
static void sides(mc::Ctx &c) {
    Context ctx;
    auto &top = ctx.generator("top");
    auto &a = top.port(PortDirection::In, "a", 4);
    auto &o = top.port(PortDirection::Out, "o", 4);
    auto mk = [&](const char *name, Generator &parent, Var *&x, Var *&q, Var *&z) -> Generator & {
        auto &g = ctx.generator(name);
        x = &g.port(PortDirection::In, "x", 4);
        q = &g.port(PortDirection::Out, "q", 4);
        z = &g.var("z", 4);
        parent.add_child_generator(std::string("i") + name, g.shared_from_this());
        return g;
    };
    Var *x1, *q1, *z1, *x2, *q2, *z2, *x3, *q3, *z3;
    auto &m = mk("m", top, x1, q1, z1);
    auto &n = mk("n", m, x2, q2, z2);
    auto &k = mk("k", top, x3, q3, z3);
    auto &y = top.var("y", 4);
    // everything connected properly, except that one more or another connection is added
    std::vector<std::pair<Var *, std::string>> vs = {{&a, "a"}, {&o, "o"}, {x1, "m.x"}, {q1, "m.q"}, {z1, "m.z"}, {x2, "m.n.x"}, {q2, "m.n.q"}, {z2, "m.n.z"}, {x3, "k.x"}, {q3, "k.q"}, {z3, "k.z"}, {&y, "y"}};
    int l = c.choose(vs.size(), "left"), r = c.choose(vs.size(), "right"), where = c.choose(4, "in"), form = c.choose(7, "form");
    if (l == r) c.skip();
    Generator *gs[] = {&top, &m, &n, &k};
    const char *gn[] = {"top", "m", "m.n", "k"};
    // legal: the left side is a local variable, local output or a child's input; the right side something readable there
    struct Info { int owner, kind; };    // 0 input 1 output 2 variable
    std::map<int, Info> info = {{0, {0, 0}}, {1, {0, 1}}, {2, {1, 0}}, {3, {1, 1}}, {4, {1, 2}}, {5, {2, 0}}, {6, {2, 1}}, {7, {2, 2}}, {8, {3, 0}}, {9, {3, 1}}, {10, {3, 2}}, {11, {0, 2}}};
    int parent[] = {-1, 0, 1, 0};
    auto &L = info[l], &R = info[r];
    bool lok = (L.owner == where && L.kind != 0) || (parent[L.owner] == where && L.kind == 0), rok = R.owner == where || (parent[R.owner] == where && R.kind != 2);
    std::string t = std::string(gn[where]) + ": " + vs[l].second + " = " + vs[r].second;
    std::map<int, int> dflt = {{1, 3}, {2, 0}, {3, 6}, {5, 2}, {6, 7}, {8, 0}, {9, 10}};
    std::map<int, int> at = {{1, 0}, {2, 0}, {3, 1}, {5, 1}, {6, 2}, {8, 0}, {9, 3}};
    static const char *FORM[] = {"", "~", "slice ", "cast ", "mux ", "concat ", "sum "};
    t += std::string(" ") + FORM[form];
    bool refused = raises(c, t, [&] {
        auto &x = *vs[r].first;
        auto &ok = where == 0 ? *static_cast<Var *>(&a) : where == 1 ? *x1 : where == 2 ? *x2 : *x3;
        Var *y = &x;
        switch (form) {
            case 1: y = &~x; break;
            case 2: y = &cut(x, 1, 0).concat(cut(x, 3, 2)); break;
            case 3: y = x.cast(VarCastType::Signed)->cast(VarCastType::Unsigned).get(); break;
            case 4: y = util::mux(cut(x, 0, 0), ok, x).get(); break;
            case 5: y = &cut(ok, 3, 2).concat(cut(x, 1, 0)); break;
            case 6: y = &(ok + x); break;
            default: break;
        }
        gs[where]->add_stmt(vs[l].first->assign(*y));
    });
    if (!refused) {
        for (auto &[to, from] : dflt)
            if (to != l) gs[at[to]]->add_stmt(vs[to].first->assign(*vs[from].first));
        refused = raises(c, t, [&] { fix_assignment_type(&top); verify_assignments(&top); check_mixed_assignment(&top); check_multiple_driver(&top); verify_generator_connectivity(&top); });
    }
    c.trans(1); c.states(1); c.trace();
    c.outcome(mc::hash_str(refused ? "refused" : "accepted"));
    if (lok && rok && refused) c.fail("sides raised " + t, t + ": refused");
    if (!(lok && rok) && !refused) c.fail(std::string("sides missed: ") + (lok ? "right " : "left ") + t, t + ": accepted");
}
int main(int argc, char **argv) {
    std::cerr.rdbuf(nullptr);
    std::vector<mc::Family> f;
    f.push_back({"one driver", [](mc::Ctx &c) { run(c, 1, false); }, 3});
    f.push_back({"two drivers", [](mc::Ctx &c) { run(c, 2, false); }, 3});
    f.push_back({"three drivers", [](mc::Ctx &c) { run(c, 3, !c.thorough); }, 4});
    f.push_back({"mixed styles", mixed, 3});
    f.push_back({"instance ports", ports, 3});
    f.push_back({"wrong sides", sides, 3});
    return mc::run("C12", f, argc, argv, "model_checking",
                   {"one four-bit variable or output (a vector or an array of two) with up to three drivers; a second, overlapping assignment in the same clocked, initial or function block is not judged"});
}
