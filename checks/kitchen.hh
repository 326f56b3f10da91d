// Designs with something for every pass to do, in several sibling generators.
#pragma once
#include "context.hh"
#include "codegen.hh"
#include "debug.hh"
#include "except.hh"
#include "expr.hh"
#include "fsm.hh"
#include "generator.hh"
#include "interface.hh"
#include "pass.hh"
#include "port.hh"
#include "stmt.hh"
#include "tb.hh"
#include "util.hh"
namespace kitchen {
using namespace kratos;
struct Unit { Generator *g; Port *clk, *rst, *a, *b, *e, *o, *p; };
static std::shared_ptr<Var> P(Var &v) { return v.shared_from_this(); }
static Var &K(int64_t v, uint32_t w) { return constant(v, w); }
constexpr int KINDS = 12;
static const char *kind_name[KINDS] = {"comb", "seq", "fsm", "wires", "stub", "struct", "pipeline", "function", "bundle", "latch", "external", "through"};
struct Shared { std::shared_ptr<PackedStruct> st; Enum *en = nullptr; std::shared_ptr<InterfaceDefinition> ifc; };
static Shared shared(Context &c) {
    Shared s;
    s.st = std::make_shared<PackedStruct>("pair_t", std::vector<std::tuple<std::string, uint32_t, bool>>{{"lo", 2, false}, {"hi", 2, false}});
    s.en = &c.enum_("Color", {{"RED", 0}, {"GREEN", 1}, {"BLUE", 2}}, 2);
    return s;
}
static Unit unit(Context &c, Shared &sh, const std::string &name, int kind, int flavour = 0) {
    auto &g = c.generator(name);
    Unit u;
    u.g = &g;
    u.clk = &g.port(PortDirection::In, "clk", 1, 1, PortType::Clock, false);
    u.rst = &g.port(PortDirection::In, "rst_n", 1, 1, PortType::AsyncReset, false);
    u.a = &g.port(PortDirection::In, "a", 4);
    u.b = &g.port(PortDirection::In, "b", 4);
    u.e = &g.port(PortDirection::In, "en", 1);
    u.o = &g.port(PortDirection::Out, "o", 4);
    u.p = &g.port(PortDirection::Out, "p", 4);
    auto &a = *u.a, &b = *u.b, &e = *u.e, &o = *u.o, &p = *u.p;
    auto comb = [&] { return g.combinational(); };
    auto chain = [&](Var &out) {
        // an if chain that can become a case
        auto s = comb();
        auto i1 = std::make_shared<IfStmt>(P(a.eq(K(1, 4)))), i2 = std::make_shared<IfStmt>(P(a.eq(K(2, 4))));
        i1->add_then_stmt(out.assign(b));
        i1->add_else_stmt(i2);
        i2->add_then_stmt(out.assign(b + K(1 + flavour, 4)));
        i2->add_else_stmt(out.assign(K(0, 4)));
        s->add_stmt(i1);
    };
    switch (kind) {
        case 0: {
            chain(o);
            auto s = comb();
            auto sw = std::make_shared<SwitchStmt>(P(b[{1, 0}]));
            sw->add_switch_case(K(0, 2).as<Const>(), p.assign(a));
            sw->add_switch_case(K(1, 2).as<Const>(), p.assign(~a));
            sw->add_switch_case(nullptr, p.assign(K(3, 4)));
            s->add_stmt(sw);
            break;
        }
        case 1: {
            auto &r = g.var("r", 4);
            auto s = g.sequential();
            s->add_condition({EventEdgeType::Posedge, P(*u.clk)});
            s->add_condition({EventEdgeType::Negedge, P(*u.rst)});
            auto i = std::make_shared<IfStmt>(P(u.rst->r_not())), j = std::make_shared<IfStmt>(P(e));
            i->add_then_stmt(r.assign(K(flavour, 4)));
            i->add_else_stmt(j);
            j->add_then_stmt(r.assign(a + b));
            s->add_stmt(i);
            auto in = g.initial();
            auto &q = g.var("q", 4);
            in->add_stmt(q.assign(K(5, 4)));
            g.add_stmt(o.assign(r));
            g.add_stmt(p.assign(q));
            break;
        }
        case 2: {
            auto &f = g.fsm("Light", P(*u.clk), P(*u.rst));
            f.set_reset_high(false);
            f.output(P(o));
            f.output(P(p));
            auto s0 = f.add_state("Off"), s1 = f.add_state("On"), s2 = f.add_state("Done");
            s0->next(s1, P(e.eq(K(1, 1)))); s0->next(s0, P(e.eq(K(0, 1))));
            s1->next(s2, P(a.eq(K(3, 4))));
            s2->next(s0, nullptr);
            int n = 0;
            for (auto &s : {s0, s1, s2}) { s->output(P(o), P(K(n + flavour, 4))); s->output(P(p), P(K(4 + n++, 4))); }
            f.set_start_state(s0);
            break;
        }
        case 3: {
            auto &w = g.var("w", 4), &x = g.var("x", 4), &y = g.var("y", 4);
            g.var("unused", 3);
            g.add_stmt(w.assign(a));
            g.add_stmt(x.assign(w));
            for (int k = 0; k < 4; k++) g.add_stmt(y[k].assign(b[k]));
            g.add_stmt(o.assign(x + y));
            auto &t = g.var("t", 4);
            g.add_stmt(t.assign(K(2 + flavour, 4)));
            g.add_stmt(p.assign(t));
            break;
        }
        case 4: g.set_is_stub(true); break;
        case 5: {
            auto &v = g.var_packed("v", sh.st);
            g.add_stmt(v.assign(a + b));
            g.add_stmt(o.assign(v));
            g.add_stmt(p[{1, 0}].assign(v["hi"]));
            auto &ev = g.enum_var("ev", sh.en->shared_from_this());
            auto s = comb();
            auto i = std::make_shared<IfStmt>(P(e));
            i->add_then_stmt(ev.assign(*sh.en->get_enum("GREEN")));
            i->add_else_stmt(ev.assign(*sh.en->get_enum("BLUE")));
            s->add_stmt(i);
            auto s2 = comb();
            auto j = std::make_shared<IfStmt>(P(ev.eq(*sh.en->get_enum("BLUE"))));
            j->add_then_stmt(p[{3, 2}].assign(K(1, 2)));
            j->add_else_stmt(p[{3, 2}].assign(K(2, 2)));
            s2->add_stmt(j);
            break;
        }
        case 6: {
            g.add_stmt(o.assign(a + b));
            g.add_stmt(p.assign(a ^ b));
            auto at = std::make_shared<Attribute>();
            at->type_str = "pipeline"; at->value_str = "2";
            g.add_attribute(at);
            break;
        }
        case 7: {
            auto f = g.function("mix");
            auto x = f->input("x", 4, false), y = f->input("y", 4, false);
            f->create_function_handler(4, false);
            f->set_has_return_value(true);
            f->add_stmt(f->return_stmt(P(*x - *y)));
            std::map<std::string, std::shared_ptr<Var>> m1{{"x", P(a)}, {"y", P(b)}}, m2{{"x", P(b)}, {"y", P(K(1 + flavour, 4))}};
            g.add_stmt(o.assign(g.call("mix", m1)));
            g.add_stmt(p.assign(g.call("mix", m2)));
            auto as = std::make_shared<AssertValueStmt>(P(e.eq(K(1, 1))));
            auto s = g.initial();
            s->add_stmt(as);
            g.property("follows", std::make_shared<Sequence>(P(e)))->edge(EventEdgeType::Posedge, P(*u.clk));
            break;
        }
        case 8: {
            auto &prm = g.parameter("WIDE", 4, false);
            prm.set_initial_value(3);
            prm.set_value(3 + flavour);
            g.add_stmt(o.assign(a + prm));
            auto s = comb();
            auto fo = std::make_shared<ForStmt>("i", 0, 4, 1);
            auto it = fo->get_iter_var();
            s->add_stmt(fo);
            fo->get_loop_body()->add_stmt(p[P(*it)].assign(b[P(*it)]));
            break;
        }
        case 9: {
            auto l = g.latch();
            auto i = std::make_shared<IfStmt>(P(e));
            i->add_then_stmt(o.assign(a));
            l->add_stmt(i);
            auto s = comb();
            auto j = std::make_shared<IfStmt>(P(e)), k = std::make_shared<IfStmt>(P(e));
            j->add_then_stmt(p[{1, 0}].assign(a[{1, 0}])); j->add_else_stmt(p[{1, 0}].assign(K(0, 2)));
            k->add_then_stmt(p[{3, 2}].assign(K(1, 2))); k->add_else_stmt(p[{3, 2}].assign(K(2, 2)));
            s->add_stmt(j); s->add_stmt(k);
            auto at = std::make_shared<Attribute>();
            at->value_str = "merge_if_block";
            s->add_attribute(at);
            break;
        }
        case 10: g.set_external(true); break;
        default: g.add_stmt(o.assign(a)); g.add_stmt(p.assign(b)); break;
    }
    return u;
}
struct Design { Context ctx; Shared sh; Generator *top = nullptr; std::vector<Unit> units; };
// children of the given kinds below a parent of their own; wiring: 0 separate, 1 a chain of siblings
static Unit parent_in(Context &ctx, const std::string &name, const std::vector<Unit> &kids, int wiring, const std::string &prefix = "u") {
    auto &g = ctx.generator(name);
    Unit u;
    u.g = &g;
    u.clk = &g.port(PortDirection::In, "clk", 1, 1, PortType::Clock, false);
    u.rst = &g.port(PortDirection::In, "rst_n", 1, 1, PortType::AsyncReset, false);
    u.a = &g.port(PortDirection::In, "a", 4);
    u.b = &g.port(PortDirection::In, "b", 4);
    u.e = &g.port(PortDirection::In, "en", 1);
    u.o = &g.port(PortDirection::Out, "o", 4);
    u.p = &g.port(PortDirection::Out, "p", 4);
    Var *x = u.a, *y = u.b;
    Var *so = nullptr, *sp = nullptr;
    int n = 0;
    for (auto &k : kids) {
        g.add_child_generator(prefix + std::to_string(n), k.g->shared_from_this());
        if (!k.g->instance_name.empty()) g.add_stmt(k.clk->assign(*u.clk));
        g.add_stmt(k.rst->assign(*u.rst));
        g.add_stmt(k.e->assign(*u.e));
        g.add_stmt(k.a->assign(wiring && n % 2 ? *x + K(n, 4) : *x));
        g.add_stmt(k.b->assign(*y));
        if (wiring) { x = k.o; y = k.p; }
        so = so ? static_cast<Var *>(&(*so ^ *k.o)) : k.o;
        sp = sp ? static_cast<Var *>(&(*sp + *k.p)) : k.p;
        n++;
    }
    g.add_stmt(u.o->assign(wiring || !so ? *x : *so));
    g.add_stmt(u.p->assign(wiring || !sp ? *y : *sp));
    return u;
}
static Unit parent(Design &d, const std::string &name, const std::vector<Unit> &kids, int wiring, const std::string &prefix = "u") { return parent_in(d.ctx, name, kids, wiring, prefix); }
}  // namespace kitchen
