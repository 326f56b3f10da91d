// C13: the structural checks raise an error for exactly the designs with the flaw.
// Every design of a bounded shape is built on the real API, each check's verdict is compared with an account of the
// flaw that is computed from the way the design was chosen, and the design is compared before and after.
#include <functional>
#include <iostream>
#include <set>

#include "codegen.hh"
#include "except.hh"
#include "expr.hh"
#include "formal.hh"
#include "generator.hh"
#include "event.hh"
#include "mc.hh"
#include "pass.hh"
#include "port.hh"
#include "stmt.hh"
#include "tb.hh"
#include "util.hh"
using namespace kratos;
typedef std::shared_ptr<Stmt> S;
typedef std::function<void(S)> Add;
static Var &cut(Var &v, uint32_t h, uint32_t l) { return v[std::make_pair(h, l)]; }
static std::string text(Generator &g) {
    std::string r;
    SystemVerilogCodeGenOptions o;
    for (auto &[n, t] : generate_verilog(&g, o)) r += t;
    return r;
}
template <class F> static bool raises(mc::Ctx &c, const std::string &what, F f) {
    try { f(); } catch (StmtException &) { return true; } catch (VarException &) { return true; } catch (UserException &) { return true; } catch (GeneratorException &) { return true; }
    catch (InternalException &e) { c.fail("internal error", what + ": " + e.what()); } catch (std::exception &e) { c.fail("other error", what + ": " + e.what()); }
    return false;
}
// one check on one design
static void verdict(mc::Ctx &c, Generator &g, const char *name, void (*check)(Generator *), bool expect, const std::string &t, const std::string &key = "", bool plain = true) {
    bool fixed = !raises(c, t, [&] { fix_assignment_type(&g); });
    if (!fixed) c.fail("assignment types", t);
    auto before = plain ? text(g) : "";
    bool got = raises(c, t, [&] { check(&g); });
    c.trans(1); c.states(1); c.trace();
    c.outcome(mc::hash_str(name) + got);
    if (got != expect) c.fail(std::string(name) + (got ? " raised" : " missed") + key, t + ": " + (got ? "raises an error, nothing is wrong\n" : "raises no error\n") + before);
    if (plain && text(g) != before) c.fail(std::string(name) + " changed", t + ": the design is different after the check\n" + before + "\n" + text(g));
}
// ---------------------------------------------------------------- inferred latches
// bits 0-3: v, 4: w
struct Latch {
    mc::Ctx &c;
    Context ctx;
    Generator &g;
    Var &v, &w, &a, &b, &s, &k, &en;
    Var *e = nullptr;
    std::shared_ptr<Enum> en_;
    unsigned may = 0;
    std::string t;
    int targets, stmts_leaf = 2;
    explicit Latch(mc::Ctx &c, int targets) : c(c), g(ctx.generator("mod")), v(g.var("v", 4)), w(g.var("w", 1)), a(g.port(PortDirection::In, "a", 4)), b(g.port(PortDirection::In, "b", 2)), s(g.port(PortDirection::In, "s", 1)), k(g.port(PortDirection::In, "k", 1)), en(g.port(PortDirection::In, "en", 1)), targets(targets) {
        auto &d = ctx.enum_("color", {{"RED", 0}, {"GREEN", 1}, {"BLUE", 2}}, 2);
        en_ = d.shared_from_this();
        e = &g.port(PortDirection::In, "e", en_);
    }
    unsigned assign(const Add &add, int what) {
        Var *l;
        unsigned m;
        switch (what) {
            case 0: l = &v; m = 15; break;
            case 1: l = &cut(v, 3, 2); m = 12; break;
            case 2: l = &cut(v, 1, 0); m = 3; break;
            case 3: l = &w; m = 16; break;
            case 4: l = &cut(v, 2, 1); m = 6; break;
            case 5: l = &cut(v, 2, 0).concat(w); m = 7 | 16; break;
            default: l = &cut(v, 3, 3); m = 8; break;
        }
        static const char *N[] = {"v", "v[3:2]", "v[1:0]", "w", "v[2:1]", "{v[2:0],w}", "v[3]"};
        t += std::string(N[what]) + ";";
        add(l->assign(l->width() == 4 ? a : cut(a, l->width() - 1, 0)));
        may |= m;
        return m;
    }
    // up to n assignments
    unsigned leaf(const Add &add, int n, int tg) {
        unsigned m = 0;
        for (int i = 0; i < n; i++) {
            int x = c.choose(tg + 1, "assignment");
            if (!x) break;
            m |= assign(add, x - 1);
        }
        return m;
    }
    unsigned stmt(const Add &add, int kinds, int depth) {
        switch (c.choose(kinds, "statement")) {
            case 0: return assign(add, c.choose(targets, "target"));
            case 1: {
                auto i = std::make_shared<IfStmt>(depth ? k : s);
                add(i);
                t += "if{";
                auto body = [&](const Add &x) { return depth ? stmt(x, kinds, depth - 1) | (depth > 1 ? 0 : leaf(x, 1, 3)) : leaf(x, stmts_leaf, targets); };
                unsigned m = body([&](S q) { i->add_then_stmt(q); });
                t += "}else{";
                unsigned n = 0;
                if (c.flip("else")) n = body([&](S q) { i->add_else_stmt(q); });
                t += "}";
                return m & n;
            }
            case 2: {
                bool en = c.flip("enum target");
                auto sw = std::make_shared<SwitchStmt>(en ? *e : b);
                int labels = en ? 3 : 4, got = 0;
                unsigned m = ~0u;
                bool dflt = false;
                t += en ? "case e{" : "case b{";
                for (int l = 0; l <= labels; l++) {
                    int x = c.choose(targets > 4 ? 4 : targets + 1, "case");
                    if (!x) continue;
                    t += l == labels ? "default:" : std::to_string(l) + ":";
                    std::shared_ptr<Const> label;
                    if (l < labels) { label = en ? en_->get_enum(l == 0 ? "RED" : l == 1 ? "GREEN" : "BLUE") : constant(l, 2).as<Const>(); got++; } else dflt = true;
                    m &= assign([&](S q) { sw->add_switch_case(label, q); }, x - 1);
                }
                if (!got && !dflt) c.skip();
                add(sw);
                t += "}";
                return dflt || got == labels ? m : 0;
            }
            case 3: {
                auto f = std::make_shared<ForStmt>("i" + std::to_string(t.size()), 0, 2, 1);
                t += "for{";
                unsigned m = leaf([&](S q) { f->add_stmt(q); }, 2, targets);
                t += "}";
                if (!f->get_loop_body()->size()) c.skip();
                add(f);
                return m;
            }
            default: {
                // in a loop over part of the variable by its index: what it covers is not judged by the check, it is left out here
                c.skip();
            }
        }
        return 0;
    }
};
static void latch(mc::Ctx &c, int stmts, int kinds, int depth, int targets, int other) {
    Latch m(c, targets);
    auto blk = m.g.combinational();
    unsigned must = 0;
    if ((stmts > 2 || (depth && stmts > 1)) && !c.thorough) m.stmts_leaf = 1;
    for (int i = 0; i < stmts; i++) must |= m.stmt([&](S q) { blk->add_stmt(q); }, i && !c.thorough ? 2 : kinds, i == 0 ? depth : 0);
    // a second block and a register make no difference
    if (other) {
        auto &z = m.g.var("z", 2);
        auto &clk = m.g.port(PortDirection::In, "clk", 1, 1, PortType::Clock, false);
        auto sq = m.g.sequential();
        sq->add_condition({EventEdgeType::Posedge, clk.shared_from_this()});
        auto i = std::make_shared<IfStmt>(m.s);
        i->add_then_stmt(z.assign(m.b));
        sq->add_stmt(i);
        auto l = m.g.latch();
        auto &y = m.g.var("y", 2);
        auto j = std::make_shared<IfStmt>(m.s);
        j->add_then_stmt(y.assign(m.b));
        l->add_stmt(j);
    }
    verdict(c, m.g, "check_inferred_latch", check_inferred_latch, (m.may & ~must) != 0, m.t);
}
// registers with a reset: everything that is reset is assigned otherwise as well
static void reset(mc::Ctx &c) {
    Context ctx;
    auto &g = ctx.generator("mod");
    auto &clk = g.port(PortDirection::In, "clk", 1, 1, PortType::Clock, false);
    auto &rst = g.port(PortDirection::In, "rst", 1, 1, PortType::AsyncReset, false);
    auto &a = g.port(PortDirection::In, "a", 4);
    auto &en = g.port(PortDirection::In, "en", 1);
    Var *vs[] = {&g.var("x", 4), &g.var("y", 4)};
    bool listed = c.flip("reset in the list");
    auto sq = g.sequential();
    sq->add_condition({EventEdgeType::Posedge, clk.shared_from_this()});
    if (listed) sq->add_condition({EventEdgeType::Posedge, rst.shared_from_this()});
    int cond = c.choose(3, "condition"), th = c.choose(9, "reset"), el = c.choose(9, "otherwise"), deep = c.choose(3, "nested");
    auto i = std::make_shared<IfStmt>(cond == 0 ? rst : cond == 1 ? static_cast<Var &>(rst | en) : en);
    auto fill = [&](int k, const Add &add) {
        std::set<int> r;
        for (int v = 0; v < 2; v++) {
            int how = v ? k / 3 : k % 3;
            if (!how) continue;
            r.insert(v);
            auto &l = how == 1 ? *vs[v] : cut(*vs[v], 1, 0);
            add(l.assign(how == 1 ? a : cut(a, 1, 0)));
        }
        return r;
    };
    auto t1 = fill(th, [&](S s) { i->add_then_stmt(s); });
    std::set<int> t2;
    if (deep == 0) t2 = fill(el, [&](S s) { i->add_else_stmt(s); });
    else if (deep == 1) { auto j = std::make_shared<IfStmt>(en); i->add_else_stmt(j); t2 = fill(el, [&](S s) { j->add_then_stmt(s); }); }
    else { auto sw = std::make_shared<SwitchStmt>(cut(a, 1, 0)); t2 = fill(el, [&](S s) { sw->add_switch_case(constant(2, 2).as<Const>(), s); }); if (t2.empty()) c.skip(); i->add_else_stmt(sw); }
    sq->add_stmt(i);
    bool bad = false;
    if (listed && cond != 2) for (int v : t1) if (!t2.count(v)) bad = true;
    verdict(c, g, "check_inferred_latch", check_inferred_latch, bad, "reset " + std::to_string(listed) + std::to_string(cond) + " " + std::to_string(th) + "," + std::to_string(el) + "," + std::to_string(deep), " (reset)");
}
// ---------------------------------------------------------------- combinational loops
typedef std::set<std::pair<int, int>> Dep;      // bit of the target, node = 2*var+bit it depends on
static const int NFORM = 18;
static void loops(mc::Ctx &c, int n, std::vector<int> forms) {
    Context ctx;
    auto &g = ctx.generator("mod");
    auto &a = g.port(PortDirection::In, "a", 2);
    auto &clk = g.port(PortDirection::In, "clk", 1, 1, PortType::Clock, false);
    static const char *names[] = {"x", "y", "z"};
    std::vector<Var *> vs;
    for (int i = 0; i < n; i++) vs.push_back(&g.var(names[i], 2));
    std::set<std::pair<int, int>> edges;
    std::string t;
    int longest = 0;
    for (int i = 0; i < n; i++) {
        int f = forms[c.choose(forms.size(), "form")], ui = c.choose(n + 1, "first");
        bool binary = f == 2 || f == 3 || f == 4 || f == 6 || f == 9 || f == 10 || f == 16;
        int wi = binary ? c.choose(n + 1, "second") : n;
        auto &v = *vs[i];
        auto &u = ui < n ? *vs[ui] : a;
        auto &w = wi < n ? *vs[wi] : a;
        t += std::string(names[i]) + "=f" + std::to_string(f) + "(" + (ui < n ? names[ui] : "a") + (binary ? std::string(",") + (wi < n ? names[wi] : "a") : "") + ") ";
        bool comb = f == 9 || f == 10 || f == 11 || f == 16 || f == 17;
        // a process that reads what it assigns is not judged
        if (comb && (ui == i || wi == i)) c.skip();
        auto dep = [&](int bit, int var, int vb) { if (var < n) edges.insert({2 * i + bit, 2 * var + vb}); };
        auto all = [&](int var) { for (int p = 0; p < 2; p++) for (int q = 0; q < 2; q++) dep(p, var, q); };
        auto lane = [&](int var) { dep(0, var, 0); dep(1, var, 1); };
        auto child = [&](int kind) {
            auto &ch = ctx.generator("ch" + std::to_string(i));
            auto &x = ch.port(PortDirection::In, "x", 2);
            auto &q = ch.port(PortDirection::Out, "q", 2);
            if (kind == 0) ch.wire(q, ~x);
            else if (kind == 1) { ch.wire(cut(q, 1, 1), cut(x, 0, 0)); ch.wire(cut(q, 0, 0), constant(0, 1)); }
            else { auto b = ch.combinational(); b->add_stmt(q.assign(x + constant(1, 2))); }
            g.add_child_generator("i" + std::to_string(i), ch.shared_from_this());
            g.wire(x, u);
            g.wire(v, q);
        };
        switch (f) {
            case 0: g.wire(v, u); lane(ui); break;
            case 1: g.wire(v, ~u); lane(ui); break;
            case 2: g.wire(v, u ^ w); lane(ui); lane(wi); break;
            case 3: g.wire(v, u + w); all(ui); all(wi); break;
            case 4: g.wire(v, cut(u, 0, 0).concat(cut(w, 1, 1))); dep(1, ui, 0); dep(0, wi, 1); break;
            case 5: g.wire(v, cut(u, 0, 0).concat(cut(u, 1, 1))); dep(1, ui, 0); dep(0, ui, 1); break;
            case 6: g.wire(v, *util::mux(cut(u, 0, 0), w, a)); dep(0, ui, 0); dep(1, ui, 0); lane(wi); break;
            case 7: g.wire(cut(v, 0, 0), cut(u, 1, 1)); g.wire(cut(v, 1, 1), cut(a, 0, 0)); dep(0, ui, 1); break;
            case 8: g.wire(v, cut(u, 1, 1).extend(2)); dep(0, ui, 1); break;
            case 9: { auto b = g.combinational(); b->add_stmt(v.assign(a)); auto s = std::make_shared<IfStmt>(cut(u, 0, 0)); s->add_then_stmt(v.assign(w)); b->add_stmt(s); dep(0, ui, 0); dep(1, ui, 0); lane(wi); break; }
            case 10: { auto b = g.combinational(); b->add_stmt(v.assign(u)); b->add_stmt(v.assign(v ^ w)); lane(ui); lane(wi); break; }
            case 11: { auto b = g.combinational(); b->add_stmt(v.assign(u)); b->add_stmt(cut(v, 1, 1).assign(cut(a, 0, 0))); dep(0, ui, 0); break; }
            case 12: child(0); lane(ui); break;
            case 13: child(1); dep(1, ui, 0); break;
            case 14: child(2); all(ui); break;
            case 15: { auto b = g.sequential(); b->add_condition({EventEdgeType::Posedge, clk.shared_from_this()}); b->add_stmt(v.assign(u)); break; }
            case 16: { auto b = g.combinational(); auto s = std::make_shared<SwitchStmt>(u); s->add_switch_case(constant(1, 2).as<Const>(), v.assign(w)); s->add_switch_case(nullptr, v.assign(a)); b->add_stmt(s); all(ui); lane(wi); break; }
            default: { auto b = g.combinational(); auto &tmp = g.var("t" + std::to_string(i), 2); b->add_stmt(tmp.assign(u)); b->add_stmt(v.assign(~tmp)); b->add_stmt(tmp.assign(a)); lane(ui); break; }
        }
    }
    // is there a cycle
    bool cycle = false;
    for (int s = 0; s < 2 * n; s++) {
        std::set<int> seen;
        std::vector<int> todo = {s};
        while (!todo.empty()) {
            int x = todo.back();
            todo.pop_back();
            for (auto &[p, q] : edges) if (p == x) { if (q == s) cycle = true; if (seen.insert(q).second) todo.push_back(q); }
        }
    }
    (void)longest;
    verdict(c, g, "check_combinational_loop", check_combinational_loop, cycle, t);
}
// ---------------------------------------------------------------- always_ff
static void always_ff(mc::Ctx &c) {
    Context ctx;
    auto &g = ctx.generator("mod");
    auto &clk = g.port(PortDirection::In, "clk", 1, 1, PortType::Clock, false);
    auto &a = g.port(PortDirection::In, "a", 2);
    int blocks = 1 + c.choose(2, "blocks");
    bool bad = false;
    std::string t;
    int nv = 0;
    for (int b = 0; b < blocks; b++) {
        bool seq = b == 0 || c.flip("clocked");
        std::shared_ptr<StmtBlock> blk;
        if (seq) { auto s = g.sequential(); s->add_condition({EventEdgeType::Posedge, clk.shared_from_this()}); blk = s; } else blk = g.combinational();
        int n = c.choose(b ? 3 : 4, "statements");
        bool has_if = false;
        t += seq ? "ff{" : "comb{";
        for (int i = 0; i < n; i++) {
            auto &v = g.var("v" + std::to_string(nv++), 2);
            switch (c.choose(4, "statement")) {
                case 0: blk->add_stmt(v.assign(a)); t += "=;"; break;
                case 1: { auto s = std::make_shared<IfStmt>(cut(a, 0, 0)); s->add_then_stmt(v.assign(a)); s->add_else_stmt(v.assign(~a)); blk->add_stmt(s); has_if = true; t += "if;"; break; }
                case 2: { auto s = std::make_shared<SwitchStmt>(a); auto i2 = std::make_shared<IfStmt>(cut(a, 0, 0)); i2->add_then_stmt(v.assign(a)); s->add_switch_case(constant(1, 2).as<Const>(), i2); blk->add_stmt(s); t += "case;"; break; }
                default: { auto f = std::make_shared<ForStmt>("i" + std::to_string(nv), 0, 2, 1); f->add_stmt(v.assign(a)); blk->add_stmt(f); t += "for;"; break; }
            }
        }
        t += "}";
        if (seq && has_if && n > 1) bad = true;
    }
    verdict(c, g, "check_flip_flop_always_ff", check_flip_flop_always_ff, bad, t);
}
// ---------------------------------------------------------------- function return
struct Fn {
    mc::Ctx &c;
    FunctionStmtBlock &f;
    Var &a, &b, &w;
    std::string t;
    bool unreachable = false;
    // statements of a block; true when it always returns
    bool block(const Add &add, int n, int depth) {
        bool done = false;
        for (int i = 0; i < n; i++) {
            int k = c.choose(depth ? 6 : 3, "statement");
            if (k == 0) return done;
            if (done) unreachable = true;
            switch (k) {
                case 1: add(w.assign(a)); t += "=;"; break;
                case 2: add(f.return_stmt(b.shared_from_this())); t += "return;"; done = true; break;
                case 3: {
                    auto s = std::make_shared<IfStmt>(cut(a, 0, 0));
                    add(s);
                    t += "if{";
                    bool x = block([&](S q) { s->add_then_stmt(q); }, depth > 1 ? 1 : 2, depth - 1);
                    t += "}else{";
                    bool y = block([&](S q) { s->add_else_stmt(q); }, depth > 1 ? 1 : 2, depth - 1);
                    t += "}";
                    done |= x && y;
                    break;
                }
                case 4: {
                    auto s = std::make_shared<SwitchStmt>(a);
                    add(s);
                    t += "case{";
                    int mask = c.choose(4, "labels");      // 0: two of four, 1: two and default, 2: all, 3: default only
                    bool all = true;
                    int labels = mask == 0 || mask == 1 ? 2 : mask == 2 ? 4 : 0;
                    for (int l = 0; l < labels; l++) {
                        size_t before = t.size();
                        all &= block([&](S q) { s->add_switch_case(constant(l, 2).as<Const>(), q); }, 1, 0);
                        if (t.size() == before) c.skip();
                        t += "|";
                    }
                    if (mask == 1 || mask == 3) {
                        size_t before = t.size();
                        all &= block([&](S q) { s->add_switch_case(nullptr, q); }, 1, 0);
                        if (t.size() == before) c.skip();
                    }
                    t += "}";
                    done |= mask != 0 && all;
                    break;
                }
                default: {
                    auto s = std::make_shared<ForStmt>("i" + std::to_string(t.size()), 0, 2, 1);
                    t += "for{";
                    size_t before = t.size();
                    bool x = block([&](S q) { s->add_stmt(q); }, 2, 0);
                    if (t.size() == before) c.skip();
                    add(s);
                    t += "}";
                    done |= x;
                    break;
                }
            }
        }
        return done;
    }
};
static void functions(mc::Ctx &c, int n, int depth) {
    Context ctx;
    auto &g = ctx.generator("mod");
    auto f = g.function("f");
    auto &a = *f->input("a", 2, false);
    auto &b = *f->input("b", 2, false);
    auto &o = g.port(PortDirection::Out, "o", 2);
    auto &w = g.var("w", 2);
    int nothing = c.choose(2, "returns something");
    Fn m{c, *f, a, b, w, ""};
    bool done = m.block([&](S s) { f->add_stmt(s); }, n, depth);
    bool value = m.t.find("return") != std::string::npos;
    if (nothing == 0 && !value) c.skip();
    if (nothing == 1) { if (value) c.skip(); f->set_has_return_value(false); } else f->set_has_return_value(true);
    (void)o;
    verdict(c, g, "check_function_return", check_function_return, nothing == 0 && (!done || m.unreachable), m.t);
}
// ---------------------------------------------------------------- sensitivity lists
static void sensitivity(mc::Ctx &c) {
    Context ctx;
    auto &g = ctx.generator("mod");
    Generator *at = &g;
    if (c.flip("in a child")) {
        auto &ch = ctx.generator("ch");
        g.add_child_generator("i", ch.shared_from_this());
        at = &ch;
    }
    auto &a = at->port(PortDirection::In, "a", 1);
    auto &v = at->var("v", 1);
    auto sq = at->sequential();
    bool bad = false;
    std::string t;
    int n = 1 + c.choose(3, "events");
    for (int i = 0; i < n; i++) {
        int k = c.choose(12, "signal");
        auto edge = c.flip("negative") ? EventEdgeType::Negedge : EventEdgeType::Posedge;
        std::string nm = "s" + std::to_string(i);
        std::shared_ptr<Var> s;
        static const PortType PT[] = {PortType::Data, PortType::Clock, PortType::AsyncReset, PortType::ClockEnable, PortType::Reset};
        switch (k) {
            case 0: case 1: case 2: case 3: case 4: s = at->port(PortDirection::In, nm, 1, 1, PT[k], false).shared_from_this(); bad |= k != 1 && k != 2; break;
            case 5: s = at->var(nm, 1).shared_from_this(); bad = true; break;
            case 6: s = at->var(nm, 1).cast(VarCastType::Clock); break;
            case 7: s = at->var(nm, 1).cast(VarCastType::AsyncReset); break;
            case 8: s = at->var(nm, 1).cast(VarCastType::Signed); bad = true; break;
            case 9: s = at->port(PortDirection::In, nm, 1).cast(VarCastType::Clock); break;
            case 10: s = at->var(nm, 1).cast(VarCastType::ClockEnable); bad = true; break;
            default: s = cut(at->var(nm, 2), 1, 1).shared_from_this(); bad = true; break;
        }
        t += std::to_string(k) + " ";
        sq->add_condition({edge, s});
    }
    sq->add_stmt(v.assign(a));
    verdict(c, g, "check_always_sensitivity", check_always_sensitivity, bad, "events " + t);
}
// ---------------------------------------------------------------- polarity of resets
static void active_high(mc::Ctx &c) {
    Context ctx;
    auto &g = ctx.generator("mod");
    auto &clk = g.port(PortDirection::In, "clk", 1, 1, PortType::Clock, false);
    int type = c.choose(3, "reset type"), decl = c.choose(3, "declared"), n = 1 + c.choose(3, "blocks");
    auto &rst = g.port(PortDirection::In, "rst", 1, 1, type == 0 ? PortType::AsyncReset : type == 1 ? PortType::Reset : PortType::Data, false);
    if (decl) rst.set_active_high(decl == 1);
    auto &a = g.port(PortDirection::In, "a", 1);
    bool bad = false;
    std::set<int> edges;
    std::string t = std::to_string(type) + std::to_string(decl) + " ";
    for (int b = 0; b < n; b++) {
        int edge = c.choose(3, "edge"), use = c.choose(4, "use");       // edge: 0 not in the list, 1 posedge, 2 negedge
        t += std::to_string(edge) + std::to_string(use) + " ";
        // what an asynchronous reset does outside the blocks that wait for it is only judged when no block does
        if (type == 0 && !edge && use != 0 && n > 1) c.skip();
        auto sq = g.sequential();
        sq->add_condition({EventEdgeType::Posedge, clk.shared_from_this()});
        if (edge) sq->add_condition({edge == 1 ? EventEdgeType::Posedge : EventEdgeType::Negedge, rst.shared_from_this()});
        auto &v = g.var("v" + std::to_string(b), 1);
        if (use == 0) sq->add_stmt(v.assign(a));
        else {
            Var &p = use == 1 ? static_cast<Var &>(rst) : use == 2 ? static_cast<Var &>(~rst) : rst.r_not();
            auto i = std::make_shared<IfStmt>(p);
            i->add_then_stmt(v.assign(constant(0, 1)));
            i->add_else_stmt(v.assign(a));
            sq->add_stmt(i);
        }
        if (type == 0) {
            if (edge) { edges.insert(edge); if (decl && (decl == 1) != (edge == 1)) bad = true; }
            if (use && !edge) bad = true;                               // used like a synchronous one
            if (use == 1 && edge == 2) bad = true;
            if (use > 1 && edge == 1) bad = true;
        } else if (type == 1 && edge) bad = true;
    }
    if (edges.size() > 1) bad = true;
    verdict(c, g, "check_active_high", check_active_high, bad, "reset " + t);
}
// ---------------------------------------------------------------- content that cannot be synthesised
static void synth(mc::Ctx &c) {
    Context ctx;
    auto &g = ctx.generator("mod");
    Generator *at = &g;
    int level = c.choose(3, "level");
    for (int i = 0; i < level; i++) {
        auto &ch = ctx.generator("ch" + std::to_string(i));
        at->add_child_generator("i", ch.shared_from_this());
        at = &ch;
    }
    auto &clk = at->port(PortDirection::In, "clk", 1, 1, PortType::Clock, false);
    auto &a = at->port(PortDirection::In, "a", 4);
    auto &v = at->var("v", 4);
    auto &w = at->var("w", 4);
    int k = c.choose(16, "content"), where = c.choose(6, "place"), both = c.choose(2, "next to other content");
    bool bad = true;
    auto place = [&](S s) {
        switch (where) {
            case 0: { auto b = at->combinational(); b->add_stmt(s); break; }
            case 1: { auto b = at->combinational(); auto i = std::make_shared<IfStmt>(cut(a, 0, 0)); b->add_stmt(i); i->add_else_stmt(s); break; }
            case 2: { auto b = at->sequential(); b->add_condition({EventEdgeType::Posedge, clk.shared_from_this()}); b->add_stmt(s); break; }
            case 3: { auto b = at->combinational(); auto sw = std::make_shared<SwitchStmt>(a); b->add_stmt(sw); sw->add_switch_case(nullptr, s); break; }
            case 4: { auto b = at->combinational(); auto f = std::make_shared<ForStmt>("i", 0, 2, 1); b->add_stmt(f); f->add_stmt(s); break; }
            default: { auto b = at->sequential(); b->add_condition({EventEdgeType::Posedge, clk.shared_from_this()}); auto i = std::make_shared<IfStmt>(cut(a, 0, 0)); auto j = std::make_shared<IfStmt>(cut(a, 1, 1)); i->add_then_stmt(j); j->add_then_stmt(s); b->add_stmt(i); break; }
        }
    };
    if (both) { auto b = at->combinational(); b->add_stmt(w.assign(~a)); }
    std::string t = "content " + std::to_string(k) + " place " + std::to_string(where) + " level " + std::to_string(level);
    std::map<std::string, std::shared_ptr<Var>> args = {{"x", a.shared_from_this()}};
    switch (k) {
        case 0: place(v.assign(a)); bad = false; break;
        case 1: { if (where) c.skip(); auto b = at->initial(); b->add_stmt(v.assign(constant(1, 4))); break; }
        case 2: { auto s = v.assign(a); s->set_delay(EventControl(3)); place(s); break; }
        case 3: { auto f = at->dpi_function("f"); f->input("x", 4, false); f->set_return_width(4); place(v.assign(at->call("f", args))); break; }
        case 4: { auto f = at->task("f"); auto x = f->input("x", 4, false); f->add_stmt(w.assign(*x)); if (both) c.skip(); place(std::make_shared<FunctionCallStmt>(f, args)); bad = false; break; }
        case 5: { auto f = at->function("f"); auto x = f->input("x", 4, false); f->add_stmt(f->return_stmt(x)); place(v.assign(at->call("f", args))); bad = false; break; }
        case 6: { auto f = at->builtin_function("display"); place(std::make_shared<FunctionCallStmt>(at->call("display", std::vector<std::shared_ptr<Var>>{a.shared_from_this()}).as<FunctionCallVar>())); break; }
        case 7: { Event e("ev"); place(e.fire({{"x", a.shared_from_this()}})); break; }
        case 8: { if (where) c.skip(); auto b = at->combinational(); b->set_general_purpose(true); b->add_stmt(v.assign(a)); break; }
        case 9: { auto f = at->dpi_function("f"); f->input("x", 4, false); f->set_return_width(4); place(v.assign(~at->call("f", args))); break; }
        case 10: { at->builtin_function("countones"); auto &x = at->var("x", 32); place(x.assign(at->call("countones", std::vector<std::shared_ptr<Var>>{a.shared_from_this()}))); bad = false; break; }
        case 11: { if (where) c.skip(); auto b = at->final(); b->add_stmt(v.assign(constant(1, 4))); break; }
        case 12: { at->builtin_function("urandom"); auto &x = at->var("x", 32); place(x.assign(at->call("urandom", std::vector<std::shared_ptr<Var>>{}))); break; }
        case 13: { at->builtin_function("urandom"); auto &x = at->var("x", 32); place(x.assign(~(at->call("urandom", std::vector<std::shared_ptr<Var>>{})))); break; }
        case 14: { auto f = at->function("f"); auto x = f->input("x", 4, false); f->add_stmt(f->return_stmt(x)); auto d = at->dpi_function("d"); d->input("x", 4, false); d->set_return_width(4); std::map<std::string, std::shared_ptr<Var>> in = {{"x", at->call("d", args).shared_from_this()}}; place(v.assign(at->call("f", in))); break; }
        default: { auto f = at->function("g"); auto x = f->input("x", 4, false); auto d = at->dpi_function("f"); d->input("x", 4, false); d->set_return_width(4); std::map<std::string, std::shared_ptr<Var>> in = {{"x", x}}; f->add_stmt(f->return_stmt(at->call("f", in).shared_from_this())); place(v.assign(at->call("g", args))); break; }
    }
    verdict(c, g, "check_non_synthesizable_content", check_non_synthesizable_content, bad, t, "", k != 7);
}
int main(int argc, char **argv) {
    std::cerr.rdbuf(nullptr);
    std::vector<mc::Family> f;
    f.push_back({"latch one statement", [](mc::Ctx &c) { latch(c, 1, 4, 0, 7, c.choose(2, "other")); }, 3});
    f.push_back({"latch two statements", [](mc::Ctx &c) { latch(c, 2, 4, 0, c.thorough ? 4 : 3, 0); }, 3});
    f.push_back({"latch three statements", [](mc::Ctx &c) { latch(c, 3, 2, 0, 3, 0); }, 3});
    f.push_back({"latch nested", [](mc::Ctx &c) { latch(c, 1, c.thorough ? 3 : 2, 1, 3, 0); }, 3});
    f.push_back({"latch nested then another", [](mc::Ctx &c) { latch(c, 2, 2, 1, 3, 0); }, 3});
    f.push_back({"reset", reset, 3});
    f.push_back({"loop of one", [](mc::Ctx &c) { std::vector<int> a; for (int i = 0; i < NFORM; i++) a.push_back(i); loops(c, 1, a); }, 3});
    f.push_back({"loop of two", [](mc::Ctx &c) { std::vector<int> a; for (int i = 0; i < NFORM; i++) a.push_back(i); loops(c, 2, a); }, 3});
    f.push_back({"loop of three", [](mc::Ctx &c) { loops(c, 3, c.thorough ? std::vector<int>{0, 3, 4, 5, 6, 9, 11, 13, 15, 16} : std::vector<int>{0, 4, 9, 11, 13, 15}); }, 4});
    f.push_back({"always_ff", always_ff, 3});
    f.push_back({"function return", [](mc::Ctx &c) { functions(c, c.thorough ? 3 : 2, 1); }, 3});
    f.push_back({"function return nested", [](mc::Ctx &c) { functions(c, c.thorough ? 2 : 1, 2); }, 3});
    f.push_back({"sensitivity", sensitivity, 3});
    f.push_back({"reset polarity", active_high, 3});
    f.push_back({"synthesis", synth, 3});
    return mc::run("C13", f, argc, argv, "model_checking",
                   {"assignments with an index that is only known at run time are taken to assign the whole variable by the latch check; a process that reads what it assigns itself is not judged by the loop check"});
}
