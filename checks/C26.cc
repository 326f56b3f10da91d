// C26: conditions and coverage say when a statement executes.
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include "debug.hh"
#include "dual.hh"
#include "fault.hh"
#include "sv.hh"
using namespace dual;
using kratos::constant;
using kratos::Stmt;
typedef std::shared_ptr<Stmt> SPtr;
namespace kratos { std::unordered_map<const Stmt *, std::string> compute_enable_condition(Generator *); }
struct Env { int a = 0, b = 0, c = 0, e = 0, s = 0; };   // 2, 3, 1, 2 (an enumeration) and 2 (signed) bits
static const int NP = 7, NT = 4;
static const char *PRED[] = {"c", "a", "a == 1", "!c", "b[1]", "c && a", "a > b[1:0]"};
static bool holds(int p, const Env &v) {
    switch (p) {
        case 0: return v.c;
        case 1: return v.a;
        case 2: return v.a == 1;
        case 3: return !v.c;
        case 4: return v.b >> 1 & 1;
        case 5: return v.c && v.a;
        default: return v.a > (v.b & 3);
    }
}
static const char *TARGET[] = {"a", "e", "b[2:1]", "signed s"};
static int target(int t, const Env &v) { return t == 0 ? v.a : t == 1 ? v.e : t == 2 ? v.b >> 1 : v.s; }
// the labels, in the order they are added
static const int LABEL[] = {2, 0, 3};
struct N {
    enum { Assign, If, Switch, For, Call } k = Assign;
    int pick = 0, labels = 0;
    bool dflt = false;
    std::vector<std::vector<N>> body;
    Stmt *k_stmt = nullptr;
    std::vector<Stmt *> blocks;
};
static std::string show(const std::vector<N> &b) {
    std::string t = "{";
    for (auto &n : b) {
        if (n.k == N::Assign) t += " x";
        else if (n.k == N::Call) t += std::string(" f(") + (n.pick ? "!c)" : "c)");
        else if (n.k == N::For) t += " for" + show(n.body[0]);
        else if (n.k == N::If) t += std::string(" if (") + PRED[n.pick] + ")" + show(n.body[0]) + (n.body.size() > 1 ? " else" + show(n.body[1]) : "");
        else {
            t += std::string(" case (") + TARGET[n.pick] + ")";
            for (int i = 0; i < n.labels; i++) t += " " + std::to_string(LABEL[i]) + ":" + show(n.body[i]);
            if (n.dflt) t += " default:" + show(n.body[n.labels]);
        }
    }
    return t + " }";
}
struct Kit {
    kratos::Context ctx;
    Generator *top = nullptr, *g = nullptr;
    kratos::Var *a, *b, *c, *e, *s, *clk, *o;
    std::shared_ptr<kratos::Enum> en;
    std::shared_ptr<kratos::FunctionStmtBlock> f;
    Stmt *fthen = nullptr, *felse = nullptr;
    std::vector<kratos::Port *> all;
    int line = 0, n = 0;
    template <class T> T tag(T s) { s->fn_name_ln.emplace_back(std::string("/src/design.py"), (uint32_t)++line); return s; }
    kratos::Var *port(Generator &h, const char *nm, int w, bool sg = false, PortType t = PortType::Data) { return &h.port(PortDirection::In, nm, w, 1, t, sg); }
    void make(bool child) {
        top = &ctx.generator("mod");
        g = child ? &ctx.generator("inner") : top;
        en = ctx.enum_("E", {{"A", 0}, {"B", 1}, {"C", 2}, {"D", 3}}, 2).shared_from_this();
        auto build = [&](Generator &h) {
            a = port(h, "a", 2), b = port(h, "b", 3), c = port(h, "c", 1), s = port(h, "s", 2, true), clk = port(h, "clk", 1, false, PortType::Clock);
            e = &h.port(PortDirection::In, "e", en);
            o = &h.port(PortDirection::Out, "o", 8);
        };
        if (child) {
            build(*top);
            std::map<std::string, kratos::Var *> m = {{"a", a}, {"b", b}, {"c", c}, {"s", s}, {"clk", clk}, {"e", e}};
            auto *oo = o;
            build(*g);
            top->add_child_generator("inst", g->shared_from_this());
            for (auto &[n2, v] : m) top->wire(*g->get_port(n2), *v);
            top->wire(*oo, *o);
        } else build(*g);
        top->debug = g->debug = true;
    }
    void fn() {
        if (f) return;
        f = g->function("f");
        auto &x = *f->input("x", 1, false);
        auto i = tag(std::make_shared<kratos::IfStmt>(x));
        i->add_then_stmt(o->assign(constant(1, 8)));
        i->add_else_stmt(o->assign(constant(2, 8)));
        tag(i->then_body()), tag(i->else_body());
        fthen = i->then_body().get(), felse = i->else_body().get();
        f->add_stmt(i);
    }
    std::shared_ptr<kratos::Var> pred(int p) {
        switch (p) {
            case 0: return c->shared_from_this();
            case 1: return a->shared_from_this();
            case 2: return a->eq(constant(1, 2)).shared_from_this();
            case 3: return c->r_not().shared_from_this();
            case 4: return (*b)[1].shared_from_this();
            case 5: return ((*c) && (*a)).shared_from_this();
            default: return ((*a) > (*b)[std::make_pair(1u, 0u)]).shared_from_this();
        }
    }
    SPtr stmt(N &n2) {
        SPtr r;
        switch (n2.k) {
            case N::Assign: r = o->assign(constant(n++ & 255, 8)); break;
            case N::Call: {
                fn();
                auto arg = n2.pick ? (~*c).shared_from_this() : c->shared_from_this();
                r = std::make_shared<kratos::FunctionCallStmt>(f, std::map<std::string, std::shared_ptr<kratos::Var>>{{"x", arg}});
                break;
            }
            case N::For: {
                auto x = std::make_shared<kratos::ForStmt>("i", 0, 2, 1);
                for (auto &s2 : n2.body[0]) x->add_stmt(stmt(s2));
                tag(x->get_loop_body());
                n2.blocks = {x->get_loop_body().get()};
                r = x;
                break;
            }
            case N::If: {
                auto x = std::make_shared<kratos::IfStmt>(pred(n2.pick));
                tag(x->then_body());
                for (auto &s2 : n2.body[0]) x->add_then_stmt(stmt(s2));
                tag(x->else_body());
                if (n2.body.size() > 1) for (auto &s2 : n2.body[1]) x->add_else_stmt(stmt(s2));
                n2.blocks = {x->then_body().get(), x->else_body().get()};
                r = x;
                break;
            }
            case N::Switch: {
                auto t = n2.pick == 0 ? a->shared_from_this() : n2.pick == 1 ? e->shared_from_this() : n2.pick == 2 ? (*b)[std::make_pair(2u, 1u)].shared_from_this() : s->shared_from_this();
                auto x = std::make_shared<kratos::SwitchStmt>(t);
                for (int i = 0; i <= n2.labels; i++) {
                    if (i == n2.labels && !n2.dflt) break;
                    std::shared_ptr<kratos::Const> l;
                    if (i < n2.labels) {
                        static const char *NAME[] = {"A", "B", "C", "D"};
                        int v = LABEL[i];
                        l = n2.pick == 1 ? std::static_pointer_cast<kratos::Const>(en->get_enum(NAME[v])) : constant(n2.pick == 3 && v > 1 ? v - 4 : v, 2, n2.pick == 3).as<kratos::Const>();
                    }
                    for (auto &s2 : n2.body[i]) x->add_switch_case(l, stmt(s2));
                    auto &blk = x->body().at(l);
                    tag(blk);
                    n2.blocks.push_back(blk.get());
                }
                r = x;
                break;
            }
        }
        tag(r);
        n2.k_stmt = r.get();
        return r;
    }
    void put(std::vector<N> &b2, bool clocked) {
        if (clocked) {
            auto x = g->sequential();
            x->add_condition({kratos::EventEdgeType::Posedge, clk->shared_from_this()});
            for (auto &s2 : b2) x->add_stmt(stmt(s2));
        } else {
            auto x = g->combinational();
            for (auto &s2 : b2) x->add_stmt(stmt(s2));
        }
    }
};
// the statements and blocks that execute
struct Run { std::set<const Stmt *> stmts, blocks; Stmt *fthen, *felse; };
static void exec(const std::vector<N> &b, const Env &v, Run &r) {
    for (auto &n : b) {
        r.stmts.insert(n.k_stmt);
        if (n.k == N::Call) r.blocks.insert((n.pick ? !v.c : v.c) ? r.fthen : r.felse);
        if (n.k == N::For) { r.blocks.insert(n.blocks[0]); exec(n.body[0], v, r); }
        if (n.k == N::If) {
            int w = holds(n.pick, v) ? 0 : 1;
            r.blocks.insert(n.blocks[w]);
            if (w < (int)n.body.size()) exec(n.body[w], v, r);
        }
        if (n.k == N::Switch) {
            int w = -1, t = target(n.pick, v);
            for (int i = 0; i < n.labels; i++) if (LABEL[i] == t) w = i;
            if (w < 0 && n.dflt) w = n.labels;
            if (w >= 0) { r.blocks.insert(n.blocks[w]); exec(n.body[w], v, r); }
        }
    }
}
static void collect(const std::vector<N> &b, std::vector<std::pair<const N *, bool>> &all, bool top = true) {
    for (auto &n : b) { all.push_back({&n, top}); for (auto &x : n.body) collect(x, all, false); }
}
static std::vector<Env> envs(const std::string &used) {
    std::vector<Env> r;
    auto has = [&](const char *x) { return used.find(x) != std::string::npos; };
    for (int a = 0; a < 4; a++) for (int b = 0; b < 8; b++) for (int c = 0; c < 2; c++) for (int e = 0; e < 4; e++) for (int s = 0; s < 4; s++) {
        if ((b && !has("b[")) || (s && !has("signed")) || (e && !has("(e)")) || (c && !has("c"))) continue;
        r.push_back({a, b, c, e, s});
    }
    return r;
}
static std::string at(const Env &v) { return "a=" + std::to_string(v.a) + " b=" + std::to_string(v.b) + " c=" + std::to_string(v.c) + " e=" + std::to_string(v.e) + " s=" + std::to_string(v.s); }
// ---- trees
struct Shape { int preds, targets; bool loops, calls; };
static N leaf() { return N(); }
static N tree(mc::Ctx &c, int depth, const Shape &sh, int &budget);
static std::vector<N> body(mc::Ctx &c, int depth, const Shape &sh, int &budget) {
    if (depth == 0 || budget <= 0) return {leaf()};
    int k = c.choose(3, "body");
    if (k == 0) return {leaf()};
    budget--;
    auto t = tree(c, depth - 1, sh, budget);
    if (k == 1) return {leaf(), t};
    return {t, leaf()};
}
static N tree(mc::Ctx &c, int depth, const Shape &sh, int &budget) {
    N n;
    int kinds = 6 + sh.loops + sh.calls, k = c.choose(kinds, "statement");
    if (k >= 6) {
        if (k == 6 && sh.loops) { n.k = N::For; n.body = {body(c, depth, sh, budget)}; }
        else { n.k = N::Call; n.pick = c.choose(2, "argument"); }
        return n;
    }
    if (k < 2) {
        n.k = N::If;
        n.pick = c.choose(sh.preds, "predicate");
        n.body = {body(c, depth, sh, budget)};
        if (k) n.body.push_back(body(c, depth, sh, budget));
        return n;
    }
    static const int L[] = {1, 2, 2, 0}, D[] = {1, 0, 1, 1};
    n.k = N::Switch;
    n.labels = L[k - 2], n.dflt = D[k - 2];
    if (c.thorough && n.labels == 2) n.labels += c.choose(2, "third label");
    n.pick = c.choose(sh.targets, "target");
    for (int i = 0; i < n.labels + n.dflt; i++) n.body.push_back(body(c, depth, sh, budget));
    return n;
}
static void conditions(mc::Ctx &c, std::vector<N> &b, bool clocked, bool child, const std::string &key) {
    Kit k;
    std::string t = show(b);
    k.make(child);
    k.put(b, clocked);
    kratos::fix_assignment_type(k.top);
    std::unordered_map<const Stmt *, std::string> got;
    accepted(c, key + ":refused", t, [&] { got = kratos::compute_enable_condition(k.top); });
    std::vector<std::pair<const N *, bool>> all;
    collect(b, all);
    std::string src = "typedef enum logic[1:0] {A = 2'h0, B = 2'h1, C = 2'h2, D = 2'h3} E;\nmodule conds(input logic [1:0] a, input logic [2:0] b, input logic c, input logic [1:0] e, input logic signed [1:0] s";
    std::string tail, list;
    for (size_t i = 0; i < all.size(); i++) {
        auto it = got.find(all[i].first->k_stmt);
        std::string cond = it == got.end() ? "1'h1" : it->second;
        src += ", output logic o" + std::to_string(i);
        tail += "assign o" + std::to_string(i) + " = (" + cond + ") ? 1'h1 : 1'h0;\n";
        list += std::to_string(i) + ": " + (it == got.end() ? "none" : cond) + "\n";
    }
    src += ");\n" + tail + "endmodule\n";
    std::string head = t + (clocked ? " (clocked)" : "") + (child ? " in an instance\n" : "\n") + list;
    if (c.replaying) c.log += head;
    rtl::Design d;
    try { d = sv::elaborate(sv::parse1(src), "conds"); }
    catch (rtl::Unsupported &) { throw; }
    catch (std::exception &e) { c.fail(key + ":not an expression", head + "a condition cannot be read: " + e.what()); }
    if (!d.lint.empty()) c.fail(key + ":not an expression", head + "a condition cannot be read: " + d.lint[0]);
    rtl::Sim sim(d);
    uint64_t h = 0;
    for (auto &v : envs(t)) {
        Run r;
        r.fthen = k.fthen, r.felse = k.felse;
        exec(b, v, r);
        sim.init(0, {{d.find("a"), (rtl::u128)v.a}, {d.find("b"), (rtl::u128)v.b}, {d.find("c"), (rtl::u128)v.c}, {d.find("e"), (rtl::u128)v.e}, {d.find("s"), (rtl::u128)v.s}});
        sim.settle();
        c.states(1);
        for (size_t i = 0; i < all.size(); i++) {
            bool on = sim.get(d.find("o" + std::to_string(i))) != 0, want = r.stmts.count(all[i].first->k_stmt) != 0;
            c.trans(1);
            h = h * 2 + on;
            if (on != want) c.fail(key, head + "with " + at(v) + " statement " + std::to_string(i) + (want ? " executes but its condition does not hold" : " does not execute but its condition holds"));
        }
    }
    c.outcome(h);
}
// what the runs covered
static kratos::Generator *G(Kit &k) { return k.top; }
static std::map<std::string, int64_t> state(const Env &v, bool child) {
    std::string p = child ? "mod.inst." : "mod.";
    return {{p + "a", v.a}, {p + "b", v.b}, {p + "c", v.c}, {p + "e", v.e}};
}
static std::string names(const std::vector<std::pair<const N *, bool>> &all, Kit &k, const std::set<const Stmt *> &s) {
    std::string t;
    for (size_t i = 0; i < all.size(); i++) for (size_t j = 0; j < all[i].first->blocks.size(); j++) if (s.count(all[i].first->blocks[j])) t += " " + std::to_string(i) + "." + std::to_string(j);
    if (s.count(k.fthen)) t += " f.0";
    if (s.count(k.felse)) t += " f.1";
    return t;
}
static std::set<const Stmt *> scoped(const std::unordered_set<Stmt *> &s) { std::set<const Stmt *> r; for (auto *x : s) r.insert(x); r.erase(nullptr); return r; }
static void coverage(mc::Ctx &c, std::vector<N> &b, bool clocked, bool child, const std::string &key) {
    Kit k;
    std::string t = show(b);
    k.make(child);
    k.put(b, clocked);
    std::vector<std::pair<const N *, bool>> all;
    collect(b, all);
    std::set<const Stmt *> every;
    for (auto &[n, x] : all) for (auto *y : n->blocks) every.insert(y);
    auto vs = envs(t);
    std::string head = t + (clocked ? " (clocked)" : "") + (child ? " in an instance" : "") + "\n";
    uint64_t h = 0;
    auto run1 = [&](const std::vector<Env> &hist) {
        Run r;
        r.fthen = k.fthen, r.felse = k.felse;
        std::string when;
        auto run = std::make_shared<kratos::SimulationRun>(G(k));
        for (auto &v : hist) { run->add_simulation_state(state(v, child)); exec(b, v, r); when += at(v) + "; "; }
        kratos::FaultAnalyzer f(G(k));
        f.add_simulation_run(run);
        std::unordered_set<Stmt *> got;
        accepted(c, key + ":refused", head, [&] { got = f.compute_coverage(0); });
        auto have = scoped(got);
        c.states(1);
        c.trans(hist.size());
        h = h * 31 + have.size();
        if (have != r.blocks) c.fail(key, head + "after " + when + "covered are" + names(all, k, have) + " instead of" + names(all, k, r.blocks));
    };
    for (auto &v : vs) run1({v});
    if (vs.size() <= 8) for (auto &v : vs) for (auto &w : vs) run1({v, w});
    else run1(vs);
    c.outcome(h);
}
static void chosen(mc::Ctx &c, std::vector<N> &b, bool &clocked, bool &child, bool cov) {
    clocked = c.flip("clocked"), child = c.flip("in an instance");
    Shape sh{NP, cov ? NT - 1 : NT, true, cov};
    int budget = c.thorough ? 2 : 1;
    b = {tree(c, c.thorough ? 2 : 1, sh, budget)};
    if (c.flip("something before")) b.insert(b.begin(), leaf());
}
static void conditions1(mc::Ctx &c) { std::vector<N> b; bool q, i; chosen(c, b, q, i, false); conditions(c, b, q, i, "condition"); }
static void coverage1(mc::Ctx &c) { std::vector<N> b; bool q, i; chosen(c, b, q, i, true); coverage(c, b, q, i, "coverage"); }
// three levels on one path
static std::vector<N> path(mc::Ctx &c, int depth, int targets) {
    if (depth == 0) return {leaf()};
    N n;
    int k = c.choose(4 + 3, "step");
    auto in = path(c, depth - 1, targets);
    auto P = [&](int base) { return base % 2 ? 1 + depth : depth - 1; };
    if (k < 4) { n.k = N::If; n.pick = P(k); if (k & 2) n.body = {{leaf()}, in}; else if (k & 1) n.body = {in, {leaf()}}; else n.body = {in}; }
    else { n.k = N::Switch; n.labels = 2; n.dflt = true; n.pick = depth % targets; n.body = {{leaf()}, {leaf()}, {leaf()}}; n.body[k - 4] = in; }
    return {leaf(), n, leaf()};
}
static void deep_conditions(mc::Ctx &c) { auto b = path(c, c.thorough ? 5 : 3, NT); conditions(c, b, c.flip("clocked"), c.flip("in an instance"), "condition"); }
static void deep_coverage(mc::Ctx &c) { auto b = path(c, c.thorough ? 5 : 3, NT - 1); coverage(c, b, c.flip("clocked"), c.flip("in an instance"), "coverage"); }
// what is covered when a value is wrong and never otherwise
static void faults(mc::Ctx &c) {
    Shape sh{2, 1, false, false};
    int budget = 1;
    Kit k;
    std::vector<N> b = {tree(c, 1, sh, budget)};
    std::string t = show(b);
    auto vs = envs(t);
    if (vs.size() > 6) { for (size_t i = 0; i < 6; i++) vs[i] = vs[i * (vs.size() - 1) / 5]; vs.resize(6); }
    int runs = 2 + c.choose(2, "runs");
    k.make(false);
    k.put(b, true);
    std::vector<std::pair<const N *, bool>> all;
    collect(b, all);
    bool asked = c.flip("coverage asked for before");
    kratos::FaultAnalyzer f(k.top);
    std::set<const Stmt *> right, wrong, want;
    std::string when;
    for (int i = 0; i < runs; i++) {
        auto run = std::make_shared<kratos::SimulationRun>(k.top);
        Run r;
        r.fthen = k.fthen, r.felse = k.felse;
        int w = c.choose(i == 2 ? 2 : (int)vs.size(), "state");
        if (i == 2) w = w ? (int)vs.size() - 1 : 1 % (int)vs.size();
        auto &v = vs[w];
        run->add_simulation_state(state(v, false));
        exec(b, v, r);
        bool bad = c.flip("wrong value");
        if (bad) run->mark_wrong_value("mod.o");
        if (run->has_wrong_value() != bad) c.fail("wrong value", t + "\na wrong value is not noticed");
        (bad ? wrong : right).insert(r.blocks.begin(), r.blocks.end());
        when += at(v) + (bad ? " wrong; " : "; ");
        f.add_simulation_run(run);
        if (asked && i == 0) f.compute_coverage(0);
    }
    for (auto *x : wrong) if (!right.count(x)) want.insert(x);
    auto got = scoped(f.compute_fault_stmts_from_coverage());
    c.states(1);
    c.trans(runs);
    c.outcome(want.size());
    if (got != want) c.fail("fault", t + "\nafter " + when + "blamed are" + names(all, k, got) + " instead of" + names(all, k, want));
}
// coverage read from the files of other tools, and written for others
static void files(mc::Ctx &c) {
    bool icc = c.flip("the second format");
    int pick = c.choose(6, "design");
    Kit k;
    N s1, s2;
    s1.k = N::If; s1.pick = 2; s1.body = {{leaf()}, {leaf(), leaf()}};
    s2.k = N::Switch; s2.pick = 0; s2.labels = 2; s2.dflt = true; s2.body = {{leaf()}, {leaf()}, {leaf()}};
    std::vector<N> b;
    switch (pick) {
        case 0: b = {s1}; break;
        case 1: b = {leaf(), s2}; break;
        case 2: b = {s1, s2}; break;
        case 3: s1.body[0].push_back(s2); b = {s1}; break;
        case 4: s2.body[2] = {leaf(), s1}; b = {s2}; break;
        default: s1.body[1].insert(s1.body[1].begin(), s2); b = {s1}; break;
    }
    bool clocked = c.flip("clocked");
    k.make(false);
    k.put(b, clocked);
    kratos::fix_assignment_type(k.top);
    kratos::generate_verilog(k.top);
    k.top->verilog_fn = "out/mod.sv";
    std::vector<std::pair<const N *, bool>> all;
    collect(b, all);
    std::vector<Stmt *> blocks;
    for (auto &[n, x] : all) for (auto *y : n->blocks) blocks.push_back(y);
    int mask = c.choose(1 << blocks.size(), "blocks covered");
    bool zero = c.flip("the others listed with no hits"), runs = c.flip("two runs");
    std::string dir = "/tmp/c26_" + std::to_string(getpid()), fn = dir + "_cov", text;
    auto line = [&](size_t i, int hits) {
        int ln = (int)blocks[i]->verilog_ln;
        if (icc) text += "  " + std::to_string(hits) + "          " + std::to_string(i + 1) + "      " + std::to_string(ln) + "      " + (i & 1 ? "false part of" : "true part of") + "    " + std::to_string(ln) + "      o <= 8'h" + std::to_string(i) + ";\n";
        else text += std::string("C '\x01") + "f\x02" + "/some/where/mod.sv\x01" "l\x02" + std::to_string(ln) + "\x01" "n\x02" "3\x01" "page\x02" "v_line/mod\x01" "o\x02" "if\x01" "h\x02" "TOP.mod' " + std::to_string(hits) + "\n";
    };
    if (icc) text = "\nFile name: /some/where/mod.sv\n\nCount  Block Line Kind          Origin Source Code\n------------------------------------\n";
    else text = "# SystemC::Coverage-3\n";
    std::set<const Stmt *> want;
    for (size_t i = 0; i < blocks.size(); i++) {
        if (mask >> i & 1) { line(i, (int)i + 1); want.insert(blocks[i]); }
        else if (zero) line(i, 0);
    }
    text += "\n";
    { std::ofstream f(fn); f << text; }
    std::string head = show(b) + (icc ? " icc" : " verilator") + "\n" + text;
    std::unordered_map<Stmt *, uint32_t> got;
    try { got = icc ? kratos::parse_icc_coverage(k.top, fn) : kratos::parse_verilator_coverage(k.top, fn); }
    catch (std::exception &e) { unlink(fn.c_str()); c.fail("file:refused", head + e.what()); }
    unlink(fn.c_str());
    std::set<const Stmt *> have;
    for (auto &[s, n] : got) {
        have.insert(s);
        for (size_t i = 0; i < blocks.size(); i++) if (blocks[i] == s && n != i + 1) c.fail("file count", head + "block " + std::to_string(i) + " has the count " + std::to_string(n));
    }
    if (have != want) c.fail("file", head + "covered are" + names(all, k, have) + " instead of" + names(all, k, want));
    kratos::FaultAnalyzer f(k.top);
    for (int i = 0; i <= runs; i++) {
        auto run = std::make_shared<kratos::SimulationRun>(k.top);
        run->add_simulation_coverage(got);
        f.add_simulation_run(run);
        if (!got.empty() && scoped(f.compute_coverage(i)) != want) c.fail("file coverage", head + "the coverage of a run is not what was read");
        if (got.empty()) c.skip();
    }
    std::stringstream xml;
    f.output_coverage_xml(xml);
    std::string x = xml.str();
    // every line once, with its hits
    std::map<uint32_t, uint32_t> lines;
    int stmts = 0, cov = 0, hitb = 0;
    std::function<void(const std::vector<N> &, bool, bool)> walk = [&](const std::vector<N> &bb, bool in, bool on) {
        for (auto &n : bb) {
            if (n.k == N::Assign && in) { lines[n.k_stmt->fn_name_ln.front().second] = on ? runs + 1 : 0; stmts++; cov += on; }
            for (size_t i = 0; i < n.body.size(); i++) {
                bool h = want.count(n.blocks[i]) != 0;
                lines[n.blocks[i]->fn_name_ln.front().second] = h ? runs + 1 : 0;
                hitb += h;
                walk(n.body[i], true, h);
            }
        }
    };
    walk(b, false, true);
    std::map<uint32_t, uint32_t> have2;
    std::istringstream is(x);
    for (std::string l; std::getline(is, l);) {
        auto p = l.find("<line number=\""), q = l.find("hits=\"");
        if (p == std::string::npos || q == std::string::npos) continue;
        have2[std::stoi(l.substr(p + 14))] = std::stoi(l.substr(q + 6));
    }
    if (have2 != lines) c.fail("report lines", head + x);
    auto attr = [&](const std::string &n, int v) { if (x.find(" " + n + "=\"" + std::to_string(v) + "\"") == std::string::npos) c.fail("report totals", head + n + " should be " + std::to_string(v) + "\n" + x); };
    attr("lines-valid", stmts), attr("lines-covered", cov), attr("branches-valid", (int)blocks.size()), attr("branches-covered", hitb);
    c.states(1);
    c.trans(1);
    c.outcome(mc::hash_str(std::to_string(mask)));
}
int main(int argc, char **argv) {
    std::cerr.rdbuf(nullptr);
    std::vector<mc::Family> fams = {{"conditions", conditions1, -1}, {"deep conditions", deep_conditions, -1}, {"coverage", coverage1, -1}, {"deep coverage", deep_coverage, -1}, {"faults", faults, -1}, {"files", files, -1}};
    return mc::run("C26", fams, argc, argv, "model_checking",
                   {"conditions are read as SystemVerilog and compared with the executions under every value of the controlling signals",
                    "coverage from simulation states lists the conditional blocks entered; controlling values are those of the states"});
}
