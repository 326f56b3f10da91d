// C16: parallel traversals are exact, ordered and free of data races.
// trace-tasks
#include <iostream>
#include <numeric>
#include "dual.hh"
#include "cxxpool.h"
#include "event.hh"
#include "formal.hh"
#include "graph.hh"
#include "hash.hh"
#include "jobs.hh"
#include "race/race.hh"
using namespace kratos;
// runs the tasks of a pool when the first result is asked for, in an order the explorer chooses
struct TaskHook : mc_pool::Hook {
    mc::Ctx &c;
    bool permute, trace;
    int max_perm = 4, rev = -1;
    std::vector<mc_pool::Task> q;
    bool open = false, live = false;
    std::set<size_t> workers;
    std::vector<race::Conflict> found;
    uint64_t epochs = 0, tasks = 0, orders = 0;
    TaskHook(mc::Ctx &c, bool permute, bool trace) : c(c), permute(permute), trace(trace) { mc_pool::hook() = this; }
    ~TaskHook() override { mc_pool::hook() = nullptr; if (open) race::end_epoch(); }
    void created(size_t n) override { workers.insert(n); live = true; }
    void pushing() override {
        if (!trace) return;
        race::end_task();
        if (!open) { race::begin_epoch(); open = true; }
    }
    void pushed(mc_pool::Task t) override {
        q.push_back(std::move(t));
        if (trace) race::begin_main((int)q.size());
    }
    void finished() override { if (trace) race::end_task(); }
    void wait_all() override {
        if (trace) race::end_task();
        if (q.empty()) return;
        int n = (int)q.size();
        std::vector<int> left(n), order;
        std::iota(left.begin(), left.end(), 0);
        if (permute && n <= max_perm) {
            while (left.size() > 1) { int k = c.choose((int)left.size(), "next task"); order.push_back(left[k]); left.erase(left.begin() + k); }
        } else if (permute && n > 1) { if (rev < 0) rev = c.flip("last task first"); if (rev) std::reverse(left.begin(), left.end()); }
        for (int k : left) order.push_back(k);
        auto now = std::move(q);
        q.clear();
        for (int k : order) {
            if (trace) race::begin_task(k + 1);
            now[k]();
            if (trace) race::end_task();
        }
        epochs++; tasks += n; orders++;
        if (trace) {
            auto r = race::end_epoch();
            open = false;
            found.insert(found.end(), r.begin(), r.end());
        }
    }
    void destroyed() override { live = false; }
};
static std::string describe(const race::Conflict &r) {
    return std::string("one task ") + (r.write_a ? "writes" : "reads") + " in " + r.a + ", another " + (r.write_b ? "writes" : "reads") + " the same memory in " + r.b;
}
static void no_race(mc::Ctx &c, TaskHook &p, const std::string &key, const std::string &what) {
    c.states(p.tasks); c.trans(p.epochs);
    c.count("tasks", p.tasks); c.count("epochs", p.epochs);
    if (p.found.empty()) return;
    std::string m;
    for (size_t i = 0; i < p.found.size() && i < 12; i++) m += describe(p.found[i]) + "\n";
    c.fail(key + ":race", what + ": tasks that may run at the same time are not synchronised\n" + m);
}
// ---- hierarchies
struct Log : IRVisitor {
    std::map<IRNode *, int> seen;
    std::vector<std::pair<Generator *, uint32_t>> order;
    void visit(Generator *g) override { seen[g]++; order.emplace_back(g, level); }
    void visit(AssignStmt *s) override { seen[s]++; }
    void visit(IfStmt *s) override { seen[s]++; }
    void visit(CombinationalStmtBlock *s) override { seen[s]++; }
};
struct Tree { Context ctx; std::vector<Generator *> g; std::vector<int> par, depth; };
static void tree(Tree &t, const std::vector<int> &par) {
    t.par = par;
    for (size_t i = 0; i < par.size(); i++) {
        auto &m = t.ctx.generator("m" + std::to_string(i));
        t.g.push_back(&m);
        t.depth.push_back(i ? t.depth[par[i]] + 1 : 0);
        if (i) t.g[par[i]]->add_child_generator("i" + std::to_string(i), m.shared_from_this());
        auto &x = m.port(PortDirection::In, "x", 1);
        auto &y = m.port(PortDirection::Out, "y", 1);
        auto s = m.combinational();
        auto f = std::make_shared<IfStmt>(x.shared_from_this());
        f->add_then_stmt(y.assign(constant(1, 1)));
        f->add_else_stmt(y.assign(constant(0, 1)));
        s->add_stmt(f);
    }
}
static std::string parents(const std::vector<int> &p) { std::string r = "parents"; for (int x : p) r += " " + std::to_string(x); return r; }
static void visits(mc::Ctx &c, const std::vector<int> &par, int how, int cpus, int special, bool permute, bool trace) {
    Tree t;
    tree(t, par);
    int n = (int)par.size();
    if (special == 1) t.g[n - 1]->set_external(true);
    if (special == 2) {
        auto k = t.g[n - 1]->clone();
        k->instance_name = "clone";
        t.g[std::max(0, par[n - 1])]->add_child_generator("clone", k);
        t.g.push_back(k.get()); t.par.push_back(par[n - 1]); t.depth.push_back(t.depth[n - 1]);
        n++;
    }
    static const char *hows[] = {"visit_generator_root_p", "visit_generator_root_tp", "visit_root_tp"};
    std::string what = std::string(hows[how]) + " over " + std::to_string(n) + " generators (" + parents(par) + "), " + std::to_string(cpus) + " workers, special " + std::to_string(special);
    std::string key = "visit:" + std::string(hows[how]) + ":" + (n > 12 ? "large" : parents(par)) + ":" + std::to_string(special);
    set_num_cpus(cpus);
    TaskHook p(c, permute, false);     // the visitor of the harness logs without locks
    (void)trace;
    if (n > 8) p.max_perm = 0;
    Log v;
    if (how == 0) v.visit_generator_root_p(t.g[0]);
    else if (how == 1) v.visit_generator_root_tp(t.g[0]);
    else v.visit_root_tp(t.g[0]);
    c.states(p.tasks); c.trans(p.epochs); c.trace();
    for (size_t w : p.workers) if (w < 1) c.fail(key + ":workers", what + ": a pool without any worker never finishes");
    for (int i = 0; i < n; i++) {
        bool quiet = how == 2 && (t.g[i]->external() || t.g[i]->is_cloned());
        int got = v.seen.count(t.g[i]) ? v.seen[t.g[i]] : 0;
        if (got != (quiet ? 0 : 1)) c.fail(key + ":count", what + ": generator " + std::to_string(i) + " is visited " + std::to_string(got) + " times");
        if (how != 2 || quiet) continue;
        // every statement of it, once
        auto s = t.g[i]->get_stmt(0);
        auto f = s->as<StmtBlock>()->get_stmt(0)->as<IfStmt>();
        for (IRNode *x : {(IRNode *)s.get(), (IRNode *)f.get(), (IRNode *)f->then_body()->get_stmt(0).get(), (IRNode *)f->else_body()->get_stmt(0).get()})
            if (v.seen[x] != 1) c.fail(key + ":statement", what + ": a statement of generator " + std::to_string(i) + " is visited " + std::to_string(v.seen[x]) + " times");
    }
    if ((int)v.order.size() != n - (how == 2 && special ? 1 : 0)) c.fail(key + ":count", what + ": " + std::to_string(v.order.size()) + " visits");
    if (how == 0) {
        // children before parents, and the level is the depth
        uint32_t last = 1u << 30;
        for (auto &[g, l] : v.order) {
            int i = (int)(std::find(t.g.begin(), t.g.end(), g) - t.g.begin());
            if (l != (uint32_t)t.depth[i]) c.fail(key + ":level", what + ": generator " + std::to_string(i) + " is visited at level " + std::to_string(l) + " instead of " + std::to_string(t.depth[i]));
            if (l > last) c.fail(key + ":order", what + ": a generator is visited after its parents' level has begun");
            last = l;
        }
    }
    std::string o;
    for (auto &[g, l] : v.order) o += g->name + " ";
    c.outcome(mc::hash_str(o));
}
int main(int argc, char **argv) {
    std::cerr.rdbuf(nullptr);
    std::vector<mc::Family> f;
    f.push_back({"small", [](mc::Ctx &c) {
        int n = 1 + c.choose(c.thorough ? 6 : 5, "generators");
        std::vector<int> par{-1};
        for (int i = 1; i < n; i++) par.push_back(c.choose(i, "parent"));
        int how = c.choose(3, "traversal"), cpus = c.choose(3, "workers"), special = c.choose(3, "last one");
        if (special == 2 && n == 1) c.skip();
        visits(c, par, how, cpus == 2 ? 7 : cpus, special, how == 0 || n < 4, false);
    }, 3});
    f.push_back({"large", [](mc::Ctx &c) {
        int n = 1 + c.choose(c.thorough ? 200 : 100, "generators"), shape = c.choose(5, "shape"), how = c.choose(3, "traversal");
        std::vector<int> par{-1};
        for (int i = 1; i < n; i++) par.push_back(shape == 0 ? 0 : shape == 1 ? i - 1 : shape == 2 ? (i - 1) / 2 : shape == 3 ? (i % 2 ? std::max(0, i - 2) : i - 1) : (i - 1) / 7);
        visits(c, par, how, 4, 0, true, false);
    }, 2});
    static const auto J = jobs();
    auto run = [](mc::Ctx &c, const Job &j, const std::vector<int> &kinds, int shape) {
        std::string what = j.name + " on a design with", key = "pass:" + j.name;
        for (int k : kinds) what += std::string(" ") + kitchen::kind_name[k];
        what += ", shape " + std::to_string(shape);
        std::string want;
        {
            kitchen::Design d;
            design(d, kinds, shape);
            if (!prepare(j, *d.top)) c.skip();
            want = outcome(j, *d.top);
        }
        set_num_cpus(4);
        kitchen::Design d;
        design(d, kinds, shape);
        prepare(j, *d.top);
        std::string got;
        {
            TaskHook p(c, true, true);
            if (shape == 3 && !c.thorough) p.max_perm = 3;
            got = outcome(j, *d.top);
            c.trace();
            no_race(c, p, key, what);
        }
        if (got != want) c.fail(key + ":result", what + ": the result depends on the order the tasks run in\n" + want + "\nin order, and in another order\n" + got);
        c.outcome(mc::hash_str(got));
    };
    f.push_back({"pairs", [run](mc::Ctx &c) {
        const Job &j = c.pick(J, "pass");
        int a = c.choose(kitchen::KINDS, "first"), b = c.choose(kitchen::KINDS, "second"), shape = c.choose(3, "shape");
        if (b < a) c.skip();
        run(c, j, {a, b}, shape);
    }, 3});
    f.push_back({"deep", [run](mc::Ctx &c) {
        const Job &j = c.pick(J, "pass");
        int a = c.choose(kitchen::KINDS, "first"), st = 1 + c.choose(6, "step");
        run(c, j, {a, (a + st) % kitchen::KINDS, (a + 2 * st + 1) % kitchen::KINDS, (a + 3 * st + 1) % kitchen::KINDS}, 3);
    }, 3});
    f.push_back({"offenders", [run](mc::Ctx &c) {
        // several siblings break a rule: the same one is reported whatever the schedule
        static const std::vector<std::string> rules{"zero_out_stubs", "check_inferred_latch", "check_flip_flop_always_ff", "check_function_return", "realize_fsm", "verify_generator_connectivity", "check_mixed_assignment", "check_multiple_driver", "generate_verilog"};
        const std::string &rule = c.pick(rules, "rule");
        int n = 2 + c.choose(2, "siblings");
        auto build = [&](kitchen::Design &d) {
            using namespace kitchen;
            d.sh = shared(d.ctx);
            std::vector<Unit> us;
            for (int i = 0; i < n; i++) {
                Unit u = unit(d.ctx, d.sh, "m" + std::to_string(i), 11);
                auto &g = *u.g;
                auto &v = g.var("v", 4);
                if (rule == "zero_out_stubs") g.set_is_stub(true);
                else if (rule == "check_inferred_latch" || rule == "check_flip_flop_always_ff") {
                    auto s = g.combinational();
                    auto i1 = std::make_shared<IfStmt>(P(*u.e));
                    i1->add_then_stmt(v.assign(*u.a));
                    s->add_stmt(i1);
                    if (rule[6] == 'f') { auto q = g.sequential(); q->add_condition({EventEdgeType::Posedge, P(*u.clk)}); auto &w = g.var("w", 4); q->add_stmt(w.assign(*u.a)); q->add_condition({EventEdgeType::Posedge, P(*u.e)}); }
                } else if (rule == "check_function_return") {
                    auto fn = g.function("f"); auto x = fn->input("x", 1, false);
                    fn->create_function_handler(1, false); fn->set_has_return_value(true);
                    auto i1 = std::make_shared<IfStmt>(P(*x)); i1->add_then_stmt(fn->return_stmt(P(*x))); fn->add_stmt(i1);
                } else if (rule == "realize_fsm") { auto &m = g.fsm("Bad", P(*u.clk), P(*u.rst)); m.output(P(v)); auto s0 = m.add_state("S"); m.set_start_state(s0); }
                else { g.add_stmt(v.assign(*u.a)); g.add_stmt(v[{1, 0}].assign((*u.b)[{1, 0}])); auto s = g.sequential(); s->add_condition({EventEdgeType::Posedge, P(*u.clk)}); s->add_stmt(v[3].assign(*u.e)); s->add_stmt(v[2].assign(*u.e, AssignmentType::Blocking)); }
                us.push_back(u);
            }
            d.top = parent(d, "top", us, 0).g;
        };
        const Job *j = nullptr;
        for (auto &x : J) if (x.name == rule) j = &x;
        auto go = [&](Generator &t) { try { dual::run_passes(t, {"fix_assignment_type"}); } catch (std::exception &) {} return outcome(*j, t); };
        std::string want;
        { kitchen::Design d; try { build(d); } catch (std::exception &) { c.skip(); } want = go(*d.top); }
        kitchen::Design d;
        build(d);
        std::string got;
        { TaskHook p(c, true, true); got = go(*d.top); no_race(c, p, "offenders:" + rule, rule + " with " + std::to_string(n) + " offending siblings"); }
        c.trace();
        if (got != want) c.fail("offenders:" + rule, rule + ": what is reported depends on the schedule: " + dual::clip(want, 300) + "\nor\n" + dual::clip(got, 300));
        c.outcome(mc::hash_str(got));
    }, 2});
    return mc::run("C16", f, argc, argv, "model_checking",
        {"the thread pool is a stand-in that hands every task to the explorer; tasks run one at a time, in every order up to 4 tasks",
         "memory accesses of the library and of the standard library's templates are seen, those inside libstdc++.so, libfmt and libc are not",
         "without a conflict between concurrent tasks every interleaving of their steps equals one of the orders explored"});
}
