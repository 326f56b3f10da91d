// C11: who-drives-what bookkeeping stays exact under any sequence of edits.
// Every sequence of edits up to a depth, from several starting designs, is run on the real API. After every edit the
// design is walked, statement by statement, and what each variable reports is compared with what is there.
#include <iostream>
#include <set>

#include "except.hh"
#include "expr.hh"
#include "generator.hh"
#include "mc.hh"
#include "port.hh"
#include "stmt.hh"
#include "util.hh"
using namespace kratos;
typedef std::shared_ptr<Stmt> S;
typedef std::shared_ptr<AssignStmt> A;
[[noreturn]] static void FAIL(mc::Ctx &c, const std::string &key, const std::string &msg, const std::string &log) { c.fail(key, msg + " | " + log); }
struct Uses {
    std::map<Var *, std::set<const AssignStmt *>> src, snk;
    std::map<Var *, std::set<const Stmt *>> cond;      // conditions, targets and returned values
    std::vector<S> all;                                  // in walking order
    std::set<const Stmt *> present;
};
static Var *root(Var *v) {
    for (;;) {
        if (v->type() == VarType::Slice) v = v->as<VarSlice>()->parent_var;
        else if (v->type() == VarType::BaseCasted) v = v->as<VarCasted>()->parent_var();
        else return v;
    }
}
static void reads(Var *v, std::set<Var *> &out) {
    if (v->is_function()) {
        for (auto &[n, a] : v->as<FunctionCallVar>()->args()) reads(a.get(), out);
        return;
    }
    switch (v->type()) {
        case VarType::Base: case VarType::PortIO: out.insert(v); break;
        case VarType::Slice:
            reads(v->as<VarSlice>()->parent_var, out);
            if (v->as<VarSlice>()->sliced_by_var()) reads(v->as<VarVarSlice>()->sliced_var(), out);
            break;
        case VarType::BaseCasted: reads(v->as<VarCasted>()->parent_var(), out); break;
        case VarType::Expression: {
            auto e = v->as<Expr>();
            if (e->op == ExprOp::Concat) for (auto *x : e->as<VarConcat>()->vars()) reads(x, out);
            else if (e->op == ExprOp::Extend) reads(e->as<VarExtend>()->parent_var(), out);
            else {
                if (e->op == ExprOp::Conditional) reads(e->as<ConditionalExpr>()->condition, out);
                reads(e->left, out);
                if (e->right) reads(e->right, out);
            }
            break;
        }
        default: break;
    }
}
static void writes(Var *v, std::set<Var *> &out, std::set<Var *> &read) {
    if (v->type() == VarType::Expression && v->as<Expr>()->op == ExprOp::Concat) {
        for (auto *x : v->as<VarConcat>()->vars()) writes(x, out, read);
        return;
    }
    for (Var *p = v;;) {
        if (p->type() == VarType::Slice) {
            if (p->as<VarSlice>()->sliced_by_var()) reads(p->as<VarVarSlice>()->sliced_var(), read);
            p = p->as<VarSlice>()->parent_var;
        } else if (p->type() == VarType::BaseCasted) p = p->as<VarCasted>()->parent_var();
        else { out.insert(p); return; }
    }
}
static void walk(const S &s, Uses &u, const IRNode *parent, mc::Ctx &c, const std::string &key, const std::string &what) {
    u.all.push_back(s);
    if (!u.present.insert(s.get()).second) FAIL(c, key + ":twice", "a statement is in the design twice", what);
    if (s->parent() != parent) FAIL(c, key + ":parent", "a statement's parent is not where it is", what);
    switch (s->type()) {
        case StatementType::Assign: {
            auto a = s->as<AssignStmt>();
            std::set<Var *> w, r;
            reads(a->right(), r);
            writes(a->left(), w, r);
            for (auto *v : w) u.src[v].insert(a.get());
            for (auto *v : r) u.snk[v].insert(a.get());
            break;
        }
        case StatementType::Block: for (auto &x : *s->as<StmtBlock>()) walk(x, u, s.get(), c, key, what); break;
        case StatementType::If: {
            auto i = s->as<IfStmt>();
            std::set<Var *> r;
            reads(i->predicate().get(), r);
            for (auto *v : r) u.cond[v].insert(s.get());
            walk(i->then_body(), u, s.get(), c, key, what);
            walk(i->else_body(), u, s.get(), c, key, what);
            break;
        }
        case StatementType::Switch: {
            auto i = s->as<SwitchStmt>();
            std::set<Var *> r;
            reads(i->target().get(), r);
            for (auto *v : r) u.cond[v].insert(s.get());
            for (auto &[k, b] : i->body()) walk(b, u, s.get(), c, key, what);
            break;
        }
        case StatementType::For: walk(s->as<ForStmt>()->get_loop_body(), u, s.get(), c, key, what); break;
        case StatementType::Return: {
            std::set<Var *> r;
            reads(s->as<ReturnStmt>()->value().get(), r);
            for (auto *v : r) u.cond[v].insert(s.get());
            break;
        }
        default: break;
    }
}
struct World {
    Context ctx;
    Generator *g, *k1 = nullptr, *k2 = nullptr, *spare = nullptr;
    std::vector<std::shared_ptr<Var>> vars;   // four bits each, in the parent
    std::vector<std::shared_ptr<Var>> all;    // everything that is compared
    std::shared_ptr<Var> arr, idx;
    std::vector<S> removed;
    std::set<const Stmt *> detached;           // made by the harness and never put into the design
    std::string log;
    int names = 0;
    Generator &child(const std::string &n) {
        auto &k = ctx.generator(n);
        auto &x = k.port(PortDirection::In, "x", 4);
        auto &q = k.port(PortDirection::Out, "q", 4);
        auto &r = k.port(PortDirection::Out, "r", 4);
        k.add_stmt(q.assign(~x));
        // the child reads its own output
        k.add_stmt(r.assign(q + x));
        all.push_back(x.shared_from_this()); all.push_back(q.shared_from_this()); all.push_back(r.shared_from_this());
        return k;
    }
    World() {
        g = &ctx.generator("mod");
        for (auto n : {"a", "b", "d", "e"}) vars.push_back(g->var(n, 4).shared_from_this());
        vars.push_back(g->port(PortDirection::In, "i", 4).shared_from_this());
        vars.push_back(g->port(PortDirection::Out, "o", 4).shared_from_this());
        arr = g->var("arr", 4, 4).shared_from_this();
        idx = g->var("idx", 2).shared_from_this();
        all = vars;
        all.push_back(arr);
        all.push_back(idx);
    }
    Var &v(int n) { return *vars[n]; }
    // statements of every shape, over a, b, d, e, i, o
    static constexpr int NADD = 22;
    void add(int n) {
        auto &a = v(0), &b = v(1), &d = v(2), &e = v(3), &i = v(4), &o = v(5);
        auto comb = [&](const S &s) { auto c = g->combinational(); c->add_stmt(s); };
        switch (n) {
            case 0: g->add_stmt(a.assign(b)); break;
            case 1: g->add_stmt(a[{1, 0}].assign(b[{3, 2}])); break;
            case 2: g->add_stmt(d.assign(b + e)); break;
            case 3: g->add_stmt(o.assign(b[{1, 0}].concat(a[{3, 2}]))); break;
            case 4: g->add_stmt((*arr)[idx].assign(b)); break;
            case 5: g->add_stmt(d.assign((*arr)[idx])); break;
            case 6: g->add_stmt(a[{1, 0}].concat(d[{3, 2}]).assign(i)); break;
            case 7: { auto f = std::make_shared<IfStmt>(a.eq(b)); f->add_then_stmt(d.assign(e)); f->add_else_stmt(d.assign(b)); comb(f); break; }
            case 8: { auto f = std::make_shared<SwitchStmt>(b); f->add_switch_case(constant(1, 4).as<Const>(), e.assign(a)); f->add_switch_case(nullptr, e.assign(i)); comb(f); break; }
            case 9: { auto f = std::make_shared<ForStmt>("n" + std::to_string(names++), 0, 4, 1); f->add_stmt((*arr)[f->get_iter_var()].assign(b)); comb(f); break; }
            case 10: g->add_stmt(o.assign(util::mux(b[0], a, d))); break;
            case 11: { auto &w = g->var("w" + std::to_string(names++), 8); all.push_back(w.shared_from_this()); g->add_stmt(w.assign(b.extend(8))); break; }
            case 12: { auto &w = g->var("w" + std::to_string(names++), 8); all.push_back(w.shared_from_this()); g->add_stmt(w.assign(b.duplicate(2))); break; }
            case 13: { auto &w = g->var("w" + std::to_string(names++), 4, 1, true); all.push_back(w.shared_from_this()); g->add_stmt(w.assign(b.cast(VarCastType::Signed))); break; }
            case 14: { auto f = std::make_shared<IfStmt>(b[idx]); f->add_then_stmt(a.assign(i)); comb(f); break; }
            case 15: g->add_stmt(a.assign(b + b)); break;
            case 16: { auto fn = g->function("f" + std::to_string(names++)); auto x = fn->input("x", 4, false); fn->create_function_handler(4, false); fn->set_has_return_value(true); fn->add_stmt(fn->return_stmt((*x + e).shared_from_this())); g->add_stmt(a.assign(g->call(fn->function_name(), {{"x", b.shared_from_this()}}))); break; }
            case 17: { auto blk = g->sequential(); blk->add_condition({EventEdgeType::Posedge, i[0].shared_from_this()}); blk->add_stmt(d.assign(b, AssignmentType::NonBlocking)); blk->add_stmt(a.assign(d, AssignmentType::NonBlocking)); break; }
            case 18: g->add_stmt(b.assign(constant(3, 4))); break;
            case 19: { auto f = std::make_shared<IfStmt>(b[3]); auto h = std::make_shared<IfStmt>(a[0]); h->add_then_stmt(e[{2, 1}].assign(b[{1, 0}])); f->add_then_stmt(h); f->add_else_stmt(e.assign(d)); comb(f); break; }
            case 20: { auto f = std::make_shared<SwitchStmt>(b[{1, 0}]); f->add_switch_case(constant(2, 2).as<Const>(), a.assign(i)); comb(f); break; }
            default: { auto &x = idx->operator[](0); g->add_stmt(a[{2, 1}].concat(x).concat(d[0]).assign(b)); break; }
        }
    }
    void start(int n) {
        switch (n) {
            case 0: break;
            case 1: add(0); add(2); add(3); add(7); break;
            case 2: add(4); add(5); add(8); add(6); break;
            case 3: {
                k1 = &child("c1"); k2 = &child("c2"); spare = &child("c3");
                g->add_child_generator("k1", k1->shared_from_this());
                g->add_child_generator("k2", k2->shared_from_this());
                g->add_stmt(k1->get_port("x")->assign(v(0)));
                g->add_stmt(k2->get_port("x")->assign(*k1->get_port("q")));
                g->add_stmt(v(1).assign(*k2->get_port("q")));
                g->add_stmt(v(2)[{1, 0}].assign((*k1->get_port("r"))[{2, 1}]));
                add(7);
                break;
            }
            case 4: add(9); add(10); add(14); add(16); break;
            default: add(17); add(19); add(1); add(21); break;
        }
    }
    Uses uses(mc::Ctx &c, const std::string &key) {
        Uses u;
        std::vector<Generator *> gens = {g};
        for (size_t i = 0; i < gens.size(); i++) {
            for (uint64_t j = 0; j < gens[i]->stmts_count(); j++) walk(gens[i]->get_stmt(j), u, gens[i], c, key, log);
            for (auto &[n, fn] : gens[i]->functions()) if (!u.present.count(fn.get())) walk(fn, u, gens[i], c, key, log);
            for (auto &k : gens[i]->get_child_generators()) gens.push_back(k.get());
        }
        for (auto *k : {k1, k2, spare}) if (k && std::find(gens.begin(), gens.end(), k) == gens.end()) for (uint64_t j = 0; j < k->stmts_count(); j++) walk(k->get_stmt(j), u, k, c, key, log);
        return u;
    }
    Uses check(mc::Ctx &c, const std::string &key) {
        if (c.replaying) fprintf(stderr, "%s\n", log.c_str());
        Uses u = uses(c, key);
        c.states(1);
        for (auto &p : all) {
            auto *x = p.get();
            auto &es = u.src[x];
            std::set<const AssignStmt *> gs, gk;
            std::set<const Stmt *> gc;
            for (auto &s : x->sources()) gs.insert(s.get());
            for (auto &s : x->sinks()) {
                auto *par = s->parent();
                bool aux = s->left()->generator() && s->left()->generator()->is_auxiliary_var(s->left()->shared_from_this());
                bool ret = par && par->ir_node_kind() == IRNodeKind::StmtKind && static_cast<Stmt *>(par)->type() == StatementType::Return;
                if (aux || ret) {
                    if (!gc.insert(static_cast<const Stmt *>(par)).second) FAIL(c, key + ":cond-duplicate", x->name + " reports the same condition twice", log);
                } else gk.insert(s.get());
            }
            auto T = [](const AssignStmt *s) { return s->left()->to_string() + " = " + s->right()->to_string(); };
            for (auto *s : es) if (!gs.count(s)) FAIL(c, key + ":source-missing", x->name + " does not report that it is driven by " + T(s), log);
            for (auto *s : gs) if (!es.count(s)) FAIL(c, key + ":source-stale", x->name + " reports that it is driven by " + T(s) + ", which is not in the design or drives something else", log);
            auto &ek = u.snk[x];
            for (auto *s : ek) if (!gk.count(s)) FAIL(c, key + ":sink-missing", x->name + " does not report that it is read by " + T(s), log);
            for (auto *s : gk) if (!ek.count(s)) FAIL(c, key + ":sink-stale", x->name + " reports that it is read by " + T(s) + ", which is not in the design or reads something else", log);
            auto &ec = u.cond[x];
            for (auto *s : ec) if (!gc.count(s)) FAIL(c, key + ":cond-missing", x->name + " does not report that a condition reads it", log);
            for (auto *s : gc) if (!ec.count(s)) FAIL(c, key + ":cond-stale", x->name + " reports a condition that is not in the design or reads something else", log);
            // names and look-ups
            auto *gen = x->generator();
            auto there = gen->get_var(x->name);
            if (there && there != p) FAIL(c, key + ":lookup", "looking up " + x->name + " gives another variable", log);
        }
        std::vector<Generator *> gens = {g, k1, k2, spare};
        for (auto *h : gens) {
            if (!h) continue;
            for (auto &n : h->get_all_var_names()) {
                auto y = h->get_var(n);
                if (!y) FAIL(c, key + ":lookup", "a listed name is not found: " + n, log);
                if (y->name != n) FAIL(c, key + ":lookup", "looking up " + n + " gives a variable called " + y->name, log);
            }
            for (auto &n : h->get_port_names()) if (!h->get_port(n) || h->get_port(n)->name != n) FAIL(c, key + ":lookup", "a listed port is not found: " + n, log);
            // every port is listed
            for (auto &n : h->get_all_var_names()) if (h->get_var(n)->type() == VarType::PortIO && !h->get_port_names().count(n)) FAIL(c, key + ":lookup", "a port is not listed: " + n, log);
            for (auto &k : h->get_child_generators()) {
                if (h->get_child_generator(k->instance_name) != k.get()) FAIL(c, key + ":child", "looking up an instance by its name gives another one", log);
                if (k->parent_generator() != h) FAIL(c, key + ":child", "an instance's parent is not where it is", log);
            }
        }
        return u;
    }
    // statements that read a loop variable have no meaning anywhere else
    void keep(const S &s) {
        if (s->type() == StatementType::Assign) {
            auto *l = s->as<AssignStmt>()->left();
            if (l->type() == VarType::Slice && l->as<VarSlice>()->sliced_by_var() && root(l->as<VarVarSlice>()->sliced_var())->type() == VarType::Iter) return;
        }
        removed.push_back(s);
    }
    // one edit; returns false when there is nothing to do it on
    bool edit(mc::Ctx &c, Uses &u, int lvl) {
        int kind = c.choose(12, "edit");
        auto pick = [&](const std::vector<S> &l) -> S { if (l.empty()) c.skip(); return l[c.choose((int)l.size(), "statement")]; };
        auto of = [&](std::initializer_list<StatementType> t) {
            std::vector<S> l;
            for (auto &s : u.all) if (std::find(t.begin(), t.end(), s->type()) != t.end()) {
                // not the bodies of conditionals and loops
                if (s->type() == StatementType::Block && s->as<StmtBlock>()->block_type() == StatementBlockType::Scope) continue;
                l.push_back(s);
            }
            return l;
        };
        auto N = [](const S &s) { return std::to_string((int)s->type()); };
        auto add_log = [&](const std::string &s) { log += "; " + s; };
        switch (kind) {
            case 0: { int n = c.choose(lvl ? NADD : 12, "shape"); add_log("add shape " + std::to_string(n)); add(n); break; }
            case 1: {   // remove any statement
                auto s = pick(of({StatementType::Assign, StatementType::If, StatementType::Switch, StatementType::For, StatementType::Block}));
                add_log("remove a statement of kind " + N(s) + (s->type() == StatementType::Assign ? ": " + s->as<AssignStmt>()->left()->to_string() + " = " + s->as<AssignStmt>()->right()->to_string() : ""));
                s->remove_from_parent();
                keep(s);
                break;
            }
            case 2: {   // put a removed one back
                auto s = pick(removed);
                add_log("put a removed statement of kind " + N(s) + " back");
                if (s->type() == StatementType::Assign || s->type() == StatementType::Block) {
                    if (s->type() == StatementType::Block && s->as<StmtBlock>()->block_type() == StatementBlockType::Function) c.skip();
                    g->add_stmt(s);
                } else g->combinational()->add_stmt(s);
                removed.erase(std::find(removed.begin(), removed.end(), s));
                break;
            }
            case 3: {
                auto s = pick(of({StatementType::Assign}));
                auto a = s->as<AssignStmt>();
                add_log("unassign " + a->left()->to_string() + " = " + a->right()->to_string());
                a->left()->unassign(a);
                keep(s);
                break;
            }
            case 4: {
                std::vector<S> l;
                for (auto &s : u.all) if (s->type() == StatementType::Assign && s->parent() == g) l.push_back(s);
                auto a = pick(l)->as<AssignStmt>();
                add_log("unwire " + a->left()->to_string() + ", " + a->right()->to_string());
                if (c.flip("swapped")) g->unwire(*a->right(), *a->left()); else g->unwire(*a->left(), *a->right());
                break;
            }
            case 5: case 6: {   // move the drivers or the readers of a variable to another one
                int m = c.thorough ? 5 : 3, from = c.choose(m, "from"), to = c.choose(m, "to");
                if (from == to) c.skip();
                bool keep = c.flip("keep the connection");
                add_log(std::string("move the ") + (kind == 5 ? "sources" : "sinks") + " of " + v(from).name + " to " + v(to).name + (keep ? ", keeping the connection" : ""));
                if (kind == 5) Var::move_src_to(&v(from), &v(to), g, keep); else Var::move_sink_to(&v(from), &v(to), g, keep);
                break;
            }
            case 7: {
                int n = c.choose(6, "renamed");
                auto old = v(n).name, nn = "ren" + std::to_string(names++);
                add_log("rename " + old + " to " + nn);
                g->rename_var(old, nn);
                if (v(n).name != nn) FAIL(c, "rename:name", "a renamed variable keeps its name", log);
                if (g->get_var(nn) != vars[n]) FAIL(c, "rename:lookup", "a renamed variable is not found under its new name", log);
                if (g->get_var(old)) FAIL(c, "rename:old", "a renamed variable is still found under its old name", log);
                break;
            }
            case 8: {   // change a condition
                auto s = pick(of({StatementType::If, StatementType::Switch}));
                int n = c.choose(3, "to");
                add_log("change a condition, " + std::to_string(n));
                auto &x = v(n);
                if (s->type() == StatementType::If) s->as<IfStmt>()->set_predicate(n == 2 ? x.r_or().shared_from_this() : n ? x.eq(v(3)).shared_from_this() : x[0].shared_from_this());
                else s->as<SwitchStmt>()->set_target(n == 2 ? (x + v(0)).shared_from_this() : x.shared_from_this());
                break;
            }
            case 9: {   // branches
                auto s = pick(of({StatementType::If, StatementType::Switch}));
                int n = c.choose(3, "how");
                add_log("branches " + std::to_string(n));
                if (s->type() == StatementType::If) {
                    auto f = s->as<IfStmt>();
                    auto &b = n == 0 ? f->then_body() : f->else_body();
                    if (n == 2) {
                        auto nb = std::make_shared<ScopedStmtBlock>();
                        nb->add_stmt(v(3).assign(v(1)));
                        f->set_then(nb);
                    } else if (b->size()) { auto k = (*b)[0]; if (n == 0) f->remove_then_stmt(k); else f->remove_else_stmt(k); keep(k); }
                    else c.skip();
                } else {
                    auto f = s->as<SwitchStmt>();
                    if (f->body().empty()) c.skip();
                    auto it = f->body().begin();
                    if (n == 0) f->remove_switch_case(it->first);
                    else if (n == 1) { if (!it->second->size()) c.skip(); auto k = (*it->second)[0]; f->remove_switch_case(it->first, k); keep(k); }
                    else f->add_switch_case(constant(0, f->target()->width()).as<Const>(), v(3).assign(v(1)));
                }
                break;
            }
            case 10: {
                if (!k1) c.skip();
                int n = c.choose(6, "child");
                add_log("child edit " + std::to_string(n));
                auto has = [&](Generator *k) { for (auto &x : g->get_child_generators()) if (x.get() == k) return true; return false; };
                switch (n) {
                    case 0: case 1: { auto *k = n ? k2 : k1; if (!has(k)) c.skip(); g->remove_child_generator(k->shared_from_this()); break; }
                    case 2: { if (!has(k1) || has(spare)) c.skip(); auto in = k1->instance_name; g->replace(in, spare->shared_from_this()); if (g->get_child_generator(in) != spare) FAIL(c, "replace:lookup", "the replaced instance is not found", log); break; }
                    case 3: { if (!has(k2)) c.skip(); g->rename_child_generator(k2->shared_from_this(), "nm" + std::to_string(names++)); break; }
                    case 4: { if (has(k1)) c.skip(); g->add_child_generator("again" + std::to_string(names++), k1->shared_from_this()); break; }
                    default: { auto &x = g->var("cv" + std::to_string(names++), 4); all.push_back(x.shared_from_this()); auto *q = k1->get_port("q").get(); Var::move_sink_to(q, &x, g, true); break; }
                }
                break;
            }
            default: {   // a block is emptied, or a statement is replaced in its place
                auto s = pick(of({StatementType::Block}));
                auto b = s->as<StmtBlock>();
                if (!b->size()) c.skip();
                if (c.flip("replace the first")) {
                    add_log("replace the first statement of a block");
                    auto k = (*b)[0];
                    b->set_child(0, v(3).assign(v(1), b->block_type() == StatementBlockType::Sequential ? AssignmentType::NonBlocking : AssignmentType::Blocking));
                    keep(k);
                } else { add_log("clear a block"); b->clear(); }
                break;
            }
        }
        return true;
    }
};
static void family(mc::Ctx &c, int start, int depth, int lvl) {
    World w;
    w.log = "start " + std::to_string(start);
    std::string key = "start" + std::to_string(start);
    try {
        w.start(start);
        auto u = w.check(c, key);
        for (int i = 0; i < depth; i++) {
            w.edit(c, u, lvl);
            u = w.check(c, key);
            c.trans(1);
        }
    } catch (const mc::Skip &) { throw;
    } catch (const mc::Violation &) { throw;
    } catch (const std::exception &e) {
        FAIL(c, key + ":exception", std::string("a legal edit is refused: ") + e.what(), w.log);
    }
    c.trace();
}
int main(int argc, char **argv) {
    std::cerr.rdbuf(nullptr);
    std::vector<mc::Family> f;
    for (int s = 0; s < 6; s++) f.push_back({"start " + std::to_string(s), [s](mc::Ctx &c) { family(c, s, c.thorough ? 4 : 3, c.thorough || s == 0); }, 3});
    return mc::run("C11", f, argc, argv, "model_checking",
                   {"every sequence of three edits (four in the thorough tier) from six starting designs; edits and statement shapes are those listed in checks/C11.cc",
                    "the reference is a fresh walk over all statements of the design after each edit"});
}
