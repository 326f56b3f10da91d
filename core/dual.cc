#include "dual.hh"
using rtl::EP;
using rtl::Op;
using rtl::SP;
namespace dual {
SP block(std::vector<SP> b) { auto s = std::make_shared<rtl::Stmt>(); s->k = rtl::Stmt::Block; s->body = std::move(b); return s; }
SP rassign(const std::vector<rtl::LV> &l, EP e, bool nba) {
    auto s = std::make_shared<rtl::Stmt>();
    s->k = rtl::Stmt::Assign; s->lhs = l; s->rhs = std::move(e); s->nba = nba;
    return s;
}
const char *bname(B b) {
    static const char *n[] = {"+", "-", "*", "/", "%", ">>", ">>>", "<<", "|", "&", "^", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "**"};
    return n[(int)b];
}
const char *uname(U u) {
    static const char *n[] = {"~", "-", "+", "|", "&", "^", "!"};
    return n[(int)u];
}
DX Dual::wrap(kratos::Var &v, const std::string &n, int w, bool s) {
    DX x;
    x.k = &v; x.w = w; x.s = s; x.t = n;
    int sig = d.add_sig(n, w, s);
    x.r = rtl::sigx(sig, w, s);
    x.lv = {{sig, nullptr, 0, w}};
    return x;
}
static std::string scope(Generator &g, Generator *top, const std::string &n) { return &g == top ? n : g.instance_name + "." + n; }
DX Dual::port(Generator &g, bool in, const std::string &n, int w, bool s, PortType ty) {
    auto &p = g.port(in ? PortDirection::In : PortDirection::Out, n, (uint32_t)w, 1, ty, s);
    if (!top) top = &g;
    auto x = wrap(p, scope(g, top, n), w, s);
    if (&g == top) d.ports[n] = {x.lv[0].sig, w, s, in, "logic"};
    return x;
}
DX Dual::var(Generator &g, const std::string &n, int w, bool s) {
    auto &v = g.var(n, (uint32_t)w, 1, s);
    if (!top) top = &g;
    return wrap(v, scope(g, top, n), w, s);
}
DX Dual::arr(Generator &g, int dir, const std::string &n, int ew, const std::vector<uint32_t> &dims, bool packed, bool s) {
    int w = ew;
    for (auto x : dims) w *= (int)x;
    kratos::Var *v;
    if (dir) v = &g.port(dir == 1 ? PortDirection::In : PortDirection::Out, n, (uint32_t)ew, dims, PortType::Data, s);
    else v = &g.var(n, (uint32_t)ew, dims, s);
    v->set_is_packed(packed);
    if (!top) top = &g;
    auto x = wrap(*v, scope(g, top, n), w, s);
    if (&g == top && dir) d.ports[n] = {x.lv[0].sig, w, s, dir == 1, "logic"};
    return x;
}
DX Dual::con(int64_t v, int w, bool s) {
    DX x;
    x.k = &kratos::constant(v, (uint32_t)w, s);
    x.w = w; x.s = s;
    x.r = rtl::cst((rtl::u128)(rtl::i128)v, w, s);
    x.t = std::to_string(w) + (s ? "'s" : "'") + "d" + std::to_string(v);
    return x;
}
DX Dual::bin(B op, const DX &a, const DX &b) {
    DX x;
    auto &l = *a.k;
    auto &r = *b.k;
    switch (op) {
        case B::Add: x.k = &(l + r); break;
        case B::Sub: x.k = &(l - r); break;
        case B::Mul: x.k = &(l * r); break;
        case B::Div: x.k = &(l / r); break;
        case B::Mod: x.k = &(l % r); break;
        case B::Shr: x.k = &(l >> r); break;
        case B::AShr: x.k = &l.ashr(r); break;
        case B::Shl: x.k = &(l << r); break;
        case B::Or: x.k = &(l | r); break;
        case B::And: x.k = &(l & r); break;
        case B::Xor: x.k = &(l ^ r); break;
        case B::Lt: x.k = &(l < r); break;
        case B::Gt: x.k = &(l > r); break;
        case B::Le: x.k = &(l <= r); break;
        case B::Ge: x.k = &(l >= r); break;
        case B::Eq: x.k = &l.eq(r); break;
        case B::Ne: x.k = &(l != r); break;
        case B::LAnd: x.k = &(l && r); break;
        case B::LOr: x.k = &(l || r); break;
        case B::Pow: x.k = &l.pow(r); break;
    }
    static const std::map<B, Op> m = {{B::Add, Op::Add}, {B::Sub, Op::Sub}, {B::Mul, Op::Mul}, {B::Div, Op::Div}, {B::Mod, Op::Mod}, {B::Shr, Op::LShr}, {B::AShr, Op::AShr},
                                      {B::Shl, Op::Shl}, {B::Or, Op::Or}, {B::And, Op::And}, {B::Xor, Op::Xor}, {B::Lt, Op::Lt}, {B::Gt, Op::Gt}, {B::Le, Op::Le}, {B::Ge, Op::Ge},
                                      {B::Eq, Op::Eq}, {B::Ne, Op::Ne}, {B::LAnd, Op::LAnd}, {B::LOr, Op::LOr}, {B::Pow, Op::Pow}};
    bool rel = op >= B::Lt && op <= B::Ne, log = op == B::LAnd || op == B::LOr, sh = op == B::Shr || op == B::AShr || op == B::Shl || op == B::Pow;
    bool s = sh ? a.s : (a.s && b.s);
    x.w = (rel || log) ? 1 : a.w;
    x.s = (rel || log) ? false : s;
    // an arithmetic right shift of an unsigned value shifts in zeros
    auto o = op == B::AShr && !a.s ? Op::LShr : m.at(op);
    x.r = rtl::mk(o, x.w, s, {a.r, b.r});
    x.t = "(" + a.t + " " + bname(op) + " " + b.t + ")";
    return x;
}
DX Dual::un(U op, const DX &a) {
    DX x;
    auto &v = *a.k;
    x.w = a.w; x.s = a.s;
    switch (op) {
        case U::Inv: x.k = &~v; x.r = rtl::mk(Op::Not, a.w, a.s, {a.r}); break;
        case U::Neg: x.k = &-v; x.r = rtl::mk(Op::Neg, a.w, a.s, {a.r}); break;
        case U::Pos: x.k = &+v; x.r = a.r; break;
        case U::ROr: x.k = &v.r_or(); x.w = 1; x.s = false; x.r = rtl::mk(Op::ROr, 1, false, {a.r}); break;
        case U::RAnd: x.k = &v.r_and(); x.w = 1; x.s = false; x.r = rtl::mk(Op::RAnd, 1, false, {a.r}); break;
        case U::RXor: x.k = &v.r_xor(); x.w = 1; x.s = false; x.r = rtl::mk(Op::RXor, 1, false, {a.r}); break;
        case U::RNot: x.k = &v.r_not(); x.w = 1; x.s = false; x.r = rtl::mk(Op::LNot, 1, false, {a.r}); break;
    }
    x.t = std::string("(") + uname(op) + a.t + ")";
    return x;
}
DX Dual::slice(const DX &a, int hi, int lo) {
    DX x;
    x.k = &(*a.k)[std::make_pair((uint32_t)hi, (uint32_t)lo)];
    x.w = hi - lo + 1;
    x.r = rtl::part(a.r, nullptr, lo, x.w);
    if (a.lv.size() == 1) x.lv = {{a.lv[0].sig, a.lv[0].off, a.lv[0].lo + lo, x.w}};
    x.t = a.t + "[" + std::to_string(hi) + ":" + std::to_string(lo) + "]";
    return x;
}
static EP times(EP i, int k) {
    // offsets are evaluated wide enough for every index
    auto e = rtl::resize(i, 64, false);
    return k == 1 ? e : rtl::mk(Op::Mul, 64, false, {e, rtl::cst(k, 64)});
}
DX Dual::bit(const DX &a, const DX &i) { return elem(a, i, 1); }
DX Dual::elem(const DX &a, int i, int ew) {
    DX x;
    x.k = &(*a.k)[(uint32_t)i];
    x.w = ew;
    x.r = rtl::part(a.r, nullptr, i * ew, ew);
    if (a.lv.size() == 1) x.lv = {{a.lv[0].sig, a.lv[0].off, a.lv[0].lo + i * ew, ew}};
    x.t = a.t + "[" + std::to_string(i) + "]";
    return x;
}
DX Dual::elem(const DX &a, const DX &i, int ew) {
    DX x;
    x.k = &(*a.k)[i.p()];
    x.w = ew;
    EP off = times(i.r, ew);
    x.r = rtl::part(a.r, off, 0, ew);
    if (a.lv.size() == 1) {
        EP o = a.lv[0].off ? rtl::mk(Op::Add, 64, false, {a.lv[0].off, off}) : off;
        x.lv = {{a.lv[0].sig, o, a.lv[0].lo, ew}};
    }
    x.t = a.t + "[" + i.t + "]";
    return x;
}
DX Dual::cat(const DX &a, const DX &b) {
    DX x;
    x.k = &a.k->concat(*b.k);
    x.w = a.w + b.w;
    x.psign = b.s;
    x.r = rtl::mk(Op::Concat, x.w, false, {a.r, b.r});
    if (!a.lv.empty() && !b.lv.empty()) { x.lv = a.lv; x.lv.insert(x.lv.end(), b.lv.begin(), b.lv.end()); }
    x.t = "{" + a.t + ", " + b.t + "}";
    return x;
}
DX Dual::ext(const DX &a, int w) {
    DX x;
    x.k = &a.k->extend((uint32_t)w);
    x.w = w; x.s = a.s;
    x.r = rtl::resize(a.r, w, a.s);
    x.t = "ext" + std::to_string(w) + "(" + a.t + ")";
    return x;
}
DX Dual::dup(const DX &a, int n) {
    DX x;
    x.k = &a.k->duplicate((uint32_t)n);
    x.w = a.w * n;
    x.r = rtl::mk(Op::Concat, x.w, false, std::vector<EP>(n, a.r));
    x.t = "dup" + std::to_string(n) + "(" + a.t + ")";
    return x;
}
DX Dual::cast(const DX &a, bool sg) {
    DX x;
    x.k = a.k->cast(sg ? kratos::VarCastType::Signed : kratos::VarCastType::Unsigned).get();
    x.w = a.w; x.s = sg;
    x.r = a.r;
    x.t = std::string(sg ? "signed(" : "unsigned(") + a.t + ")";
    return x;
}
DX Dual::mux(const DX &c, const DX &a, const DX &b) {
    DX x;
    auto e = kratos::util::mux(*c.k, *a.k, *b.k);
    x.k = e.get();
    x.w = a.w; x.s = a.s && b.s;
    x.r = rtl::mk(Op::Cond, x.w, x.s, {c.r, a.r, b.r});
    x.t = "(" + c.t + " ? " + a.t + " : " + b.t + ")";
    return x;
}
DS Dual::assign(const DX &l, const DX &r, bool nba) {
    if (l.lv.empty()) throw std::logic_error("not an assignment target: " + l.t);
    return {l.k->assign(*r.k, nba ? kratos::AssignmentType::NonBlocking : kratos::AssignmentType::Blocking), rassign(l.lv, r.r, nba)};
}
DS Dual::assign_u(const DX &l, const DX &r, bool nba) { return {l.k->assign(*r.k), rassign(l.lv, r.r, nba)}; }
void Dual::cont(Generator &g, const DX &l, const DX &r) {
    g.add_stmt(l.k->assign(*r.k));
    rtl::Proc p;
    p.k = rtl::Proc::Assign;
    p.body = rassign(l.lv, r.r, false);
    d.procs.push_back(p);
}
DS Dual::if_(const DX &c, const std::vector<DS> &t, const std::vector<DS> &e) {
    auto k = std::make_shared<kratos::IfStmt>(c.p());
    auto r = std::make_shared<rtl::Stmt>();
    r->k = rtl::Stmt::If;
    r->rhs = c.r;
    r->body = {block(), block()};
    for (auto &x : t) { k->add_then_stmt(x.k); r->body[0]->body.push_back(x.r); }
    for (auto &x : e) { k->add_else_stmt(x.k); r->body[1]->body.push_back(x.r); }
    return {k, r};
}
DS Dual::switch_(const DX &c, const std::vector<std::pair<DX, std::vector<DS>>> &items, const std::vector<DS> *dflt, bool unique) {
    auto k = std::make_shared<kratos::SwitchStmt>(c.p());
    auto r = std::make_shared<rtl::Stmt>();
    r->k = rtl::Stmt::Case;
    r->rhs = c.r;
    r->unique = unique;
    for (auto &[l, b] : items) {
        auto blk = block();
        std::vector<std::shared_ptr<kratos::Stmt>> ks;
        for (auto &x : b) { ks.push_back(x.k); blk->body.push_back(x.r); }
        k->add_switch_case(l.k->as<kratos::Const>(), ks);
        r->items.push_back({{l.r}, blk});
    }
    if (dflt) {
        r->dflt = block();
        std::vector<std::shared_ptr<kratos::Stmt>> ks;
        for (auto &x : *dflt) { ks.push_back(x.k); r->dflt->body.push_back(x.r); }
        k->add_switch_case(nullptr, ks);
    }
    return {k, r};
}
static void fill(kratos::StmtBlock &k, rtl::Design &d, rtl::Proc::K kind, const std::vector<DS> &b, std::vector<std::pair<EP, rtl::Edge>> sens = {}) {
    rtl::Proc p;
    p.k = kind;
    p.sens = std::move(sens);
    p.body = block();
    for (auto &x : b) { k.add_stmt(x.k); p.body->body.push_back(x.r); }
    d.procs.push_back(p);
}
void Dual::comb(Generator &g, const std::vector<DS> &b) { fill(*g.combinational(), d, rtl::Proc::Comb, b); }
void Dual::latch(Generator &g, const std::vector<DS> &b) { fill(*g.latch(), d, rtl::Proc::Latch, b); }
void Dual::initial(Generator &g, const std::vector<DS> &b) { fill(*g.initial(), d, rtl::Proc::Initial, b); }
void Dual::seq(Generator &g, const std::vector<std::pair<DX, bool>> &sens, const std::vector<DS> &b) {
    auto k = g.sequential();
    std::vector<std::pair<EP, rtl::Edge>> rs;
    for (auto &[x, pos] : sens) {
        k->add_condition({pos ? kratos::EventEdgeType::Posedge : kratos::EventEdgeType::Negedge, x.p()});
        rs.emplace_back(x.r, pos ? rtl::Edge::Pos : rtl::Edge::Neg);
    }
    fill(*k, d, rtl::Proc::Ff, b, rs);
}
EP subst(const EP &e, int sig, const EP &by) {
    if (!e) return e;
    if (e->op == Op::Sig && e->sig == sig) return by;
    bool ch = false;
    std::vector<EP> a;
    for (auto &x : e->a) { a.push_back(subst(x, sig, by)); ch = ch || a.back() != x; }
    if (!ch) return e;
    auto r = std::make_shared<rtl::Expr>(*e);
    r->a = a;
    return r;
}
SP subst(const SP &s, int sig, const EP &by) {
    if (!s) return s;
    auto r = std::make_shared<rtl::Stmt>(*s);
    for (auto &l : r->lhs) l.off = subst(l.off, sig, by);
    r->rhs = subst(s->rhs, sig, by);
    for (auto &b : r->body) b = subst(b, sig, by);
    for (auto &[l, b] : r->items) { for (auto &x : l) x = subst(x, sig, by); b = subst(b, sig, by); }
    r->dflt = subst(s->dflt, sig, by);
    return r;
}
DS Dual::for_(const std::string &iter, int64_t start, int64_t end, int64_t step, const std::function<std::vector<DS>(const DX &)> &body) {
    auto k = std::make_shared<kratos::ForStmt>(iter, start, end, step);
    auto it = k->get_iter_var();
    it->set_generator(top);   // expressions over the loop variable live in the module
    bool s = it->is_signed();   // whether the loop variable is signed is the library's choice
    DX i = wrap(*it, "for." + iter + std::to_string(tag++), 32, s);
    int sig = i.lv[0].sig;
    i.lv.clear();
    auto b = body(i);
    for (auto &x : b) k->add_stmt(x.k);
    auto r = block();
    for (int64_t v = start; step > 0 ? v < end : v > end; v += step)
        for (auto &x : b) r->body.push_back(subst(x.r, sig, rtl::cst((rtl::u128)(rtl::i128)v, 32, s)));
    return {k, r};
}
Dual::Fn Dual::func(Generator &g, const std::string &name, const std::vector<std::tuple<std::string, int, bool>> &args, int w, bool s, const std::map<std::string, uint32_t> &order) {
    Fn f;
    f.k = g.function(name);
    f.w = w; f.s = s;
    rtl::Func rf;
    rf.name = name;
    for (auto &[n, aw, as] : args) {
        auto p = f.k->input(n, (uint32_t)aw, as);
        f.args.push_back(wrap(*p, name + "." + n, aw, as));
        f.names.push_back(n);
        rf.args.push_back(f.args.back().lv[0].sig);
    }
    if (w) { f.k->create_function_handler((uint32_t)w, s); f.k->set_has_return_value(true); }
    if (!order.empty()) f.k->set_port_ordering(order);
    rf.body = block();
    f.idx = (int)d.funcs.size();
    d.funcs.push_back(rf);
    return f;
}
void Dual::func_body(Fn &f, const std::vector<DS> &b) { for (auto &x : b) { f.k->add_stmt(x.k); d.funcs[f.idx].body->body.push_back(x.r); } }
DS Dual::ret(Fn &f, const DX &v) {
    auto r = std::make_shared<rtl::Stmt>();
    r->k = rtl::Stmt::Return;
    r->rhs = v.r;
    return {f.k->return_stmt(v.p()), r};
}
DX Dual::call(Generator &g, Fn &f, const std::vector<DX> &args) {
    std::map<std::string, std::shared_ptr<kratos::Var>> m;
    auto e = std::make_shared<rtl::Expr>();
    e->op = Op::Call; e->w = std::max(1, f.w); e->s = f.s; e->sig = f.idx;
    DX x;
    x.t = f.k->function_name() + "(";
    for (size_t i = 0; i < args.size(); i++) { m[f.names[i]] = args[i].p(); e->a.push_back(args[i].r); x.t += (i ? ", " : "") + args[i].t; }
    x.t += ")";
    x.k = f.w ? &g.call(f.k->function_name(), m) : nullptr;
    x.w = std::max(1, f.w); x.s = f.s;
    x.r = e;
    return x;
}
DS Dual::call_stmt(Generator &g, Fn &f, const std::vector<DX> &args) {
    std::map<std::string, std::shared_ptr<kratos::Var>> m;
    for (size_t i = 0; i < args.size(); i++) m[f.names[i]] = args[i].p();
    DX x = call(g, f, args);
    auto r = std::make_shared<rtl::Stmt>();
    r->k = rtl::Stmt::ExprStmt;
    r->rhs = x.r;
    return {std::make_shared<kratos::FunctionCallStmt>(f.k, m), r};
}
// ---- emission
const std::vector<std::string> minimal = {"decouple_generator_ports", "fix_assignment_type", "create_module_instantiation", "create_interface_instantiation"};
const std::vector<std::string> standard = {
    "realize_fsm", "remove_pass_through_modules", "merge_if_block", "transform_if_to_case", "zero_out_stubs", "remove_fanout_one_wires", "zero_generator_inputs",
    "change_port_bundle_struct", "verify_generator_connectivity", "merge_const_port_assignment", "decouple_generator_ports", "fix_assignment_type", "remove_unused_vars",
    "remove_unused_stmts", "verify_assignments", "check_combinational_loop", "check_mixed_assignment", "check_always_sensitivity", "check_inferred_latch", "check_active_high",
    "check_function_return", "merge_wire_assignments", "check_multiple_driver", "check_flip_flop_always_ff", "hash_generators_parallel", "inline_instance",
    "change_property_into_stmt", "infer_property_clocking", "uniquify_generators", "create_module_instantiation", "create_interface_instantiation"};
void run_pass(Generator &top, const std::string &name) {
    kratos::PassManager pm;
    pm.register_builtin_passes();
    pm.add_pass(name);
    pm.run_passes(&top);
}
void run_passes(Generator &top, const std::vector<std::string> &p) {
    kratos::PassManager pm;
    pm.register_builtin_passes();
    for (auto &n : p) pm.add_pass(n);
    pm.run_passes(&top);
}
std::vector<std::pair<std::string, std::string>> text(Generator &top, const Emit &e) {
    std::vector<std::pair<std::string, std::string>> r;
    kratos::SystemVerilogCodeGenOptions o{};
    o.unique_case = e.unique_case;
    o.line_wrap = (uint64_t)e.line_wrap;
    o.extract_debug_info = false;
    auto m = kratos::generate_verilog(&top, o);
    if (e.with_defs) {
        std::string defs;
        for (auto &[n, t] : kratos::extract_struct_info(&top)) defs += t + "\n";
        for (auto &[n, t] : kratos::extract_dpi_function(&top, true)) defs += t + "\n";
        for (auto &[n, t] : kratos::extract_enum_info(&top)) defs += t + "\n";
        for (auto &[n, t] : kratos::extract_interface_info(&top)) defs += t + "\n";
        if (!defs.empty()) r.emplace_back("defs.sv", defs);
    }
    for (auto &[n, t] : m) r.emplace_back(n + ".sv", t);
    return r;
}
std::string join(const std::vector<std::pair<std::string, std::string>> &t) {
    std::string r;
    for (auto &x : t) r += x.second + "\n";
    return r;
}
rtl::Design elab(Generator &top, const std::vector<std::pair<std::string, std::string>> &t, const std::map<std::string, rtl::u128> &params) {
    return sv::elaborate(sv::parse(t), top.name, params);
}
std::string clip(const std::string &s, size_t n) { return s.size() > n ? s.substr(0, n) + "..." : s; }
void check(mc::Ctx &c, Dual &u, const Check &k, const std::string &what) {
    std::string key = k.key;
    std::string head = what.empty() ? "" : what + "\n";
    try { run_passes(*u.top, k.emit.passes); }
    catch (std::exception &e) { c.fail(k.key + ":pass-exception", head + "a pass refuses a legal design: " + e.what()); }
    std::vector<std::pair<std::string, std::string>> t;
    try { t = text(*u.top, k.emit); }
    catch (std::exception &e) { c.fail(k.key + ":codegen-exception", head + "code generation refuses a legal design: " + e.what()); }
    if (k.reading) k.reading(t, key);
    std::string src = join(t);
    if (c.replaying) c.log += head + src;
    rtl::Design dut;
    try { dut = elab(*u.top, t); }
    catch (rtl::Unsupported &e) { throw; }
    catch (std::exception &e) { c.fail(key + ":illegal-text", head + "the emitted text is not legal: " + e.what() + "\n" + src); }
    if (!dut.lint.empty()) c.fail(key + ":illegal-text", head + "the emitted text is not legal: " + dut.lint[0] + "\n" + src);
    auto r = rtl::product(u.d, dut, k.opt);
    c.states(r.states);
    c.trans(r.trans);
    c.trace();
    for (auto o : r.outcomes) c.outcome((uint64_t)o ^ (uint64_t)(o >> 64));
    if (r.capped) c.capped();
    if (!r.ok) c.fail(key, head + r.msg + "\n" + src);
    if (c.want_sample()) c.sample(clip(head + src));
}
}  // namespace dual
