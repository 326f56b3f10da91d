// C10: operations and assignments are accepted exactly when the typing rules hold, and reported types are the emitted ones.
#include <iostream>
#include "dual.hh"
#include "util.hh"
using namespace dual;
using namespace kratos;
using VT = std::shared_ptr<Var>;
enum Shape { Scalar, Packed, Unpacked };
enum Flex { Fixed, Lit, Parm, Loop };
// everything a design of this family may use
struct Env {
    Context ctx;
    Generator &g = ctx.generator("mod");
    std::shared_ptr<ForStmt> loop;
    std::shared_ptr<SequentialStmtBlock> seq;
    std::map<std::string, VT> objs;
    std::vector<VT> keep;
};
struct Kind {
    std::string n;
    int w;
    bool s;
    std::function<VT(Env &)> make;
    Shape sh = Scalar;
    Flex fx = Fixed;
    int64_t lo = 0, hi = 0;        // values of a flexible operand
    bool en = false;               // of enum type E
    int elems = 1;                 // outermost dimension of an array
    int ew = 0;
};
static VT port(Env &e, const std::string &n, int w, bool s, int dim = 1) {
    auto &o = e.objs[n];
    if (!o) o = e.g.port(PortDirection::In, n, w, (uint32_t)dim, PortType::Data, s).shared_from_this();
    return o;
}
static VT arr(Env &e, const std::string &n, int ew, std::vector<uint32_t> dims, bool packed, bool s = false) {
    auto &o = e.objs[n];
    if (!o) { o = e.g.port(PortDirection::In, n, ew, dims, PortType::Data, s).shared_from_this(); o->set_is_packed(packed); if (dims.size() == 1 && dims[0] == 1) o->set_explicit_array(true); }
    return o;
}
static PackedStruct strct(Env &) { return PackedStruct("st", std::vector<std::tuple<std::string, uint32_t, bool>>{{"x", 2, false}, {"y", 1, true}}); }
static EnumConst &econst(Env &e, const std::string &en, const std::string &m) {
    if (!e.ctx.has_enum(en)) e.ctx.enum_(en, {{en == "E" ? "A" : "P", 0}, {en == "E" ? "B" : "Q", 2}}, 2);
    Enum *x = nullptr;
    for (auto &p : e.ctx.enum_Defs()) if (p.first == en) x = p.second.get();
    return *x->get_enum(m);
}
static VT evar(Env &e, const std::string &n, const std::string &en) {
    econst(e, en, en == "E" ? "A" : "P");
    auto &o = e.objs[n];
    if (!o) o = e.g.port(PortDirection::In, n, e.ctx.enum_Defs().at(en)).shared_from_this();
    return o;
}
static VT iter(Env &e, int lo, int hi, bool) {
    if (!e.loop) {
        e.loop = std::make_shared<ForStmt>("i", lo, hi, 1);
        auto cb = e.g.combinational();
        cb->add_stmt(e.loop);
    }
    return e.loop->get_iter_var();
}
static std::string us(int w, bool s) { return std::string(s ? "s" : "u") + std::to_string(w); }
static std::vector<Kind> kinds(bool wide) {
    std::vector<Kind> r;
    for (int w : {1, 2, 3}) for (bool s : {false, true}) r.push_back({"v" + us(w, s), w, s, [=](Env &e) { return port(e, "v" + us(w, s), w, s); }});
    r.push_back({"second", 2, false, [](Env &e) { return port(e, "t2", 2, false); }});
    struct L { int64_t v; int w; bool s; };
    for (auto l : std::vector<L>{{1, 1, false}, {0, 2, false}, {3, 2, false}, {1, 3, false}, {7, 3, false}, {-1, 2, true}, {1, 2, true}, {-4, 3, true}, {2, 3, true}})
        r.push_back({"const " + std::to_string(l.v) + us(l.w, l.s), l.w, l.s, [=](Env &) { return constant(l.v, l.w, l.s).shared_from_this(); }, Scalar, Lit, l.v, l.v});
    r.push_back({"slice2", 2, false, [](Env &e) { auto v = port(e, "w4", 4, true); return (*v)[{2, 1}].shared_from_this(); }});
    r.push_back({"bit", 1, false, [](Env &e) { auto v = port(e, "w4", 4, true); return (*v)[3].shared_from_this(); }});
    r.push_back({"only bit", 1, false, [](Env &e) { auto v = port(e, "vs1", 1, true); return (*v)[0].shared_from_this(); }});
    r.push_back({"concat", 3, false, [](Env &e) { return port(e, "vs1", 1, true)->concat(*port(e, "vs2", 2, true)).shared_from_this(); }});
    r.push_back({"sum", 2, false, [](Env &e) { return (*port(e, "vu2", 2, false) + *port(e, "vs2", 2, true)).shared_from_this(); }});
    r.push_back({"ssum", 2, true, [](Env &e) { return (*port(e, "vs2", 2, true) - *port(e, "ws2", 2, true)).shared_from_this(); }});
    r.push_back({"less", 1, false, [](Env &e) { return (*port(e, "vs2", 2, true) < *port(e, "ws2", 2, true)).shared_from_this(); }});
    r.push_back({"cast s", 2, true, [](Env &e) { return port(e, "vu2", 2, false)->cast(VarCastType::Signed); }});
    r.push_back({"cast u", 2, false, [](Env &e) { return port(e, "vs2", 2, true)->cast(VarCastType::Unsigned); }});
    r.push_back({"extend", 3, true, [](Env &e) { return port(e, "vs2", 2, true)->extend(3).shared_from_this(); }});
    r.push_back({"shrunk", 2, true, [](Env &e) { auto c = port(e, "ws4", 4, true)->cast(VarCastType::Resize); c->as<VarCasted>()->set_target_width(2); return c; }});
    r.push_back({"dup", 2, false, [](Env &e) { return port(e, "vs1", 1, true)->duplicate(2).shared_from_this(); }});
    r.push_back({"parray", 4, false, [](Env &e) { return arr(e, "pa", 2, {2}, true); }, Packed, Fixed, 0, 0, false, 2, 2});
    r.push_back({"parray s", 2, true, [](Env &e) { return arr(e, "ps", 1, {2}, true, true); }, Packed, Fixed, 0, 0, false, 2, 1});
    r.push_back({"uarray", 4, false, [](Env &e) { return arr(e, "ua", 2, {2}, false); }, Unpacked, Fixed, 0, 0, false, 2, 2});
    r.push_back({"uarray4", 4, false, [](Env &e) { return arr(e, "ub", 1, {4}, false); }, Unpacked, Fixed, 0, 0, false, 4, 1});
    r.push_back({"uarray1", 2, false, [](Env &e) { return arr(e, "uc", 2, {1}, false); }, Unpacked, Fixed, 0, 0, false, 1, 2});
    r.push_back({"v4", 4, false, [](Env &e) { return port(e, "vu4", 4, false); }});
    r.push_back({"pelem", 2, false, [](Env &e) { return (*arr(e, "pa", 2, {2}, true))[1].shared_from_this(); }});
    r.push_back({"uelem", 2, false, [](Env &e) { return (*arr(e, "ua", 2, {2}, false))[0].shared_from_this(); }});
    r.push_back({"selem", 2, true, [](Env &e) { return (*arr(e, "us", 2, {2}, false, true))[0].shared_from_this(); }});
    r.push_back({"uelem var", 2, false, [](Env &e) { return (*arr(e, "ua", 2, {2}, false))[port(e, "vu1", 1, false)].shared_from_this(); }});
    r.push_back({"param", 2, false, [](Env &e) { auto &o = e.objs["P"]; if (!o) { auto &p = e.g.parameter("P", 2); p.set_value(2); o = p.shared_from_this(); } return o; }, Scalar, Parm, 2, 2});
    r.push_back({"param s", 3, true, [](Env &e) { auto &o = e.objs["PS"]; if (!o) { auto &p = e.g.parameter("PS", 3, true); p.set_value(-2); o = p.shared_from_this(); } return o; }, Scalar, Parm, -2, -2});
    r.push_back({"enum var", 2, false, [](Env &e) { return evar(e, "ev", "E"); }, Scalar, Fixed, 0, 0, true});
    r.push_back({"enum const", 2, false, [](Env &e) { return econst(e, "E", "B").shared_from_this(); }, Scalar, Fixed, 2, 2, true});
    if (wide) {
        for (int w : {31, 32, 33, 64, 65, 120}) r.push_back({"v" + us(w, w & 1), w, (w & 1) != 0, [=](Env &e) { return port(e, "v" + us(w, w & 1), w, w & 1); }});
        r.push_back({"const wide", 64, false, [](Env &) { return constant(5, 64, false).shared_from_this(); }, Scalar, Lit, 5, 5});
        r.push_back({"const wide s", 64, true, [](Env &) { return constant(INT64_MIN, 64, true).shared_from_this(); }, Scalar, Lit, INT64_MIN, INT64_MIN});
        r.push_back({"const 32 s", 33, true, [](Env &) { return constant(INT32_MIN, 33, true).shared_from_this(); }, Scalar, Lit, INT32_MIN, INT32_MIN});
        r.push_back({"iter", 32, false, [](Env &e) { return iter(e, 0, 3, false); }, Scalar, Loop, 0, 2});
        r.push_back({"iter+1", 32, false, [](Env &e) { return (*iter(e, 0, 3, false) + constant(1, 32)).shared_from_this(); }, Scalar, Loop, 1, 3});
        r.push_back({"struct", 3, false, [](Env &e) { auto &o = e.objs["sp"]; if (!o) o = e.g.port_packed(PortDirection::In, "sp", std::make_shared<PackedStruct>(strct(e))).shared_from_this(); return o; }});
    }
    return r;
}
static bool fits(int64_t v, int w, bool s) { if (w >= 63) return s || v >= 0; return s ? v >= -(1ll << (w - 1)) && v < (1ll << (w - 1)) : v >= 0 && v < (1ll << w); }
static bool fits(const Kind &k, int w, bool s) { return fits(k.lo, w, s) && fits(k.hi, w, s); }
// ---- snapshot of what the program can observe
static std::string snap(Env &e) {
    std::string r;
    std::map<std::string, VT> vs;
    for (auto &v : e.g.vars()) vs[v.first] = v.second;
    for (auto &v : vs) {
        if (v.first.empty()) continue;
        auto &x = *v.second;
        r += v.first + ":" + std::to_string(x.width()) + (x.is_signed() ? "s" : "u") + (x.is_packed() ? "p" : "n");
        for (auto d : x.size()) r += "," + std::to_string(d);
        r += " src" + std::to_string(x.sources().size()) + " snk" + std::to_string(x.sinks().size()) + ";";
    }
    r += " stmts" + std::to_string(e.g.stmts_count());
    return r;
}
static std::string operand(const VT &v) { return v->to_string() + " " + us((int)v->width(), v->is_signed()) + (v->is_packed() ? "p" : "n") + std::to_string(v->size().front()); }
static void put(Env &e, const std::shared_ptr<Stmt> &s) {
    if (e.loop) e.loop->get_loop_body()->add_stmt(s);
    else e.g.add_stmt(s);
}
static std::vector<std::pair<std::string, std::string>> finish(Env &e) {
    for (auto &p : minimal) run_pass(e.g, p);
    Emit em;
    return text(e.g, em);
}
// the text of the design when nothing was attempted
static std::string untouched(const std::function<void(Env &)> &build) {
    Env e;
    build(e);
    auto &z = e.g.port(PortDirection::Out, "zz", 1);
    e.g.add_stmt(z.assign(constant(1, 1)));
    if (e.loop) { auto &y = e.g.port(PortDirection::Out, "yy", 1); put(e, y.assign(constant(1, 1))); }
    return join(finish(e));
}
struct Want { int ok; int w; bool s; };   // ok: 1 accepted, 0 refused, -1 either
// the operation is attempted on the operands; what it reports has to be what the text says
static void attempt(mc::Ctx &c, const std::string &key, const std::string &what, const std::function<std::vector<VT>(Env &)> &build, const std::function<VT(Env &, std::vector<VT> &)> &op, Want want, bool emit = true) {
    Env e;
    std::vector<VT> v;
    try { v = build(e); } catch (std::exception &x) { c.fail("operand", what + ": " + x.what()); }
    std::string before = snap(e);
    std::vector<std::string> ob;
    for (auto &x : v) ob.push_back(operand(x));
    VT r;
    std::string err;
    try { r = op(e, v); if (r) (void)r->width(); } catch (UserException &x) { err = x.what(); r = nullptr; } catch (VarException &x) { err = x.what(); r = nullptr; } catch (StmtException &x) { err = x.what(); r = nullptr; }
    catch (std::exception &x) { c.fail("exception " + key, what + ": refused with an internal error: " + x.what()); }
    if (r && !r->generator()) c.fail("owner " + key, what + ": the result belongs to no generator");
    bool ok = r != nullptr;
    if (want.ok >= 0 && ok != (want.ok == 1)) c.fail((ok ? "accepted " : "refused ") + key, what + (ok ? ": accepted as " + r->to_string() : ": refused: " + err));
    for (size_t i = 0; i < v.size(); i++) if (operand(v[i]) != ob[i]) c.fail("operand " + key, what + ": changes operand " + ob[i] + " to " + operand(v[i]));
    if (snap(e) != before) c.fail("effect " + key, what + ": changes the design\n" + before + "\n" + snap(e));
    c.count(ok ? "accepted" : "refused");
    c.states(1);
    if (!ok) {
        auto &z = e.g.port(PortDirection::Out, "zz", 1);
        e.g.add_stmt(z.assign(constant(1, 1)));
        std::string got, exp;
        try {
            if (e.loop) { auto &y = e.g.port(PortDirection::Out, "yy", 1); put(e, y.assign(constant(1, 1))); }
            got = join(finish(e));
            exp = untouched([&](Env &x) { build(x); });
        } catch (rtl::Unsupported &) { throw; } catch (std::exception &x) { c.fail("after refusal " + key, what + ": the design cannot be emitted any more: " + x.what()); }
        if (got != exp) c.fail("after refusal " + key, what + ": the refused attempt changes the text\n" + got);
        c.trace();
        return;
    }
    int w = (int)r->width();
    bool s = r->is_signed();
    if (want.ok == 1 && (w != want.w || s != want.s)) c.fail("type " + key, what + ": " + r->to_string() + " reports " + us(w, s) + ", expected " + us(want.w, want.s));
    if (!emit || w > 126) { c.trace(); return; }
    try {
        std::string str = r->to_string();
        VT o;
        if (!r->is_packed() && (r->size().size() > 1 || r->size().front() > 1 || r->explicit_array())) { auto &q = e.g.port(PortDirection::Out, "o", r->var_width(), r->size(), PortType::Data, s); q.set_is_packed(false); if (r->explicit_array()) q.set_explicit_array(true); o = q.shared_from_this(); }
        else o = e.g.port(PortDirection::Out, "o", w, 1, PortType::Data, s).shared_from_this();
        put(e, o->assign(r));
        auto t = finish(e);
        auto d = elab(e.g, t);
        for (auto &n : d.notes) if (n.find("mismatch") != std::string::npos) c.fail("emitted type " + key, what + ": " + str + ": " + n + "\n" + join(t));
        auto it = d.rhs_types.find("o");
        if (it == d.rhs_types.end()) c.fail("emission", what + ": the assignment is gone\n" + join(t));
        bool un = !o->is_packed();
        bool plain = str == "vs1" || r->type() == VarType::ConstValue;   // a literal or a variable of the same width on its own: the sign cannot matter
        if (it->second.first != w || (!un && it->second.second != s && !plain)) c.fail("emitted type " + key, what + ": reports " + us(w, s) + " but the text has type " + us(it->second.first, it->second.second) + "\n" + join(t));
        c.outcome(mc::hash_str(str));
        c.trace();
        if (c.want_sample()) c.sample(what + "\n" + clip(join(t)));
    } catch (mc::Violation &) { throw; } catch (rtl::Unsupported &) { throw; } catch (std::exception &x) { c.fail("emission " + key, what + ": " + r->to_string() + ": " + x.what()); }
}
// ---- rules
static bool isarr(const Kind &k) { return k.sh != Scalar; }
static Want rule(B op, const Kind &a, const Kind &b) {
    bool shift = op == B::Shl || op == B::Shr || op == B::AShr;
    bool boolean = op == B::LAnd || op == B::LOr || (op >= B::Lt && op <= B::Ne);
    Want r{1, a.w, a.s};
    if (a.sh == Unpacked || b.sh == Unpacked) r.ok = (op == B::Eq || op == B::Ne) && a.sh == b.sh && a.elems == b.elems ? -1 : 0;   // IEEE 1800 11.2.2: otherwise not an operand
    bool ec = (a.n == "enum const" || b.n == "enum const") && a.w != b.w;
    int w = a.w;
    if (a.w != b.w) {
        if (shift && a.w > b.w) {
            w = a.w;
        } else {
            // a constant or a loop expression takes the width of the other side when no value is lost; a narrower operand is widened
            bool rigid = b.fx == Fixed || b.n == "iter+1";        // the right one stays
            bool afits = a.fx == Parm ? true : a.fx == Lit ? fits(a, b.w, a.s) : a.fx == Loop ? fits(a, b.w, b.s) : a.w <= b.w;
            bool bfits = b.fx == Parm ? true : b.fx == Lit ? fits(b, a.w, b.s) : b.fx == Loop ? fits(b, a.w, a.s) : b.w <= a.w;
            if (afits && rigid) w = b.w;
            else if (bfits) w = a.w;
            else r.ok = r.ok ? 0 : 0;
        }
    }
    if (ec && r.ok) r.ok = -1;
    r.w = boolean ? 1 : w;
    r.s = boolean ? false : shift || op == B::Pow ? a.s : a.s && b.s;
    return r;
}
static const std::vector<B> all_b = {B::Add, B::Sub, B::Mul, B::Div, B::Mod, B::Shr, B::AShr, B::Shl, B::Or, B::And, B::Xor, B::Lt, B::Gt, B::Le, B::Ge, B::Eq, B::Ne, B::LAnd, B::LOr, B::Pow};
static Expr &apply(B op, Var &a, Var &b) {
    switch (op) {
        case B::Add: return a + b; case B::Sub: return a - b; case B::Mul: return a * b; case B::Div: return a / b; case B::Mod: return a % b;
        case B::Shr: return a >> b; case B::AShr: return a.ashr(b); case B::Shl: return a << b; case B::Or: return a | b; case B::And: return a & b; case B::Xor: return a ^ b;
        case B::Lt: return a < b; case B::Gt: return a > b; case B::Le: return a <= b; case B::Ge: return a >= b; case B::Eq: return a.eq(b); case B::Ne: return a != b;
        case B::LAnd: return a && b; case B::LOr: return a || b; default: return a.pow(b);
    }
}
static void t_bin(mc::Ctx &c) {
    static const auto ks = kinds(true);
    auto &a = c.pick(ks, "left"), &b = c.pick(ks, "right");
    B op = c.pick(all_b, "op");
    if (op == B::Pow && (a.fx == Loop || b.fx == Loop)) c.skip();
    attempt(c, a.sh == Unpacked || b.sh == Unpacked ? "unpacked operand" : a.n + " " + b.n, "(" + a.n + ") " + bname(op) + " (" + b.n + ")", [&](Env &e) { auto x = a.make(e); auto y = b.make(e); return std::vector<VT>{x, y}; },
            [&](Env &, std::vector<VT> &v) { return apply(op, *v[0], *v[1]).shared_from_this(); }, rule(op, a, b), a.sh != Unpacked && b.sh != Unpacked);
}
static void t_mux(mc::Ctx &c) {
    static const auto ks = kinds(true);
    auto &a = c.pick(ks, "left"), &b = c.pick(ks, "right");
    auto r = rule(B::Add, a, b);
    static const auto cs = kinds(true);
    bool full = c.thorough;
    const Kind &k = full ? c.pick(cs, "condition") : cs[c.pick(std::vector<int>{0, 1, 2, 7, 17, 18, 21, 27, 31}, "condition")];
    if (k.w != 1) r.ok = 0;
    if (a.sh == Unpacked && b.sh == Unpacked && a.elems == b.elems && a.ew == b.ew) r.ok = k.w == 1 ? -1 : 0;   // IEEE 1800 11.4.11
    if (k.sh == Unpacked) r.ok = 0;
    attempt(c, a.sh == Unpacked || b.sh == Unpacked || k.sh == Unpacked ? "unpacked mux" : "mux " + a.n + " " + b.n, "(" + k.n + ") ? (" + a.n + ") : (" + b.n + ")", [&](Env &e) { auto z = k.make(e); auto x = a.make(e); auto y = b.make(e); return std::vector<VT>{z, x, y}; },
            [&](Env &, std::vector<VT> &v) { return util::mux(*v[0], *v[1], *v[2]); }, r);
}
static void t_un(mc::Ctx &c) {
    static const auto ks = kinds(true);
    auto &a = c.pick(ks, "operand");
    int op = c.choose(16, "op");
    Want r{1, a.w, a.s};
    std::string n;
    int p = 0, q = 0;
    std::function<VT(Var &)> f;
    const Kind *k2 = nullptr;
    bool emit = true;
    if (op < 7) {
        static const char *nm[] = {"~", "-", "+", "|", "&", "^", "!"};
        n = nm[op];
        if (op >= 3) { r.w = 1; r.s = false; }
        if (a.sh == Unpacked) r.ok = 0;
        f = [op](Var &v) -> VT { switch (op) { case 0: return (~v).shared_from_this(); case 1: return (-v).shared_from_this(); case 2: return (+v).shared_from_this(); case 3: return v.r_or().shared_from_this(); case 4: return v.r_and().shared_from_this(); case 5: return v.r_xor().shared_from_this(); default: return v.r_not().shared_from_this(); } };
    } else if (op == 7) {
        p = c.choose(6, "to");
        n = "extend " + std::to_string(p);
        r.w = p;
        if (p < a.w || isarr(a)) r.ok = 0;
        f = [p](Var &v) -> VT { return v.extend(p).shared_from_this(); };
    } else if (op == 8) {
        p = c.choose(4, "times");
        n = "duplicate " + std::to_string(p);
        r.w = p * a.w; r.s = false;
        if (p == 0 || a.sh == Unpacked) r.ok = 0;
        if (a.w == 32 && p == 3) r.w = 96;
        f = [p](Var &v) -> VT { return v.duplicate(p).shared_from_this(); };
    } else if (op == 9 || op == 10) {
        n = op == 9 ? "signed" : "unsigned";
        r.s = op == 9;
        if (a.sh == Unpacked) r.ok = -1;
        f = [op](Var &v) -> VT { return v.cast(op == 9 ? VarCastType::Signed : VarCastType::Unsigned); };
    } else if (op == 11) {
        p = 1 + c.choose(5, "to");
        n = "resize " + std::to_string(p);
        r.w = p;
        if (a.sh == Unpacked) r.ok = -1;
        if (a.sh == Packed) r.ok = -1;
        f = [p](Var &v) -> VT { auto x = v.cast(VarCastType::Resize); x->as<VarCasted>()->set_target_width(p); return x; };
    } else if (op == 12) {
        static const std::vector<VarCastType> ty = {VarCastType::Clock, VarCastType::AsyncReset, VarCastType::Reset, VarCastType::ClockEnable};
        p = c.choose(4, "kind");
        n = "cast to control kind " + std::to_string(p);
        r.s = false;
        if (a.w != 1 || isarr(a)) r.ok = 0;
        emit = !a.s;
        f = [p](Var &v) -> VT { return v.cast(ty[p]); };
    } else if (op == 13) {
        p = c.choose(5, "high"); q = c.choose(5, "low");
        n = "[" + std::to_string(p) + ":" + std::to_string(q) + "]";
        int lim = isarr(a) ? a.elems : a.w;
        if (q > p || p >= lim) r.ok = 0;
        r.w = (p - q + 1) * (isarr(a) ? a.ew : 1);
        // only plain objects can be selected from in SystemVerilog
        r.s = a.sh == Unpacked && p == q ? a.s : false;
        if (isarr(a) && p != q) r.s = a.s;
        if (isarr(a) && p != q) r.ok = r.ok ? -1 : 0;
        if (a.fx == Parm || a.n == "struct" || a.en) r.ok = r.ok ? -1 : 0;
        else if (a.fx == Lit || a.fx == Loop || a.n == "sum" || a.n == "ssum" || a.n == "less" || a.n == "cast s" || a.n == "cast u" || a.n == "extend" || a.n == "shrunk" || a.n == "dup" || a.n == "concat") r.ok = r.ok ? -1 : 0;
        f = [p, q](Var &v) -> VT { return v[{(uint32_t)p, (uint32_t)q}].shared_from_this(); };
    } else if (op == 14) {
        static const auto is = kinds(true);
        auto &i = c.pick(is, "index");
        k2 = &i;
        n = "[" + i.n + "]";
        int lim = isarr(a) ? a.elems : a.w, need = 0;
        while ((1 << need) < lim) need++;
        need = std::max(need, 1);
        r.w = isarr(a) ? a.ew : 1;
        r.s = a.sh == Unpacked && a.s;
        if (i.fx == Lit || i.sh == Unpacked || i.s) r.ok = -1;
        else if (i.fx == Loop) r.ok = i.hi < (1ll << need) ? 1 : 0;
        else if (i.w > need) r.ok = 0;
        if (lim == 1) r.ok = -1;
        if (a.fx != Fixed || a.n == "struct" || a.en || a.n == "sum" || a.n == "ssum" || a.n == "less" || a.n == "cast s" || a.n == "cast u" || a.n == "extend" || a.n == "shrunk" || a.n == "dup" || a.n == "concat") r.ok = r.ok ? -1 : 0;
        emit = r.ok == 1;
    } else {
        static const auto is = kinds(true);
        auto &i = c.pick(is, "second");
        k2 = &i;
        n = "concat " + i.n;
        r.w = a.w + i.w; r.s = false;
        if (a.s != i.s) r.ok = 0;
        if (a.n == "concat") { r.ok = i.s ? 1 : 0; }       // its parts are signed
        if (i.n == "concat") r.ok = a.n == "concat" ? 0 : a.s ? 0 : 1;
        if (a.sh == Unpacked || i.sh == Unpacked) r.ok = 0;
    }
    if (op != 14 && (a.sh == Unpacked || (k2 && k2->sh == Unpacked))) emit = false;
    std::string cls = op == 15 || op == 14 ? (op == 15 ? "concat" : "index") : n;
    attempt(c, op == 15 && (a.sh == Unpacked || k2->sh == Unpacked) ? "unpacked concat" : op == 12 ? "control cast" : op == 8 ? n : cls + " " + a.n, n + " of (" + a.n + ")", [&](Env &e) { std::vector<VT> v{a.make(e)}; if (k2) v.push_back(k2->make(e)); return v; },
            [&](Env &, std::vector<VT> &v) -> VT {
                if (op == 14) return (*v[0])[v[1]].shared_from_this();
                if (op == 15) return v[0]->concat(*v[1]).shared_from_this();
                return f(*v[0]);
            }, r, emit);
}
// ---- assignments
struct Target { Kind k; int assignable; };
static std::vector<Target> targets() {
    std::vector<Target> r;
    auto out = [](Env &e, const std::string &n, int w, bool s, std::vector<uint32_t> dims = {1}, bool packed = true) -> VT {
        auto &o = e.objs[n];
        if (!o) { auto &p = e.g.port(PortDirection::Out, n, w, dims, PortType::Data, s); p.set_is_packed(packed); if (!packed && dims[0] == 1) p.set_explicit_array(true); o = p.shared_from_this(); }
        return o;
    };
    for (int w : {1, 2, 3, 4}) for (bool s : {false, true}) r.push_back({{"o" + us(w, s), w, s, [=](Env &e) { return out(e, "o" + us(w, s), w, s); }}, 1});
    r.push_back({{"o slice", 2, false, [=](Env &e) { return (*out(e, "o", 4, true))[{2, 1}].shared_from_this(); }}, 1});
    r.push_back({{"o bit", 1, false, [=](Env &e) { return (*out(e, "o", 4, true))[0].shared_from_this(); }}, 1});
    r.push_back({{"o bit var", 1, false, [=](Env &e) { return (*out(e, "o", 4, true))[port(e, "t2", 2, false)].shared_from_this(); }}, 1});
    r.push_back({{"o parray", 4, false, [=](Env &e) { return out(e, "op", 2, false, {2}); }, Packed, Fixed, 0, 0, false, 2, 2}, 1});
    r.push_back({{"o uarray", 4, false, [=](Env &e) { return out(e, "ou", 2, false, {2}, false); }, Unpacked, Fixed, 0, 0, false, 2, 2}, 1});
    r.push_back({{"o uarray1", 2, false, [=](Env &e) { return out(e, "ou1", 2, false, {1}, false); }, Unpacked, Fixed, 0, 0, false, 1, 2}, 1});
    r.push_back({{"o elem", 2, false, [=](Env &e) { return (*out(e, "ou", 2, false, {2}, false))[1].shared_from_this(); }}, 1});
    r.push_back({{"o pelem s", 2, false, [=](Env &e) { return (*out(e, "os", 2, true, {2}))[1].shared_from_this(); }}, 1});
    r.push_back({{"o concat", 3, false, [=](Env &e) { return out(e, "c1", 1, true)->concat(*out(e, "c2", 2, true)).shared_from_this(); }}, 1});
    r.push_back({{"o enum", 2, false, [=](Env &e) { econst(e, "E", "A"); auto &o = e.objs["oe"]; if (!o) o = e.g.port(PortDirection::Out, "oe", e.ctx.enum_Defs().at("E")).shared_from_this(); return o; }, Scalar, Fixed, 0, 0, true}, 1});
    r.push_back({{"o struct", 3, false, [=](Env &e) { auto &o = e.objs["ost"]; if (!o) o = e.g.port_packed(PortDirection::Out, "ost", std::make_shared<PackedStruct>(strct(e))).shared_from_this(); return o; }}, 1});
    r.push_back({{"const", 2, false, [=](Env &) { return constant(2, 2).shared_from_this(); }}, 0});
    r.push_back({{"param", 2, false, [=](Env &e) { auto &o = e.objs["P"]; if (!o) { auto &p = e.g.parameter("P", 2); p.set_value(2); o = p.shared_from_this(); } return o; }}, 0});
    r.push_back({{"iter", 32, false, [=](Env &e) { return iter(e, 0, 3, false); }}, 0});
    r.push_back({{"sum", 2, false, [=](Env &e) { return (*out(e, "a2", 2, false) + *out(e, "b2", 2, false)).shared_from_this(); }}, 0});
    r.push_back({{"invert", 2, false, [=](Env &e) { return (~*out(e, "a2", 2, false)).shared_from_this(); }}, 0});
    r.push_back({{"extend", 3, false, [=](Env &e) { return out(e, "a2", 2, false)->extend(3).shared_from_this(); }}, 0});
    r.push_back({{"dup", 2, false, [=](Env &e) { return out(e, "a1", 1, false)->duplicate(2).shared_from_this(); }}, 0});
    r.push_back({{"mux", 2, false, [=](Env &e) { return util::mux(*out(e, "a1", 1, false), *out(e, "a2", 2, false), *out(e, "b2", 2, false)); }}, 0});
    r.push_back({{"concat with const", 3, false, [=](Env &e) { return out(e, "a1", 1, false)->concat(const_cast<Const &>(constant(1, 2))).shared_from_this(); }}, 0});
    r.push_back({{"concat with sum", 3, false, [=](Env &e) { auto p = (*out(e, "a2", 2, false) + *out(e, "b2", 2, false)).shared_from_this(); return out(e, "a1", 1, false)->concat(*p).shared_from_this(); }}, 0});
    r.push_back({{"enum const", 2, false, [=](Env &e) { return econst(e, "E", "A").shared_from_this(); }, Scalar, Fixed, 0, 0, true}, 0});
    return r;
}
static void t_assign(mc::Ctx &c) {
    static const auto ks = kinds(true);
    static const auto ts = targets();
    auto &t = c.pick(ts, "target");
    auto &b = c.pick(ks, "source");
    int style = c.choose(3, "style");
    int ok = t.assignable;
    if (ok && t.k.s != b.s) ok = 0;
    if (ok && t.k.w != b.w) {
        if (b.fx == Lit) ok = fits(b, t.k.w, b.s);
        else if (b.fx == Loop) ok = fits(b, t.k.w, t.k.s);
        else if (b.n == "enum const") ok = fits(2, t.k.w, false) ? -1 : 0;
        else if (b.fx == Parm) ok = -1;
        else ok = 0;
    }
    if (ok) {
        bool ua = t.k.sh == Unpacked, ub = b.sh == Unpacked;
        if (ua != ub) ok = 0;
        else if (ua && (t.k.elems != b.elems || t.k.ew != b.ew)) ok = 0;
    }
    if (ok && t.k.en && !b.en) ok = 0;
    std::string what = "(" + t.k.n + ") = (" + b.n + "), style " + std::to_string(style), key = t.k.n + " = " + b.n;
    Env e;
    VT l, r;
    try { l = t.k.make(e); r = b.make(e); } catch (std::exception &x) { c.fail("operand", what + ": " + x.what()); }
    std::string before = snap(e), ol = operand(l), orr = operand(r);
    std::shared_ptr<AssignStmt> st;
    std::string err;
    try { st = style == 0 ? l->assign(r) : l->assign(r, style == 1 ? AssignmentType::Blocking : AssignmentType::NonBlocking); } catch (UserException &x) { err = x.what(); } catch (VarException &x) { err = x.what(); } catch (StmtException &x) { err = x.what(); }
    catch (std::exception &x) { c.fail("exception " + key, what + ": refused with an internal error: " + x.what()); }
    bool got = st != nullptr;
    if (ok >= 0 && got != (ok == 1)) c.fail((got ? "accepted " : "refused ") + key, what + (got ? ": accepted" : ": refused: " + err));
    if (operand(l) != ol || operand(r) != orr) c.fail("operand " + key, what + ": changes an operand: " + ol + " " + orr + " to " + operand(l) + " " + operand(r));
    if (snap(e) != before) c.fail("effect " + key, what + ": changes the design before it is added");
    c.count(got ? "accepted" : "refused");
    c.states(1);
    auto build = [&](Env &x) { t.k.make(x); b.make(x); };
    if (!got) {
        try {
            auto &z = e.g.port(PortDirection::Out, "zz", 1);
            e.g.add_stmt(z.assign(constant(1, 1)));
            if (e.loop) { auto &y = e.g.port(PortDirection::Out, "yy", 1); put(e, y.assign(constant(1, 1))); }
            std::string a = join(finish(e));
            if (a != untouched(build)) c.fail("after refusal " + key, what + ": the refused attempt changes the text\n" + a);
        } catch (mc::Violation &) { throw; } catch (rtl::Unsupported &) { throw; } catch (std::exception &x) { c.fail("after refusal " + key, what + ": " + x.what()); }
        c.trace();
        return;
    }
    if (t.assignable == 0) { c.trace(); return; }
    if (!st->left() || st->left()->width() != st->right()->width() || st->left()->is_signed() != st->right()->is_signed()) c.fail("types " + key, what + ": the two sides of the statement have different types");
    try {
        if (style == 2 && e.loop) { c.trace(); return; }
        if (style == 2) {
            auto clk = e.g.port(PortDirection::In, "clk", 1, 1, PortType::Clock, false).shared_from_this();
            auto sq = e.g.sequential();
            sq->add_condition({EventEdgeType::Posedge, clk});
            sq->add_stmt(st);
        } else if (style == 1 || e.loop || t.k.n == "o bit var") {
            if (e.loop) e.loop->get_loop_body()->add_stmt(st);
            else e.g.combinational()->add_stmt(st);
        } else e.g.add_stmt(st);
        auto tx = finish(e);
        auto d = elab(e.g, tx);
        for (auto &n : d.notes) if (n.find("mismatch") != std::string::npos) c.fail("emitted type " + key, what + ": " + n + "\n" + join(tx));
        c.trace();
        c.outcome(mc::hash_str(join(tx)));
        if (c.want_sample()) c.sample(what + "\n" + clip(join(tx)));
    } catch (mc::Violation &) { throw; } catch (rtl::Unsupported &) { throw; } catch (std::exception &x) { c.fail("emission " + key, what + ": " + x.what()); }
}
// ---- two operations on top of each other
static void t_deep(mc::Ctx &c) {
    static const auto all = kinds(false);
    static std::vector<Kind> ks;
    if (ks.empty()) for (auto &k : all) if (k.n == "vu2" || k.n == "vs2" || k.n == "vu3" || k.n == "vs1" || k.n == "const 1u3" || k.n == "const -1s2" || k.n == "slice2" || k.n == "parray s" || k.n == "selem" || k.n == "cast s") ks.push_back(k);
    static const std::vector<B> some = {B::Add, B::Mul, B::AShr, B::Shl, B::Xor, B::Lt, B::Eq, B::LAnd};
    auto &a = c.pick(ks, "a"), &b = c.pick(ks, "b"), &d = c.pick(ks, "c");
    B o1 = c.pick(c.thorough ? all_b : some, "inner"), o2 = c.pick(some, "outer");
    bool left = c.flip("inner on the left");
    Want in = rule(o1, a, b);
    if (in.ok != 1) c.skip();
    Kind k;
    k.n = "inner"; k.w = in.w; k.s = in.s;
    k.sh = Scalar;
    Want w = left ? rule(o2, k, d) : rule(o2, d, k);
    int post = c.choose(4, "then");
    if (post == 1) w.s = w.s;
    if (post == 2) { w.s = !w.s; }
    if (post == 3 && !((left ? a : d).sh == Packed)) { w.w += 1; }
    if (post == 3 && (a.sh == Packed || b.sh == Packed || d.sh == Packed)) c.skip();   // the expression still counts as an array
    attempt(c, "deep", "nested " + a.n + " " + bname(o1) + " " + b.n + ", " + bname(o2) + " " + d.n + (left ? " right" : " left") + ", then " + std::to_string(post), [&](Env &e) { auto x = a.make(e), y = b.make(e), z = d.make(e); auto i = apply(o1, *x, *y).shared_from_this(); return std::vector<VT>{i, z}; },
            [&](Env &, std::vector<VT> &v) {
                auto r = (left ? apply(o2, *v[0], *v[1]) : apply(o2, *v[1], *v[0])).shared_from_this();
                if (post == 1) return (~*r).shared_from_this();
                if (post == 2) return r->cast(r->is_signed() ? VarCastType::Unsigned : VarCastType::Signed);
                if (post == 3 && (r->size().front() > 1)) return r;
                if (post == 3) return std::static_pointer_cast<Expr>(r)->extend(r->width() + 1).shared_from_this();
                return r;
            }, w);
}
// ---- everything else that checks types
static void t_other(mc::Ctx &c) {
    static const auto ks = kinds(true);
    auto &a = c.pick(ks, "operand");
    int form = c.choose(6, "form");
    Want w{1, a.w, a.s};
    std::string n;
    std::function<VT(Env &, std::vector<VT> &)> f;
    auto guarded = [](const std::function<void()> &g, const VT &v) { g(); return v; };
    std::function<std::vector<VT>(Env &)> mk = [&](Env &e) { return std::vector<VT>{a.make(e)}; };
    if (form == 0) {
        n = "edge of";
        w.ok = a.w == 1 && a.sh != Unpacked;
        if (a.fx == Lit) w.ok = -1;
        f = [=](Env &, std::vector<VT> &v) { EventControl ec(EventEdgeType::Posedge, *v[0]); return v[0]; };
    } else if (form == 1) {
        n = "function argument u2";
        w.ok = a.w == 2 && !a.s && a.sh != Unpacked;
        mk = [&](Env &e) { auto fn = e.g.function("f"); fn->input("x", 2, false); auto st = fn->return_stmt(constant(1, 1).shared_from_this()); fn->add_stmt(st); return std::vector<VT>{a.make(e)}; };
        f = [=](Env &e, std::vector<VT> &v) { e.g.call("f", std::map<std::string, VT>{{"x", v[0]}}); return v[0]; };
    } else if (form == 2) {
        n = "switch on";
        w.ok = a.fx == Lit || a.n == "enum const" ? 0 : a.sh == Unpacked ? 0 : 1;
        if (a.fx == Parm || a.fx == Loop || a.sh == Packed) w.ok = -1;
        f = [=](Env &e, std::vector<VT> &v) { e.keep.push_back(v[0]); auto s = std::make_shared<SwitchStmt>(*v[0]); return v[0]; };
        c.skip();
    } else if (form == 3) {
        n = "mux with an integer";
        int k = c.choose(5, "value") - 2;
        w.ok = a.sh == Unpacked ? 0 : fits(k, a.w, a.s);
        if (k < 0 && !a.s && a.w >= 64) w.ok = -1;   // 64-bit numbers are taken as bit patterns there
        w.s = a.s;
        f = [=](Env &e, std::vector<VT> &v) -> VT { return util::mux(*port(e, "vu1", 1, false), *v[0], k); };
        mk = [&](Env &e) { port(e, "vu1", 1, false); return std::vector<VT>{a.make(e)}; };
        if (a.fx == Loop) w.ok = -1;
    } else if (form == 4) {
        n = "child input u2 from";
        int dimc = c.choose(3, "child port");   // u2, unpacked [2] of 2 bits, packed [2] of 2
        bool un = dimc == 1;
        int cw = dimc ? 4 : 2;
        w.ok = a.w == cw && !a.s && (a.sh == Unpacked) == un && (!un || a.elems == 2);
        if (a.fx == Lit && dimc != 1 && !a.s) w.ok = a.w == cw ? 1 : -1;
        if (a.fx == Loop) c.skip();
        if (a.en) w.ok = -1;
        n += std::to_string(dimc);
        f = [=](Env &e, std::vector<VT> &v) -> VT {
            auto &ch = e.ctx.generator("kid");
            auto &p = dimc ? ch.port(PortDirection::In, "p", 2, 2, PortType::Data, false) : ch.port(PortDirection::In, "p", 2);
            if (un) p.set_is_packed(false);
            ch.instance_name = "k";
            e.g.wire(p, *v[0]);
            return v[0];
        };
        // wiring adds a statement; only acceptance is judged here
        Env e;
        std::vector<VT> v;
        try { v = mk(e); } catch (std::exception &x) { c.fail("operand", n + a.n + ": " + x.what()); }
        auto &ch = e.ctx.generator("kid");
        auto &p = dimc ? ch.port(PortDirection::In, "p", 2, 2, PortType::Data, false) : ch.port(PortDirection::In, "p", 2);
        if (un) p.set_is_packed(false);
        e.g.add_child_generator("k", ch.shared_from_this());
        std::string before = snap(e), err;
        bool ok = true;
        try { e.g.wire(p, *v[0]); } catch (UserException &x) { ok = false; err = x.what(); } catch (VarException &x) { ok = false; err = x.what(); } catch (StmtException &x) { ok = false; err = x.what(); }
        catch (std::exception &x) { c.fail("exception " + n, n + a.n + ": " + x.what()); }
        if (w.ok >= 0 && ok != (w.ok == 1)) c.fail((ok ? "accepted " : "refused ") + n + " " + a.n, n + " (" + a.n + ")" + (ok ? ": accepted" : ": refused: " + err));
        if (!ok && (snap(e) != before || !p.sources().empty())) c.fail("effect " + n, n + " (" + a.n + "): the refused connection leaves something behind");
        c.count(ok ? "accepted" : "refused");
        c.states(1);
        c.trace();
        return;
    } else {
        n = "return value of a function of type u2 used at";
        mk = [&](Env &e) { auto fn = e.g.function("f"); auto in = fn->input("x", a.w, a.s); fn->add_stmt(fn->return_stmt(in)); return std::vector<VT>{a.make(e)}; };
        w.ok = a.sh == Unpacked ? 0 : 1;
        if (isarr(a)) c.skip();
        if (a.fx == Loop) c.skip();
        f = [=](Env &e, std::vector<VT> &v) -> VT { return e.g.call("f", std::map<std::string, VT>{{"x", v[0]}}).shared_from_this(); };
    }
    attempt(c, n + " " + a.n, n + " (" + a.n + ")", mk, f, w, form == 3 || form == 5);
}
int main(int argc, char **argv) {
    std::cerr.rdbuf(nullptr);
    std::vector<mc::Family> f = {{"binary", t_bin, 3}, {"mux", t_mux, 3}, {"unary", t_un, 3}, {"assign", t_assign, 3}, {"nested", t_deep, 4}, {"other", t_other, 2}};
    return mc::run("C10", f, argc, argv, "model_checking", {"widths 1..4 (loop variables 32), one generator", "IEEE 1800 sizing rules as implemented in core/svelab.cc"});
}
