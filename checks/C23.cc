// C23: a constant is accepted exactly when it is representable, and the literal has its width, sign and value.
#include <iostream>
#include "dual.hh"
#include "util.hh"
using namespace dual;
using rtl::u128;
typedef __int128 i128;
static std::string dec(i128 v) { if (v < 0) return "-" + dec(-v); if (v < 10) return std::string(1, (char)('0' + (int)v)); return dec(v / 10) + (char)('0' + (int)(v % 10)); }
static bool representable(i128 v, uint32_t w, bool s) {
    if (w == 0) return false;
    if (s) return w > 120 || (v >= -((i128)1 << (w - 1)) && v < ((i128)1 << (w - 1)));
    return v >= 0 && (w > 120 || v < ((i128)1 << w));
}
static u128 mask(uint32_t w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
// what an integer argument means for a constant of that sign
static i128 meaning(int64_t v, bool s, uint32_t w) { return s || w < 64 ? (i128)v : (i128)(uint64_t)v; }
// the text of one design that uses the constant in every position
static void emitted(mc::Ctx &c, const kratos::Var &k, uint32_t w, bool s, i128 val, const std::string &what, bool positions = true) {
    if (w > 126) c.skip();
    kratos::Context ctx;
    auto &g = ctx.generator("mod");
    auto &v = const_cast<kratos::Var &>(k);
    std::map<std::string, u128> want;
    u128 bits = (u128)val & mask(w);
    auto out = [&](const std::string &n, uint32_t ow, bool os, kratos::Var &e, u128 x) {
        auto &o = g.port(PortDirection::Out, n, ow, 1, PortType::Data, os);
        g.add_stmt(o.assign(e.shared_from_this(), kratos::AssignmentType::Blocking));
        want[n] = x & mask(ow);
    };
    try {
        if (v.width() != w || v.is_signed() != s) c.fail("reported", what + ": reports width " + std::to_string(v.width()) + (v.is_signed() ? " signed" : " unsigned"));
        out("o", w, s, v, bits);
        if (positions) {
            auto &a = g.port(PortDirection::In, "a", w, 1, PortType::Data, s);
            out("less", 1, false, a < v, 0);
            out("above", 1, false, v < a, 0);
            out("sum", w, s, a + v, 0);
            out("wide", w + 2, s, v.extend(w + 2), 0);
            out("pair", w + 1, false, (s ? *v.cast(kratos::VarCastType::Unsigned) : v).concat(g.port(PortDirection::In, "b", 1)), 0);
        }
        for (auto &p : minimal) run_pass(g, p);
        Emit e;
        e.with_defs = false;
        auto t = text(g, e);
        auto d = elab(g, t);
        rtl::Sim sim(d);
            sim.init(0);
        auto sx = [&](u128 x, uint32_t ww) -> i128 { return s && (x >> (ww - 1) & 1) ? (i128)(x | ~mask(ww)) : (i128)x; };
        std::vector<u128> as = positions ? std::vector<u128>{0, 1, mask(w), mask(w) >> 1, (mask(w) >> 1) + 1, bits, (bits + 1) & mask(w), (bits - 1) & mask(w)} : std::vector<u128>{0};
        for (auto a : as) {
            for (int b = 0; b < (positions ? 2 : 1); b++) {
                if (positions) {
                    sim.set(d.find("a"), a);
                    sim.set(d.find("b"), b);
                    i128 av = sx(a, w), cv = sx(bits, w);
                    bool u = !s;
                    want["less"] = u ? (u128)av < (u128)cv : av < cv;
                    want["above"] = u ? (u128)cv < (u128)av : cv < av;
                    want["sum"] = (a + bits) & mask(w);
                    want["wide"] = (u128)cv & mask(w + 2);
                    want["pair"] = bits << 1 | (u128)b;
                }
                sim.settle();
                c.trans(1);
                for (auto &x : want) {
                    u128 got = sim.get(d.find(x.first));
                    if (got != x.second) c.fail("value", what + ": " + x.first + " is " + dec((i128)got) + ", expected " + dec((i128)x.second) + "\n" + join(t));
                }
            }
        }
        c.states(as.size());
        c.trace();
        c.outcome(mc::hash_str(v.to_string()));
        if (c.want_sample()) c.sample(what + "\n" + clip(join(t)));
    } catch (mc::Violation &) { throw; } catch (mc::Skip &) { throw; } catch (rtl::Unsupported &) { throw; } catch (std::exception &x) { c.fail("emission", what + ": " + x.what()); }
}
static std::vector<int64_t> values(uint32_t w, bool all) {
    std::set<int64_t> r;
    if (w <= 7 && all) for (int64_t i = -(2 << w) - 2; i <= (2 << w) + 2; i++) r.insert(i);
    for (uint32_t k : {0u, w - 1, w, w + 1, 31u, 32u, 62u, 63u}) if (k < 64) for (int64_t d : {-1, 0, 1}) {
        uint64_t p = 1ull << k;
        r.insert((int64_t)(p + (uint64_t)d));
        r.insert((int64_t)(0 - p + (uint64_t)d));
    }
    return {r.begin(), r.end()};
}
static const std::vector<uint32_t> widths = [] { std::vector<uint32_t> r; for (uint32_t i = 0; i < 70; i++) r.push_back(i); for (uint32_t i : {80, 96, 119, 120}) r.push_back(i); return r; }();
// one constant made in each way
static void t_make(mc::Ctx &c) {
    int way = c.choose(3, "way");
    uint32_t w = c.pick(widths, "width");
    bool s = c.flip("signed");
    auto vs = values(w, true);
    int64_t v = vs[c.choose((int)vs.size(), "value")];
    std::string what = std::string(s ? "signed " : "") + std::to_string(v) + " in " + std::to_string(w) + " bits, way " + std::to_string(way);
    bool ok = representable(meaning(v, s, w), w, s);
    if (way == 0) {
        const kratos::Const *k = nullptr;
        try { k = &kratos::constant(v, w, s); } catch (kratos::UserException &) {} catch (kratos::VarException &) {}
        if (ok != (k != nullptr)) c.fail("accept " + what, what + (ok ? ": refused" : ": accepted as " + k->to_string()));
        c.count(ok ? "accepted" : "refused");
        if (!k) { c.trace(); return; }
        if (k->value() != v) c.fail("value", what + ": value() is " + std::to_string(k->value()));
        emitted(c, *k, w, s, meaning(v, s, w), what);
    } else if (way == 1) {
        // an operator with an integer operand
        if (w == 0) c.skip();
        kratos::Context ctx;
        auto &g = ctx.generator("mod");
        auto &a = g.var("a", w, 1, s);
        auto &cond = g.var("c", 1);
        std::shared_ptr<kratos::Expr> e;
        bool left = c.flip("left operand");
        try { e = left ? kratos::util::mux(cond, v, a) : kratos::util::mux(cond, a, v); } catch (kratos::UserException &) {} catch (kratos::VarException &) {}
        if (ok != (e != nullptr)) c.fail("accept " + what, what + (ok ? ": refused as an operand" : ": accepted as an operand: " + e->to_string()));
        c.count(ok ? "accepted" : "refused");
        c.trace();
        if (e && (e->width() != w || e->is_signed() != s)) c.fail("reported", what + ": the expression has other width or sign");
        if (e) emitted(c, *(left ? e->left : e->right), w, s, meaning(v, s, w), what);
    } else {
        // the value of a parameter
        if (w == 0) c.skip();
        kratos::Context ctx;
        auto &g = ctx.generator("mod");
        auto &p = g.parameter("P", w, s);
        bool took = true;
        try { p.set_value(v); } catch (kratos::UserException &) { took = false; } catch (kratos::VarException &) { took = false; }
        if (ok != took) c.fail("accept " + what, what + (ok ? ": refused as a parameter's value" : ": accepted as a parameter's value"));
        c.count(took ? "accepted" : "refused");
        if (!took) { c.trace(); return; }
        auto &o = g.port(PortDirection::Out, "o", w, 1, PortType::Data, s);
        g.add_stmt(o.assign(p.shared_from_this(), kratos::AssignmentType::Blocking));
        auto &a = g.port(PortDirection::In, "a", w, 1, PortType::Data, s);
        auto &l = g.port(PortDirection::Out, "less", 1);
        g.add_stmt(l.assign((a < p).shared_from_this(), kratos::AssignmentType::Blocking));
        for (auto &q : minimal) run_pass(g, q);
        Emit em;
        em.with_defs = false;
        auto t = text(g, em);
        accepted(c, "emission", what, [&] {
            auto d = elab(g, t);
            rtl::Sim sim(d);
            sim.init(0);
            u128 bits = (u128)meaning(v, s, w) & mask(w);
            auto sx = [&](u128 x) -> i128 { return s && (x >> (w - 1) & 1) ? (i128)(x | ~mask(w)) : (i128)x; };
            for (u128 av : {(u128)0, mask(w), mask(w) >> 1, (mask(w) >> 1) + 1}) {
                sim.set(d.find("a"), av);
                sim.settle();
                c.trans(1);
                if (sim.get(d.find("o")) != bits) c.fail("value", what + ": the parameter reads " + dec((i128)sim.get(d.find("o"))) + "\n" + join(t));
                bool less = s ? sx(av) < sx(bits) : av < bits;
                if (sim.get(d.find("less")) != less) c.fail("value", what + ": compared wrongly\n" + join(t));
            }
        });
        c.states(1);
        c.trace();
    }
}
// changes of value and width in every order
static void t_change(mc::Ctx &c) {
    bool s = c.flip("signed");
    struct M { i128 v; uint32_t w; } m;
    static const std::vector<int64_t> vs = {0, 1, -1, 2, -2, 3, 7, -8, 8, INT64_MAX, INT64_MIN};
    static const std::vector<uint32_t> ws = {1, 2, 4, 63, 64, 65, 0};
    m.w = c.pick(std::vector<uint32_t>{1, 3, 4, 64, 80}, "width");
    bool big = m.w == 80 && c.flip("big number");
    kratos::Const *k;
    std::string what;
    if (big) {
        k = &kratos::Const::constant("10000000000000000F", 69, false, m.w, s);
        m.v = ((i128)1 << 68) | 15;
        what = "big in 80 bits";
    } else {
        k = &kratos::Const::constant(0, m.w, s);
        m.v = 0;
        what = "0 in " + std::to_string(m.w) + " bits";
    }
    if (s) what += " signed";
    int n = c.thorough ? 4 : 3;
    for (int i = 0; i < n; i++) {
        int op = c.choose(3, "operation");
        if (op == 0) {
            int64_t v = vs[c.choose((int)vs.size(), "value")];
            bool ok = representable(meaning(v, s, m.w), m.w, s), took = true;
            what += ", set_value(" + std::to_string(v) + ")";
            try { k->set_value(v); } catch (kratos::UserException &) { took = false; } catch (kratos::VarException &) { took = false; }
            if (ok != took) c.fail("accept " + what, what + (ok ? ": refused" : ": accepted"));
            if (took) m.v = meaning(v, s, m.w);
        } else if (op == 1) {
            uint32_t w = ws[c.choose((int)ws.size(), "width")];
            bool ok = representable(m.v, w, s), took = true;
            what += ", set_width(" + std::to_string(w) + ")";
            try { k->set_width(w); } catch (kratos::UserException &) { took = false; } catch (kratos::VarException &) { took = false; }
            if (ok != took) c.fail("accept " + what, what + (ok ? ": refused" : ": accepted"));
            if (took) m.w = w;
        } else {
            static const std::vector<std::string> ss = {"A", "AB", "ABCDEFG", "ABCDEFGH", "ABCDEFGHI"};
            auto &x = c.pick(ss, "string");
            u128 v = 0;
            for (unsigned char ch : x) v = v << 8 | ch;
            bool ok = x.size() <= 8 && representable((i128)v, m.w, s), took = true;
            what += ", set_value(\"" + x + "\")";
            try { k->set_value(x); } catch (kratos::UserException &) { took = false; } catch (kratos::VarException &) { took = false; }
            if (ok != took) c.fail("accept " + what, what + (ok ? ": refused" : ": accepted"));
            if (took) m.v = (i128)v;
        }
    }
    emitted(c, *k, m.w, s, m.v, what, false);
}
// numbers beyond 64 bits
static void t_big(mc::Ctx &c) {
    static const std::vector<std::string> hs = {"0", "1", "FF", "7fffffffffffffff", "8000000000000000", "FFFFFFFFFFFFFFFF", "10000000000000000", "1FFFFFFFFFFFFFFFF", "20000000000000000", "3FFFFFFFFFFFFFFFF",
        "40000000000000000", "0000000001FFFFFFFFFFFFFFFF", "7fffffffffffffffffffffffffff", "8000000000000000000000000000", "FFFFFFFFFFFFFFFFFFFFFFFFFFFF", "800000000000000000000000000000"};
    static const std::vector<uint32_t> ws = {1, 8, 32, 63, 64, 65, 66, 67, 111, 112, 113, 120};
    auto &h = c.pick(hs, "digits");
    uint32_t w = c.pick(ws, "width");
    bool s = c.flip("signed"), neg = c.flip("negative");
    i128 v = 0;
    for (char ch : h) v = v * 16 + (ch <= '9' ? ch - '0' : (ch | 32) - 'a' + 10);
    uint32_t nb = 0;
    for (i128 x = v; x; x >>= 1) nb++;
    if (neg) v = -v;
    std::string what = std::string(s ? "signed " : "") + (neg ? "-0x" : "0x") + h + " in " + std::to_string(w) + " bits";
    bool ok = representable(v, w, s);
    const kratos::Const *k = nullptr;
    try { k = &kratos::Const::constant(h, nb, neg, w, s); } catch (kratos::UserException &) {} catch (kratos::VarException &) {} catch (std::invalid_argument &) {}
    if (ok != (k != nullptr)) c.fail("accept " + what, what + (ok ? ": refused" : ": accepted as " + k->to_string()));
    c.count(ok ? "accepted" : "refused");
    if (!k) { c.trace(); return; }
    emitted(c, *k, w, s, v, what);
}
// enumeration values
static void t_enum(mc::Ctx &c) {
    uint32_t w = c.pick(std::vector<uint32_t>{1, 2, 3, 8, 63, 64}, "width");
    auto vs = values(w, false);
    int64_t v = vs[c.choose((int)vs.size(), "value")];
    kratos::Context ctx;
    auto &g = ctx.generator("mod");
    std::string what = "enumeration value " + std::to_string(v) + " in " + std::to_string(w) + " bits";
    bool ok = representable(meaning(v, false, w), w, false), took = true;
    kratos::Enum *e = nullptr;
    try { e = &g.enum_("col", {{"R", (uint64_t)v}, {"G", v == 0 ? 1 : 0}}, w); } catch (kratos::UserException &) { took = false; } catch (kratos::VarException &) { took = false; }
    if (ok != took) c.fail("accept " + what, what + (ok ? ": refused" : ": accepted"));
    c.count(took ? "accepted" : "refused");
    c.trace();
    if (!took) return;
    auto &ev = g.enum_var("st", e->shared_from_this());
    auto &o = g.port(PortDirection::Out, "o", w);
    g.add_stmt(ev.assign(e->get_enum("R"), kratos::AssignmentType::Blocking));
    g.add_stmt(o.assign(ev.shared_from_this(), kratos::AssignmentType::Blocking));
    for (auto &q : minimal) run_pass(g, q);
    auto t = text(g, Emit());
    accepted(c, "emission", what, [&] {
        auto d = elab(g, t);
        rtl::Sim sim(d);
            sim.init(0);
        sim.settle();
        c.trans(1);
        if (sim.get(d.find("o")) != ((u128)v & mask(w))) c.fail("value", what + ": reads " + dec((i128)sim.get(d.find("o"))) + "\n" + join(t));
    });
    c.states(1);
}
int main(int argc, char **argv) {
    std::cerr.rdbuf(nullptr);
    return mc::run("C23", {{"make", t_make, 4}, {"change", t_change, 4}, {"big", t_big, 3}, {"enum", t_enum, 2}}, argc, argv, "model_checking",
                   {"values around every power-of-two boundary (all values for widths up to 7), every width up to 69 and some up to 120 bits; sequences of up to 3 changes (4 in thorough)"});
}
