// C17: what is reported and emitted depends on the program alone: not on where objects are in memory, on which
// other contexts are alive, on what has run before in the process, or on the number of workers.
#include <algorithm>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <new>
#include <unistd.h>
#include "jobs.hh"
#include "cxxpool.h"
#include "fault.hh"
// ---- memory layouts: slots of fixed size classes, handed out in an order that the layout determines
namespace layout {
constexpr int CLASSES = 64, STEP = 32, CHUNK = 512;
enum { Up, Down, Outward, Strided, Swapped, Late, Scattered, COUNT = Scattered + 24 };
static std::string name(int l) {
    static const char *names[] = {"ascending addresses", "descending addresses", "alternating ends", "strided addresses", "pairs swapped", "ascending addresses in blocks taken from the end"};
    return l < Scattered ? names[l] : "scattered addresses (permutation " + std::to_string(l - Scattered) + ")";
}
struct Head { uint32_t cls, magic; uint64_t pad; };
static int current = -1;
static std::vector<char *, std::allocator<char *>> *dummy;
struct Pool { char **slots = nullptr; size_t n = 0, cap = 0, next = 0; char **back = nullptr; size_t nback = 0, capback = 0; };
static Pool pools[CLASSES + 1];
static void push(char **&v, size_t &n, size_t &cap, char *p) { if (n == cap) { cap = cap ? cap * 2 : 256; v = (char **)realloc(v, cap * sizeof(char *)); } v[n++] = p; }
static size_t size_of(int c) { return sizeof(Head) + (size_t)c * STEP; }
static void arrange(Pool &p) {
    // what is free, in the order of the layout
    for (size_t i = 0; i < p.nback; i++) push(p.slots, p.n, p.cap, p.back[i]);
    p.nback = 0;
    size_t n = p.n - p.next;
    char **s = p.slots + p.next;
    std::sort(s, s + n);
    if (p.next) { memmove(p.slots, s, n * sizeof(char *)); p.n = n; p.next = 0; s = p.slots; }
    static char **t; static size_t tc;
    if (tc < n) { tc = n * 2; t = (char **)realloc(t, tc * sizeof(char *)); }
    for (size_t i = 0; i < n; i++) {
        size_t k = i;
        switch (current) {
            case Down: k = n - 1 - i; break;
            case Outward: k = i % 2 ? n - 1 - i / 2 : i / 2; break;
            case Strided: { size_t st = 7, rows = (n + st - 1) / st; (void)rows; size_t c = 0; size_t x = i; for (size_t r = 0; r < st; r++) { size_t len = (n - r + st - 1) / st; if (x < len) { c = r + x * st; break; } x -= len; } k = c; break; }
            case Swapped: k = (i ^ 1) < n ? i ^ 1 : i; break;
            case Late: { size_t b = 8, blocks = n / b; k = i / b < blocks ? (blocks - 1 - i / b) * b + i % b : i; break; }
            default: break;
        }
        t[i] = s[k];
    }
    memcpy(s, t, n * sizeof(char *));
    if (current >= Scattered) {
        // one fixed permutation per layout
        uint64_t r = 0x9e3779b97f4a7c15ull * (uint64_t)(current - Scattered + 1);
        for (size_t i = n; i > 1; i--) { r ^= r << 13; r ^= r >> 7; r ^= r << 17; std::swap(s[i - 1], s[r % i]); }
    }
}
static void refill(int c) {
    auto &p = pools[c];
    if (p.nback && current < 0) { arrange(p); return; }
    char *b = (char *)malloc(size_of(c) * CHUNK);
    for (int i = 0; i < CHUNK; i++) push(p.slots, p.n, p.cap, b + i * size_of(c));
    arrange(p);
}
// a fresh view of all free memory; enough slots that none has to be added while the program runs
static void start(int which) {
    current = which;
    for (int c = 1; c <= CLASSES; c++) {
        auto &p = pools[c];
        size_t want = c <= 8 ? 3000 : c <= 24 ? 1200 : 200;
        while (p.n - p.next + p.nback < want) {
            char *b = (char *)malloc(size_of(c) * CHUNK);
            for (int i = 0; i < CHUNK; i++) push(p.slots, p.n, p.cap, b + i * size_of(c));
        }
        arrange(p);
    }
}
static void *get(size_t n) {
    if (current < 0 || n > (size_t)CLASSES * STEP) {
        auto *h = (Head *)malloc(n + sizeof(Head));
        if (!h) throw std::bad_alloc();
        h->cls = 0; h->magic = 0x4b52;
        return h + 1;
    }
    int c = (int)((n + STEP - 1) / STEP);
    if (!c) c = 1;
    auto &p = pools[c];
    if (p.next == p.n) refill(c);
    auto *h = (Head *)p.slots[p.next++];
    h->cls = c; h->magic = 0x4b52;
    return h + 1;
}
static void put(void *q) {
    if (!q) return;
    auto *h = (Head *)q - 1;
    if (!h->cls) { free(h); return; }
    auto &p = pools[h->cls];
    push(p.back, p.nback, p.capback, (char *)h);
}
}  // namespace layout
void *operator new(size_t n) { return layout::get(n); }
void *operator new[](size_t n) { return layout::get(n); }
void operator delete(void *p) noexcept { layout::put(p); }
void operator delete[](void *p) noexcept { layout::put(p); }
void operator delete(void *p, size_t) noexcept { layout::put(p); }
void operator delete[](void *p, size_t) noexcept { layout::put(p); }

// ---- designs with many equal-looking things to order
using kitchen::P; using kitchen::K;
static const std::vector<std::string> spicy{"machine", "nested machine", "bus", "fan out", "functions", "parameters", "types", "copies", "offenders", "events", "array", "bundle", "slices", "mealy", "tie", "latches", "unset outputs", "foreign outputs"};
static void add_fsm(Generator &g, const std::string &n, Var &clk, Var &rst, const std::vector<Var *> &ins, const std::vector<Var *> &outs, bool moore, FSM *into = nullptr) {
    auto &f = into ? *into : g.fsm(n, P(clk), P(rst));
    f.set_moore(moore);
    f.set_reset_high(false);
    for (auto *o : outs) f.output(P(*o), P(K(1, o->width())));
    std::vector<std::shared_ptr<FSMState>> s;
    for (int i = 0; i < 4; i++) s.push_back(f.add_state(n + "S" + std::to_string((i * 3 + 1) % 4)));
    for (int i = 0; i < 4; i++) {
        for (size_t k = 0; k < ins.size(); k++) s[i]->next(s[(i + k + 1) % 4], P(*ins[k]));
        for (size_t k = 0; k < outs.size(); k++) if (i && (i + k) % 3) s[i]->output(P(*outs[k]), P(K((i + k) & 1, outs[k]->width())));
    }
    f.set_start_state(s[1]);
}
struct Made { Generator *top; std::vector<FSM *> fsm; };
static Made make(Context &c, const std::string &kind) {
    auto &t = c.generator("top");
    Made m{&t, {}};
    auto &clk = t.port(PortDirection::In, "clk", 1, 1, PortType::Clock, false);
    auto &rst = t.port(PortDirection::In, "rst_n", 1, 1, PortType::AsyncReset, false);
    auto &a = t.port(PortDirection::In, "a", 4), &b = t.port(PortDirection::In, "b", 4);
    auto &x = t.port(PortDirection::In, "x", 1), &y = t.port(PortDirection::In, "y", 1), &z = t.port(PortDirection::In, "z", 1);
    auto out = [&](Generator &g, const std::string &n, uint32_t w) -> Port & { return g.port(PortDirection::Out, n, w); };
    auto in = [&](Generator &g, const std::string &n, uint32_t w) -> Port & { return g.port(PortDirection::In, n, w); };
    auto child = [&](const std::string &mod, const std::string &inst) -> Generator & { auto &g = c.generator(mod); t.add_child_generator(inst, g.shared_from_this()); return g; };
    if (kind == "machine" || kind == "mealy" || kind == "nested machine") {
        std::vector<Var *> o;
        for (auto *n : {"p", "q", "r", "s", "u"}) o.push_back(&out(t, n, 1));
        add_fsm(t, "Main", clk, rst, {&x, &y, &z}, o, kind != "mealy");
        m.fsm.push_back(t.fsms().at("Main").get());
        if (kind[0] == 'n') {
            auto &f = *m.fsm[0];
            for (auto *n : {"Left", "Right", "Third"}) {
                std::vector<Var *> o2(o.begin(), o.begin() + 2);
                auto &k = t.fsm(n, P(clk), P(rst));
                f.add_child_fsm(&k);
                add_fsm(t, n, clk, rst, {&y, &z}, o2, true, &k);
                m.fsm.push_back(&k);
            }
            int i = 0;
            for (auto *n : {"Left", "Right", "Third"}) for (auto &[sn, s] : f.states()) { if (i++ % 2) s->next(t.fsms().at(n)->states().begin()->second, P(a.eq(K(i & 15, 4)))); }
        } else {
            std::vector<Var *> o2;
            for (auto *n : {"v", "w"}) o2.push_back(&out(t, n, 2));
            add_fsm(t, "Also", clk, rst, {&z, &x}, o2, true);
            m.fsm.push_back(t.fsms().at("Also").get());
        }
    } else if (kind == "unset outputs" || kind == "foreign outputs") {
        auto &f = t.fsm("Main", P(clk), P(rst));
        std::vector<Var *> o;
        for (auto *n : {"p", "q", "r", "s", "u", "v", "w"}) o.push_back(&out(t, n, 2));
        for (auto *v : o) if (kind[0] == 'u' || v == o[0]) f.output(P(*v));
        auto s0 = f.add_state("A"), s1 = f.add_state("B");
        s0->next(s1, nullptr); s1->next(s0, nullptr);
        if (kind[0] == 'f') for (auto *v : o) { s0->output(P(*v), P(K(1, 2))); s1->output(P(*v), P(K(2, 2))); }
        f.set_start_state(s0);
        m.fsm.push_back(&f);
    } else if (kind == "latches") {
        auto s = t.combinational();
        auto q = t.sequential(); q->add_condition({EventEdgeType::Posedge, P(clk)}); q->add_condition({EventEdgeType::Negedge, P(rst)});
        auto i = std::make_shared<IfStmt>(P(x));
        s->add_stmt(i);
        for (int k = 0; k < 6; k++) {
            auto n = std::to_string(k);
            auto &v = out(t, "v" + n, 4), &w = out(t, "w" + n, 4);
            i->add_then_stmt(v.assign(a));
            auto j = std::make_shared<IfStmt>(P(rst.r_not()));
            j->add_then_stmt(w.assign(b));
            q->add_stmt(j);
        }
    } else if (kind == "bus") {
        auto def = std::make_shared<InterfaceDefinition>("Bus");
        def->input("req", 2, 1); def->output("ack", 2, 1); def->var("data", 4);
        auto rd = def->create_modport_def("R"), wr = def->create_modport_def("W");
        rd->set_input("data"); wr->set_output("data");
        auto def2 = std::make_shared<InterfaceDefinition>("Aux");
        def2->var("flag", 1);
        auto fr = def2->create_modport_def("R"); fr->set_input("flag");
        auto i1 = t.interface(def, "bus0", false), i2 = t.interface(def, "bus1", false), i3 = t.interface(def2, "aux", false);
        (void)i3;
        for (int k = 0; k < 2; k++) {
            auto &w = child("w" + std::to_string(k), "uw" + std::to_string(k));
            auto &r = child("r" + std::to_string(k), "ur" + std::to_string(k));
            auto wp = w.interface(wr, "o", true), rp = r.interface(rd, "i", true);
            auto &d = in(w, "d", 4); w.add_stmt(wp->port("data").assign(d));
            auto &o = out(r, "o", 4); r.add_stmt(o.assign(rp->port("data")));
            auto i = k ? i2 : i1;
            t.wire_interface(i->get_modport_ref("W"), wp);
            t.wire_interface(i->get_modport_ref("R"), rp);
            t.add_stmt(d.assign(k ? a : b));
            t.add_stmt(out(t, "o" + std::to_string(k), 4).assign(o));
        }
    } else if (kind == "fan out") {
        auto &s = child("src", "u_src");
        auto &si = in(s, "i", 4), &so = out(s, "o", 4);
        s.add_stmt(so.assign(~si));
        t.add_stmt(si.assign(a));
        Var *acc = &b;
        for (int k = 0; k < 4; k++) {
            auto &g = child("dst" + std::to_string(k % 2), "u" + std::to_string(k));
            auto &i = in(g, "i", 4), &o = out(g, "o", 4);
            g.add_stmt(o.assign(k % 2 ? i + K(1, 4) : i - K(1, 4)));
            t.add_stmt(i.assign(k == 3 ? static_cast<Var &>(so + b) : so));
            auto &w = t.var("w" + std::to_string(k), 4);
            t.add_stmt(w.assign(o));
            acc = &(*acc ^ w);
        }
        t.add_stmt(out(t, "o", 4).assign(*acc));
        t.add_stmt(out(t, "p", 2).assign(so[{2, 1}]));
        t.add_stmt(out(t, "q", 4).assign(so));
        t.add_stmt(out(t, "r", 4).assign(so));
    } else if (kind == "functions") {
        for (auto *n : {"fa", "fb", "fc"}) {
            auto f = t.function(n);
            auto i = f->input("i", 4, false), j = f->input("j", 4, false);
            f->create_function_handler(4, false); f->set_has_return_value(true);
            f->add_stmt(f->return_stmt(P(*i + *j)));
            std::map<std::string, std::shared_ptr<Var>> m1{{"i", P(a)}, {"j", P(b)}};
            t.add_stmt(out(t, std::string("o_") + n, 4).assign(t.call(n, m1)));
            m1["i"] = P(b);
            t.add_stmt(out(t, std::string("p_") + n, 4).assign(t.call(n, m1)));
        }
        for (auto *n : {"da", "db", "dc"}) {
            auto f = t.dpi_function(n);
            f->set_return_width(4);
            f->input("i", 4, false);
            std::map<std::string, std::shared_ptr<Var>> m1{{"i", P(a)}};
            t.add_stmt(out(t, std::string("o_") + n, 4).assign(t.call(n, m1)));
        }
        for (auto *n : {"pa", "pb", "pc"}) t.property(n, std::make_shared<Sequence>(P(x)))->edge(EventEdgeType::Posedge, P(clk));
    } else if (kind == "parameters") {
        auto &p = t.parameter("W", 4, false), &q = t.parameter("X", 3, false), &r = t.parameter("A", 4, false);
        p.set_initial_value(4); q.set_initial_value(3); r.set_initial_value(7);
        p.set_value(4); q.set_value(3); r.set_value(7);
        for (int k = 0; k < 3; k++) {
            auto &g = child("k", "u" + std::to_string(k));
            auto &gp = g.parameter("N", 4, false), &gq = g.parameter("M", 4, false);
            gp.set_initial_value(4); gq.set_initial_value(4);
            gp.set_value(4); gq.set_value(4);
            auto &i = in(g, "i", 4), &o = out(g, "o", 4), &j = in(g, "j", 4);
            i.set_width_param(P(gp)); o.set_width_param(P(gp));
            g.add_stmt(o.assign(i + gq));
            gp.set_value(p.as<Param>()); if (k == 1) gq.set_value(r.as<Param>()); else gq.set_value(5 + k);
            t.add_stmt(i.assign(a)); t.add_stmt(j.assign(b));
            t.add_stmt(out(t, "o" + std::to_string(k), 4).assign(o));
        }
        for (int k = 0; k < 3; k++) { auto &v = t.var("v" + std::to_string(k), 4); v.set_width_param(P(p)); t.add_stmt(v.assign(a)); }
    } else if (kind == "types") {
        std::vector<std::shared_ptr<PackedStruct>> st;
        for (auto *n : {"zz_t", "aa_t", "mm_t"}) st.push_back(std::make_shared<PackedStruct>(n, std::vector<std::tuple<std::string, uint32_t, bool>>{{"f", 2, false}, {"e", 2, false}}));
        std::vector<Enum *> en;
        for (auto *n : {"Ze", "Ae", "Me"}) en.push_back(&c.enum_(n, {{std::string(n) + "B", 1}, {std::string(n) + "A", 0}, {std::string(n) + "C", 2}}, 2));
        for (int k = 0; k < 3; k++) {
            auto &g = child("k" + std::to_string(k), "u" + std::to_string(k));
            auto &i = in(g, "i", 4), &o = out(g, "o", 4);
            for (auto &s : st) { auto &v = g.var_packed("v_" + s->struct_name, s); g.add_stmt(v.assign(i)); }
            g.add_stmt(o.assign(*g.get_var("v_zz_t") ^ *g.get_var("v_mm_t")));
            for (auto *e : en) { auto &v = g.enum_var("e_" + e->name, e->shared_from_this()); g.add_stmt(v.assign(*e->get_enum(e->name + "C"))); }
            t.add_stmt(i.assign(a)); t.add_stmt(out(t, "o" + std::to_string(k), 4).assign(o));
        }
    } else if (kind == "copies") {
        for (int k = 0; k < 6; k++) {
            auto &g = child(k < 4 ? "k" : "l", "u" + std::to_string(k));
            auto &i = in(g, "i", 4), &o = out(g, "o", 4);
            g.add_stmt(o.assign(k % 3 == 0 ? ~i : k % 3 == 1 ? -i : i + K(3, 4)));
            t.add_stmt(i.assign(a)); t.add_stmt(out(t, "o" + std::to_string(k), 4).assign(o));
        }
        auto h = t.get_child_generators()[1]->clone();
        h->instance_name = "twin";
        t.add_child_generator("twin", h);
        t.add_stmt(h->get_port("i")->assign(b));
        t.add_stmt(out(t, "twin_o", 4).assign(*h->get_port("o")));
    } else if (kind == "offenders") {
        for (int k = 0; k < 4; k++) {
            auto n = std::to_string(k);
            auto &v = t.var("v" + n, 4), &w = t.var("w" + n, 4), &u = t.var("u" + n, 4);
            auto s = t.combinational();
            auto i = std::make_shared<IfStmt>(P(x)); i->add_then_stmt(v.assign(a)); s->add_stmt(i);
            t.add_stmt(w.assign(a)); t.add_stmt(w.assign(b));
            t.add_stmt(u.assign(u + v));
            auto q = t.sequential(); q->add_condition({EventEdgeType::Posedge, P(clk)}); q->add_stmt(v.assign(b, AssignmentType::NonBlocking));
            auto &g = child("k" + n, "c" + n);
            in(g, "i", 4); in(g, "j", 2); auto &o = out(g, "o", 4); g.add_stmt(o[{1, 0}].assign(K(1, 2)));
            auto fn = t.function("f" + n); auto fx = fn->input("x", 1, false);
            fn->create_function_handler(1, false); fn->set_has_return_value(true);
            auto i1 = std::make_shared<IfStmt>(P(*fx)); i1->add_then_stmt(fn->return_stmt(P(*fx))); fn->add_stmt(i1);
        }
    } else if (kind == "events") {
        auto s = t.sequential(); s->add_condition({EventEdgeType::Posedge, P(clk)});
        auto &o = out(t, "o", 4);
        int k = 0;
        for (auto *n : {"ez", "ea", "em"}) {
            auto i = std::make_shared<IfStmt>(P(k == 0 ? x : k == 1 ? y : z));
            Event e(n);
            i->add_then_stmt(e.fire({{"v", P(a)}, {"u", P(b)}})->belongs("tr"));
            i->add_then_stmt(o.assign(K(k++, 4)));
            s->add_stmt(i);
            auto as = std::make_shared<AssertValueStmt>(P(a.eq(b)));
            i->add_else_stmt(as);
        }
    } else if (kind == "array") {
        auto &v = t.port(PortDirection::In, "vi", 4, 4), &w = t.port(PortDirection::Out, "vo", 4, 4);
        for (int k = 0; k < 4; k++) {
            auto &g = child("cel", "u" + std::to_string(k));
            auto &i = in(g, "i", 4), &o = out(g, "o", 4), &ck = in(g, "e", 1);
            g.add_stmt(o.assign(i + K(1, 4)));
            t.add_stmt(i.assign(v[k])); t.add_stmt(w[k].assign(o)); t.add_stmt(ck.assign(x));
        }
    } else if (kind == "bundle") {
        std::vector<std::shared_ptr<PortBundleRef>> r;
        PortBundleDefinition d("Link");
        for (auto *n : {"zeta", "alpha", "mid"}) d.add_definition(n, 4, 1, false, n[0] == 'a' ? PortDirection::In : PortDirection::Out, PortType::Data);
        auto f = d.flip();
        for (int k = 0; k < 2; k++) {
            auto &g = child("k" + std::to_string(k), "u" + std::to_string(k));
            auto ref = g.add_bundle_port_def("lnk", k ? f : d);
            for (auto *n : {"zeta", "alpha", "mid"}) { auto &p = ref->get_port(n); if (p.port_direction() == PortDirection::Out) g.add_stmt(p.assign(K(3, 4))); else { auto &v = g.var(std::string("v") + n, 4); g.add_stmt(v.assign(p)); } }
            r.push_back(ref);
        }
        r[0]->assign(r[1], &t, {});
    } else if (kind == "slices") {
        auto &s = child("src", "u_src");
        auto &si = in(s, "i", 4), &so = out(s, "o", 8);
        s.add_stmt(so[{3, 0}].assign(si)); s.add_stmt(so[{7, 4}].assign(~si));
        t.add_stmt(si[{1, 0}].assign(a[{1, 0}])); t.add_stmt(si[{3, 2}].assign(b[{1, 0}]));
        for (int k = 0; k < 4; k++) {
            auto &g = child("dst", "u" + std::to_string(k));
            auto &i = in(g, "i", 2), &o = out(g, "o", 2);
            g.add_stmt(o.assign(i));
            t.add_stmt(i.assign(so[{(uint32_t)(2 * k + 1), (uint32_t)(2 * k)}]));
            auto &w = t.get_var("w") ? *t.get_var("w") : t.var("w", 8);
            t.add_stmt(w[{(uint32_t)(2 * k + 1), (uint32_t)(2 * k)}].assign(o));
        }
        t.add_stmt(out(t, "o", 8).assign(*t.get_var("w")));
        for (int k = 0; k < 4; k++) { auto &v = t.var("one" + std::to_string(k), 1); t.add_stmt(v.assign(a[k])); auto &q = t.var("two" + std::to_string(k), 1); t.add_stmt(q.assign(v)); t.add_stmt(out(t, "x" + std::to_string(k), 1).assign(q)); }
    } else {
        // several candidates for each wire, several clocks and resets
        auto &ck2 = t.port(PortDirection::In, "clk2", 1, 1, PortType::Clock, false);
        auto &r2 = t.port(PortDirection::In, "rst2", 1, 1, PortType::AsyncReset, false);
        for (int k = 0; k < 3; k++) {
            auto n = std::to_string(k);
            auto &v = t.var("v" + n, 4), &w = t.var("w" + n, 4);
            auto s = t.sequential(); s->add_condition({EventEdgeType::Posedge, P(k == 1 ? ck2 : clk)}); s->add_condition({EventEdgeType::Negedge, P(k == 2 ? r2 : rst)});
            auto i = std::make_shared<IfStmt>(P((k == 2 ? r2 : rst).r_not())); i->add_then_stmt(v.assign(K(0, 4))); i->add_else_stmt(v.assign(w)); s->add_stmt(i);
            t.add_stmt(w.assign(v + a));
            auto &o = out(t, "o" + n, 4), &p = out(t, "p" + n, 4); t.add_stmt(o.assign(v)); t.add_stmt(p.assign(v));
            auto sw = std::make_shared<SwitchStmt>(P(b)); auto &u = out(t, "u" + n, 4);
            for (int l : {9, 2, 5, 0}) sw->add_switch_case(K(l, 4).as<Const>(), u.assign(K(l ^ 15, 4)));
            sw->add_switch_case(nullptr, u.assign(a));
            auto cb = t.combinational(); cb->add_stmt(sw);
        }
    }
    return m;
}
// ---- everything there is to see
struct Look { std::string name; std::function<std::string(const Made &)> f; };
static void all_before(Generator &t) { dual::run_passes(t, {"realize_fsm", "zero_out_stubs", "change_port_bundle_struct", "decouple_generator_ports", "fix_assignment_type"}); }
static void for_all(Generator *g, const std::function<void(Generator *)> &f) { f(g); for (auto &k : g->get_child_generators()) for_all(k.get(), f); }
static std::vector<Look> looks() {
    std::vector<Look> r;
    for (auto &j : jobs()) {
        r.push_back({j.name, [j](const Made &m) { if (!prepare(j, *m.top)) return std::string("refused"); return outcome(j, *m.top); }});
    }
    auto pipeline = [](const std::string &name, bool parallel) {
        return Look{name, [parallel](const Made &m) {
            auto &t = *m.top;
            dual::run_passes(t, {"remove_unused_vars", "transform_if_to_case", "realize_fsm", "zero_out_stubs", "change_port_bundle_struct", "remove_fanout_one_wires", "decouple_generator_ports", "fix_assignment_type", "merge_wire_assignments", "merge_if_block", "insert_pipeline_stages"});
            dual::run_pass(t, parallel ? "hash_generators_parallel" : "hash_generators_sequential");
            dual::run_passes(t, {"change_property_into_stmt", "infer_property_clocking", "uniquify_generators", "create_module_instantiation", "create_interface_instantiation", "sort_stmts", "port_legality_fix"});
            std::string s = emitted(t);
            for_all(&t, [&](Generator *g) { s += g->handle_name() + " " + g->name + " " + (t.context()->has_hash(g) ? std::to_string(t.context()->get_hash(g)) : "none") + "\n"; });
            std::vector<std::string> ns(t.context()->get_generator_names().begin(), t.context()->get_generator_names().end());
            std::sort(ns.begin(), ns.end());
            for (auto &n : ns) s += n + " ";
            return s;
        }};
    };
    r.push_back(pipeline("pipeline", false));
    r.push_back(pipeline("pipeline, parallel hashes", true));
    r.push_back({"machine tables", [](const Made &m) { std::string s; for (auto *f : m.fsm) s += f->dot_graph() + f->output_table(); return s; }});
    r.push_back({"extracted information", [](const Made &m) {
        auto &t = *m.top;
        all_before(t);
        std::string s;
        for (auto &x : extract_register_names(&t)) s += x + " ";
        for (auto &x : extract_var_names(&t)) s += x + " ";
        for (auto &[n, x] : extract_dpi_function(&t, false)) s += n + x;
        for (auto &[n, x] : extract_dpi_function(&t, true)) s += n + x;
        for (auto &e : extract_event_info(&t)) { s += e.name + " " + e.transaction + " " + std::to_string(e.combinational); for (auto &[n, v] : e.fields) s += n + v->to_string(); }
        for (auto *x : extract_debug_break_points(&t)) s += std::to_string(x->stmt_id()) + " ";
        return s;
    }});
    r.push_back({"enabling conditions", [](const Made &m) {
        auto &t = *m.top;
        all_before(t);
        auto map = compute_enable_condition(&t);
        std::string s;
        struct V : IRVisitor { const std::unordered_map<const Stmt *, std::string> &m; std::string &s; V(const std::unordered_map<const Stmt *, std::string> &m, std::string &s) : m(m), s(s) {}
            void visit(AssignStmt *x) override { auto it = m.find(x); s += x->left()->to_string() + ": " + (it == m.end() ? "none" : it->second) + "\n"; } } v(map, s);
        v.visit_root(&t);
        return s;
    }});
    r.push_back({"debug information", [](const Made &m) {
        auto &t = *m.top;
        all_before(t);
        for_all(&t, [](Generator *g) { g->debug = true; });
        int ln = 1;
        struct V : IRVisitor { int &n; explicit V(int &n) : n(n) {} void put(IRNode *x) { x->fn_name_ln.emplace_back("prog.py", n++); }
            void visit(AssignStmt *x) override { put(x); } void visit(IfStmt *x) override { put(x); } void visit(SwitchStmt *x) override { put(x); } } v(ln);
        v.visit_root(&t);
        dual::run_passes(t, {"hash_generators_sequential", "uniquify_generators", "create_module_instantiation", "create_interface_instantiation", "propagate_scope_variable"});
        extract_debug_break_points(&t);
        std::string s = emitted(t);
        std::string f = "/tmp/c17." + std::to_string(getpid()) + ".json";
        DebugDatabase db;
        db.set_break_points(&t);
        db.save_database(f);
        std::ifstream i(f);
        s.append(std::istreambuf_iterator<char>(i), {});
        ::unlink(f.c_str());
        return s;
    }});
    r.push_back({"drivers", [](const Made &m) {
        auto &t = *m.top;
        all_before(t);
        auto map = find_driver_signal(&t);
        std::set<std::string> l;
        for (auto &[v, d] : map) for (auto *x : d) l.insert(v->handle_name() + " <- " + x->handle_name());
        std::string s;
        for (auto &x : l) s += x + "\n";
        return s;
    }});
    return r;
}
static std::string see(const Look &l, const Made &m) {
    try { return l.f(m); }
    catch (mc::Skip &) { throw; }
    catch (mc::Violation &) { throw; }
    catch (std::exception &e) { return std::string("exception: ") + e.what(); }
}
static const char *surroundings[] = {"nothing else", "another context with the same design", "another context built in between", "contexts created and destroyed before", "the same design twice in one process, emitted before"};
using Build = std::function<Made(Context &)>;
static std::string once(const Look &l, const Build &b, int lay, int around, int cpus) {
    set_num_cpus(cpus);
    layout::start(lay);
    std::string r;
    {
        std::unique_ptr<Context> other, third;
        Made o{};
        if (around == 1 || around == 4) { other = std::make_unique<Context>(); o = b(*other); }
        if (around == 4) see(l, o);
        if (around == 3) for (int i = 0; i < 3; i++) { Context t; b(t); }
        Context c;
        if (around == 2) { third = std::make_unique<Context>(); for (int i = 0; i < 5; i++) third->generator("g" + std::to_string(i)).var("v", 3); }
        auto m = b(c);
        if (around == 2) for (int i = 0; i < 5; i++) third->generator("h" + std::to_string(i)).var("w", 4).assign(constant(3, 4));
        r = see(l, m);
    }
    layout::current = -1;
    return r;
}
static std::string differ(const std::string &a, const std::string &b) {
    std::istringstream x(a), y(b);
    std::string l, k, r;
    for (int n = 1; ; n++) {
        bool p = (bool)std::getline(x, l), q = (bool)std::getline(y, k);
        if (!p && !q) break;
        if (!p) l = "(end)";
        if (!q) k = "(end)";
        if (l != k) { r += "line " + std::to_string(n) + ": " + l.substr(0, 160) + "\n   instead of: " + k.substr(0, 160) + "\n"; if (r.size() > 900) break; }
        if (!p || !q) break;
    }
    return r;
}
int main(int argc, char **argv) {
    std::cerr.rdbuf(nullptr);
    static const auto L = looks();
    auto run = [](mc::Ctx &c, const Look &l, const Build &b, const std::string &what, int scattered) {
        int lay = c.choose(c.thorough ? layout::COUNT : layout::Scattered + scattered, "memory"), around = 0, cpus = 1;
        if (lay <= layout::Down || c.thorough) { around = c.choose(5, "surroundings"); if (!around) cpus = c.flip("workers") ? 7 : 1; }
        static std::string seen, want;
        if (seen != l.name + ":" + what) { want = once(l, b, layout::Up, 0, 1); seen = l.name + ":" + what; }
        auto got = once(l, b, lay, around, cpus);
        c.states(2); c.trans(2); c.trace();
        c.outcome(mc::hash_str(want));
        if (want != got)
            c.fail(l.name + ":" + what, l.name + " of " + what + " differs with " + layout::name(lay) + ", " + surroundings[around] + " and " + std::to_string(cpus) + " workers:\n" + differ(got, want));
    };
    std::vector<mc::Family> f;
    f.push_back({"many alike", [run](mc::Ctx &c) {
        const Look &l = c.pick(L, "look");
        const auto &k = c.pick(spicy, "design");
        run(c, l, [&](Context &x) { return make(x, k); }, k, 6);
    }, 3});
    f.push_back({"mixed", [run](mc::Ctx &c) {
        const Look &l = c.pick(L, "look");
        int a = c.choose(kitchen::KINDS, "first"), st = c.choose(c.thorough ? kitchen::KINDS : 2, "second"), shape = c.choose(4, "shape");
        std::vector<int> ks{a, (a + st) % kitchen::KINDS};
        if (shape == 3) ks = {a, (a + st + 1) % kitchen::KINDS, (a + 2 * st + 1) % kitchen::KINDS, (a + 5) % kitchen::KINDS};
        std::string what = "a design with";
        for (int k : ks) what += std::string(" ") + kitchen::kind_name[k];
        run(c, l, [&](Context &x) {
            using namespace kitchen;
            Design d;
            Design *dp = &d;
            (void)dp;
            Shared sh = shared(x);
            std::vector<Unit> us;
            int n = 0;
            for (int k : ks) { us.push_back(unit(x, sh, std::string("m_") + (shape == 2 ? kind_name[k] : std::to_string(n)), k, n)); n++; }
            if (shape == 3) us = {kitchen::parent_in(x, "mid0", {us[0], us[1]}, 1), kitchen::parent_in(x, "mid1", {us[2], us[3]}, 1)};
            return Made{kitchen::parent_in(x, "top", us, shape == 1).g, {}};
        }, what + ", shape " + std::to_string(shape), 1);
    }, 3});
    return mc::run("C17", f, argc, argv, "model_checking",
        {"memory is handed out in the listed orders of addresses; a dependence on addresses that none of them reveals stays unseen",
         "tasks of a pool run in order here, their order is explored for C16"});
}
