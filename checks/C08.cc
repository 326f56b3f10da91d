// C08: the realised machine is the described one, from reset on.
#include <iostream>
#include <sstream>
#include "dual.hh"
#include "fsm.hh"
using namespace dual;
using kratos::FSM;
using kratos::FSMState;
using rtl::EP;
using rtl::SP;
using rtl::u128;
static constexpr int NONE = -1;
struct St {
    int fsm;
    std::string name;
    std::vector<std::pair<int, int>> next;   // guard, target
    int out = 0, out2 = 0;                   // >=0 constant, -1 the input, -2 left to the default, -3 unchanged
};
struct Mach {
    std::vector<std::string> fsm = {"F"};
    std::vector<int> parent = {NONE};
    std::vector<St> st;
    int start = 0, reset = 0;
    bool moore = true, start_by_name = false, start_early = false;
};
enum { HIGH, PORT_LOW, SET_LOW, EXPLICIT, VAR, VAR_LOW, SYNC, NRESET };
static const char *RESET[] = {"reset", "active-low port", "reset set low", "explicit signals", "internal reset", "internal reset set low", "synchronous port"};
static const char *GUARD[] = {"in==0", "in==1", "c", "always", "in>1", "!c"};
static EP cond(EP c, EP a, EP b) { return rtl::mk(rtl::Op::Cond, a->w, false, {c, a, b}); }
static std::string show(const Mach &m) {
    std::string t = m.moore ? "moore" : "mealy";
    t += std::string(", ") + RESET[m.reset] + ", start " + m.st[m.start].name;
    for (auto &s : m.st) {
        t += "; " + m.fsm[s.fsm] + "." + s.name + "(" + std::to_string(s.out) + "," + std::to_string(s.out2) + "):";
        for (auto &[g, n] : s.next) t += std::string(" ") + (g == 3 || g < 0 ? "always" : GUARD[g]) + "->" + m.fsm[m.st[n].fsm] + "." + m.st[n].name;
    }
    return t;
}
// machines that the library refuses to build: no reset in the list, etc.
static void build(mc::Ctx &c, Dual &u, Generator &g, Mach &m, const std::string &pre, std::vector<FSM *> &fs, std::vector<std::shared_ptr<FSMState>> &ss, Check &k) {
    int n = (int)m.st.size();
    auto old = [&](const std::string &nm) { int s = u.d.find(nm); DX x; x.k = g.get_var(nm).get(); x.w = u.d.sigs[s].w; x.r = rtl::sigx(s, x.w, false); x.t = nm; x.lv = {{s, nullptr, 0, x.w}}; return x; };
    bool first = u.d.find("clk") < 0;
    DX clk = first ? u.port(g, true, "clk", 1, false, PortType::Clock) : old("clk");
    DX rst = first ? u.port(g, true, "rst", 1, false, m.reset == SYNC ? PortType::Reset : PortType::AsyncReset) : old("rst");
    DX in = first ? u.port(g, true, "in", 2) : old("in"), cc = first ? u.port(g, true, "c", 1) : old("c");
    if (m.reset == PORT_LOW) static_cast<kratos::Port *>(rst.k)->set_active_high(false);
    DX out = u.port(g, false, pre + "out", 2), out2 = u.port(g, false, pre + "out2", 1);
    DX r = rst;
    if (m.reset == VAR || m.reset == VAR_LOW) {
        r = u.var(g, pre + "inner_rst", 1);
        u.cont(g, r, rst);
    }
    for (size_t i = 0; i < m.fsm.size(); i++) {
        FSM *f;
        if (m.reset >= EXPLICIT) f = &g.fsm(m.fsm[i], clk.p(), r.p());
        else f = &g.fsm(m.fsm[i]);
        if (m.reset == SET_LOW || m.reset == VAR_LOW) f->set_reset_high(false);
        fs.push_back(f);
    }
    auto nest = [&] { for (size_t i = 0; i < m.fsm.size(); i++) if (m.parent[i] >= 0) fs[m.parent[i]]->add_child_fsm(fs[i]); };
    for (auto &f : fs) {
        f->output(out.p(), kratos::constant(3, 2).shared_from_this());
        f->output(out2.p(), kratos::constant(1, 1).shared_from_this());
        f->set_moore(m.moore);
    }
    for (auto &s : m.st) ss.push_back(fs[s.fsm]->add_state(s.name));
    if (m.start_early) fs[0]->set_start_state(ss[m.start]);
    nest();
    std::map<int, DX> guards = {{0, u.bin(B::Eq, in, u.con(0, 2))}, {1, u.bin(B::Eq, in, u.con(1, 2))}, {2, cc}, {4, u.bin(B::Gt, in, u.con(1, 2))}, {5, u.un(U::RNot, cc)}};
    for (int i = 0; i < n; i++) {
        for (auto &[gd, t] : m.st[i].next) ss[i]->next(ss[t], gd == 3 ? nullptr : guards.at(gd).p());
        auto drive = [&](DX &o, int v) {
            if (v >= 0) ss[i]->output(o.p(), (int64_t)v);
            else if (v == -1) ss[i]->output(o.p(), o.w == 2 ? in.p() : cc.p());
            else if (v == -3) ss[i]->output(o.p(), nullptr);
        };
        drive(out, m.st[i].out);
        drive(out2, m.st[i].out2);
    }
    if (!m.start_early) { if (m.start_by_name) fs[0]->set_start_state(m.st[m.start].name); else fs[0]->set_start_state(ss[m.start]); }
    // ---- reference
    auto &d = u.d;
    int st = d.add_sig(pre + "ref_state", 3, false), ok = d.add_sig(pre + "ref_valid", 1, false);
    EP cur = rtl::sigx(st, 3, false), next = cur;
    auto is = [&](EP s, int i) { return rtl::mk(rtl::Op::Eq, 1, false, {s, rtl::cst(i, 3)}); };
    for (int i = n - 1; i >= 0; i--) {
        EP e = rtl::cst(i, 3);
        for (auto it = m.st[i].next.rbegin(); it != m.st[i].next.rend(); ++it) e = it->first == 3 ? rtl::cst(it->second, 3) : cond(guards.at(it->first).r, rtl::cst(it->second, 3), e);
        next = cond(is(cur, i), e, next);
    }
    bool low = m.reset == PORT_LOW || m.reset == SET_LOW || m.reset == VAR_LOW;
    auto set = [&](int sig, int w, EP e) { return rassign({{sig, nullptr, 0, w}}, e, true); };
    auto iff = std::make_shared<rtl::Stmt>();
    iff->k = rtl::Stmt::If;
    iff->rhs = low ? rtl::mk(rtl::Op::LNot, 1, false, {rst.r}) : rst.r;
    iff->body = {block({set(st, 3, rtl::cst(m.start, 3)), set(ok, 1, rtl::cst(1, 1))}), block({set(st, 3, next)})};
    rtl::Proc p;
    p.k = rtl::Proc::Ff;
    p.sens = {{clk.r, rtl::Edge::Pos}, {rst.r, low ? rtl::Edge::Neg : rtl::Edge::Pos}};
    p.body = block({iff});
    d.procs.push_back(p);
    EP sel = m.moore ? cur : next;
    std::vector<SP> b;
    for (int w = 0; w < 2; w++) {
        DX &o = w ? out2 : out;
        for (int i = 0; i < n; i++) {
            int v = w ? m.st[i].out2 : m.st[i].out;
            if (v == -3) continue;
            EP e = v >= 0 ? rtl::cst(v, o.w) : v == -2 ? rtl::cst(w ? 1 : 3, o.w) : w ? cc.r : in.r;
            auto x = std::make_shared<rtl::Stmt>();
            x->k = rtl::Stmt::If;
            x->rhs = is(sel, i);
            x->body = {block({rassign(o.lv, e, false)}), block()};
            b.push_back(x);
        }
    }
    rtl::Proc q;
    q.k = rtl::Proc::Comb;
    q.body = block(b);
    d.procs.push_back(q);
    k.opt.clocks = {"clk", "rst"};
    k.opt.valid = pre + "ref_valid";
    (void)c;
}
static void run(mc::Ctx &c, Mach &m, const std::string &key, bool full, bool early = false, bool refuse = false) {
    Dual u;
    auto &g = u.ctx.generator("mod");
    Check k;
    std::vector<FSM *> fs;
    std::vector<std::shared_ptr<FSMState>> ss;
    std::string t = key + ": " + show(m);
    // names that meet are refused or kept apart
    if (refuse) { try { Dual w; auto &h = w.ctx.generator("mod"); Check l; std::vector<FSM *> fw; std::vector<std::shared_ptr<FSMState>> sw; build(c, w, h, m, "", fw, sw, l); fw[0]->realize(); } catch (kratos::UserException &e) { c.states(1); c.trans(1); c.outcome(mc::hash_str(e.what())); return; } }
    accepted(c, key + ":rejected", t, [&] { build(c, u, g, m, "", fs, ss, k); if (early) fs[0]->realize(); });
    k.key = key;
    k.emit.passes = full ? standard : minimal;
    if (!full) k.emit.passes.insert(k.emit.passes.begin(), "realize_fsm");
    check(c, u, k, t);
}
// the unchanged value of an output is only meaningful once it had one
static std::vector<std::pair<int, int>> moves(mc::Ctx &c, int n, int rich, bool complete, bool first = false) {
    std::vector<std::pair<int, int>> r;
    auto tgt = [&] { return c.choose(n, "target"); };
    if (rich == 2) {
        int max = c.thorough || n == 1 || first ? 3 : 2;
        int len = complete ? 1 + c.choose(max, "transitions") : c.choose(max + 1, "transitions");
        std::vector<int> left = {0, 1, 2};
        for (int i = 0; i < len; i++) {
            bool last = i + 1 == len;
            int g;
            if (last && complete) g = 3;
            else {
                int x = c.choose((int)left.size() + (last ? 1 : 0), "guard");
                if (x == (int)left.size()) g = 3; else { g = left[x]; left.erase(left.begin() + x); }
            }
            r.emplace_back(g, tgt());
        }
        return r;
    }
    int shape = complete ? c.choose(2, "shape") : c.choose(rich == 1 ? 5 : rich == 0 ? 3 : 2, "shape");
    if (complete) shape = shape == 0 ? 1 : 4;
    switch (shape) {
        case 0: r = {{0, tgt()}}; break;
        case 1: { int a = tgt(), b = tgt(); r = {{2, a}, {3, b}}; break; }
        case 2: { int a = tgt(), b = tgt(); r = {{2, a}, {0, b}}; break; }
        case 3: { int a = tgt(), b = tgt(); r = {{4, a}, {1, b}}; break; }
        default: r = {{3, tgt()}}; break;
    }
    return r;
}
static const std::vector<std::vector<std::string>> NAMES = {{"A", "B", "C", "D"}, {"D", "B", "C", "A"}};
static void two_states(mc::Ctx &c) {
    Mach m;
    m.moore = c.flip("moore");
    int n = 1 + c.choose(2, "states");
    m.start = c.choose(n, "start");
    auto nm = c.thorough || n == 1 ? c.pick(NAMES, "names") : NAMES[m.start];
    for (int i = 0; i < n; i++) m.st.push_back({0, nm[i], moves(c, n, 2, !m.moore, i == 0), i + 1, i & 1});
    bool full = c.thorough || n == 1 ? c.flip("standard") : m.start == 1;
    run(c, m, m.moore ? "moore" : "mealy", full);
}
static void three_states(mc::Ctx &c) {
    Mach m;
    m.moore = c.flip("moore");
    int n = c.thorough ? 3 + c.choose(2, "states") : 3;
    m.start = c.choose(n, "start");
    auto nm = NAMES[m.start & 1];
    for (int i = 0; i < n; i++) m.st.push_back({0, nm[i], moves(c, n, c.thorough && n == 3 ? 1 : i == 0 ? 0 : c.thorough ? 0 : -1, !m.moore), (i + 1) & 3, i & 1});
    run(c, m, m.moore ? "moore" : "mealy", (m.start + n) & 1);
}
// long chains of guards of which several may hold at once
static void chains(mc::Ctx &c) {
    Mach m;
    m.moore = c.flip("moore");
    int n = c.thorough ? 2 : 3, len = 3 + c.choose(2, "guards");
    bool always = !m.moore || c.flip("always"), same = c.flip("in the start state");
    if (len == 3 && !always) c.skip();
    std::vector<int> left = {0, 1, 2, 4, 5};
    std::vector<std::pair<int, int>> r;
    int off = c.thorough ? 0 : c.choose(n, "targets");
    for (int i = 0; i < len + always; i++) {
        int g = 3;
        if (i < len) { int x = c.choose((int)left.size(), "guard"); g = left[x]; left.erase(left.begin() + x); }
        r.emplace_back(g, c.thorough ? c.choose(n, "target") : (i + off) % n);
    }
    for (int i = 0; i < n; i++) {
        m.st.push_back({0, NAMES[0][i], {{2, (i + 1) % n}, {3, i}}, i + 1, i & 1});
        if (i == 0) m.st[i].next = r;
    }
    m.start = same ? 0 : n - 1;
    run(c, m, m.moore ? "moore" : "mealy", same);
}
static void resets(mc::Ctx &c) {
    Mach m;
    m.moore = c.flip("moore");
    m.reset = c.choose(NRESET, "reset");
    int n = 2;
    m.start = c.choose(n, "start");
    m.start_by_name = c.flip("start given by name");
    for (int i = 0; i < n; i++) m.st.push_back({0, NAMES[0][i], {{2, 1 - i}, {3, i}}, i + 1, i & 1});
    bool full = c.flip("standard"), early = c.flip("realised by the program");
    // the standard passes want clocks and asynchronous resets in sensitivity lists
    if (full && m.reset >= VAR) c.skip();
    run(c, m, std::string(RESET[m.reset]), full, early);
}
static void outputs(mc::Ctx &c) {
    Mach m;
    m.moore = c.flip("moore");
    int n = 3;
    m.start = c.choose(n, "start");
    static const int V[] = {2, -1, -2, -3};
    for (int i = 0; i < n; i++) {
        St s{0, NAMES[1][i], {{2, (i + 1) % n}, {3, i}}, 0, 0};
        s.out = i == 2 ? 1 : V[c.choose(4, "output")];
        s.out2 = V[c.choose(4, "second output")];
        if (s.out2 == 2) s.out2 = i & 1;
        m.st.push_back(s);
    }
    // what a Mealy machine leaves unchanged depends on the order in which its inputs change
    if (!m.moore) for (auto &s : m.st) if (s.out == -3 || s.out2 == -3) c.skip();
    // the start state says what every output is
    if (m.st[m.start].out == -3 || m.st[m.start].out2 == -3) c.skip();
    bool hold = false;
    for (auto &s : m.st) hold = hold || s.out == -3 || s.out2 == -3;
    run(c, m, std::string(m.moore ? "moore" : "mealy") + (hold ? " unchanged output" : " output values"), hold ? false : c.flip("standard"));
}
static void nested(mc::Ctx &c) {
    Mach m;
    m.moore = c.flip("moore");
    int shape = c.choose(4, "nesting");
    switch (shape) {
        case 0: m.fsm = {"F", "G"}; m.parent = {NONE, 0}; break;
        case 1: m.fsm = {"F", "G", "H"}; m.parent = {NONE, 0, 0}; break;
        case 2: m.fsm = {"F", "G", "H"}; m.parent = {NONE, 0, 1}; break;
        default: m.fsm = {"Z", "F"}; m.parent = {NONE, 0}; break;
    }
    int nm = c.choose(3, "names");
    // 1: every machine uses the same names; 2: names that meet once they are prefixed
    for (size_t f = 0; f < m.fsm.size(); f++)
        for (int i = 0; i < (f == 0 ? 2 : 1); i++) m.st.push_back({(int)f, nm == 1 ? std::string(1, (char)('A' + i)) : m.fsm[f] + std::string(1, (char)('a' + i)), {}, 0, 0});
    if (nm == 2) {
        m.fsm[1] = m.fsm[0] + "_A";
        m.st[2].name = "B";
        m.st[0].name = "A_B";
    }
    int n = (int)m.st.size();
    for (int i = 0; i < n; i++) {
        m.st[i].out = (i + 1) & 3;
        m.st[i].out2 = i & 1;
        // a ring, so everything is reachable, and a second transition anywhere
        int a = i < 3 || c.thorough ? c.choose(n, "target") : 0;
        m.st[i].next = {{2, a}, {3, (i + 1) % n}};
    }
    m.start = c.choose(n, "start");
    m.start_early = c.thorough ? c.flip("start before nesting") : (m.start & 1) ^ (m.st[0].next[0].second & 1);
    run(c, m, std::string(m.moore ? "moore" : "mealy") + " nested" + (nm == 2 ? " names that meet" : ""), c.thorough ? c.flip("standard") : nm == 0, false, nm == 2);
}
// two machines side by side
static void side(mc::Ctx &c) {
    Dual u;
    auto &g = u.ctx.generator("mod");
    Check k;
    std::string t;
    int nm = c.choose(3, "names");
    Mach m[2];
    for (int f = 0; f < 2; f++) {
        m[f].fsm = {f ? "G" : "F"};
        m[f].moore = c.flip("moore");
        m[f].start = c.choose(2, "start");
        for (int i = 0; i < 2; i++) {
            // the same names in both, different ones, or one in common
            std::string name = nm == 0 ? std::string(1, (char)('A' + i)) : nm == 1 ? std::string(1, (char)('A' + i + 2 * f)) : i == f ? "S" : "T" + std::to_string(f);
            m[f].st.push_back({0, name, {{f ? 2 : 0, c.choose(2, "target")}, {3, c.choose(2, "target")}}, i + 1 + f, i ^ f});
        }
        t += show(m[f]) + " / ";
    }
    std::string key = nm == 1 ? "side by side" : "side by side, same state names";
    bool full = c.thorough ? c.flip("standard") : m[0].start ^ m[1].start;
    if (nm != 1) {
        try {
            Dual w;
            auto &h = w.ctx.generator("mod");
            Check l;
            for (int f = 0; f < 2; f++) {
                std::vector<FSM *> fw;
                std::vector<std::shared_ptr<FSMState>> sw;
                build(c, w, h, m[f], f ? "g_" : "", fw, sw, l);
                fw[0]->realize();
            }
        } catch (kratos::UserException &e) { c.states(1); c.trans(1); c.outcome(mc::hash_str(e.what())); return; }
    }
    for (int f = 0; f < 2; f++) {
        std::vector<FSM *> fs;
        std::vector<std::shared_ptr<FSMState>> ss;
        accepted(c, key + ":rejected", t, [&] { build(c, u, g, m[f], f ? "g_" : "", fs, ss, k); });
    }
    k.opt.valid = "ref_valid";
    k.key = key;
    k.emit.passes = full ? standard : minimal;
    if (!full) k.emit.passes.insert(k.emit.passes.begin(), "realize_fsm");
    check(c, u, k, t);
}
// mealy machines in which no guard may hold
static void staying(mc::Ctx &c) {
    Mach m;
    m.moore = false;
    int n = 2;
    m.start = c.choose(n, "start");
    for (int i = 0; i < n; i++) m.st.push_back({0, NAMES[0][i], moves(c, n, 2, false, i == 0), i + 1, i & 1});
    bool incomplete = false;
    for (auto &s : m.st) incomplete = incomplete || s.next.empty() || s.next.back().first != 3;
    if (!incomplete) c.skip();
    run(c, m, "mealy without a transition", false);
}
// descriptions printed for people
static void printed(mc::Ctx &c) {
    Dual u;
    auto &g = u.ctx.generator("mod");
    Check k;
    std::vector<FSM *> fs;
    std::vector<std::shared_ptr<FSMState>> ss;
    Mach m;
    m.moore = c.flip("moore");
    int nest = c.choose(2, "nested");
    if (nest) m.fsm = {"F", "G"}, m.parent = {NONE, 0};
    static const int V[] = {2, -1, -2, -3};
    int n = 2 + nest;
    for (int i = 0; i < n; i++) {
        m.st.push_back({i == 2, NAMES[0][i], {}, V[c.choose(4, "output")], i & 1});
        m.st[i].next = {{2, c.choose(n, "target")}, {c.flip("always") ? 3 : 0, (i + 1) % n}};
    }
    m.start = c.choose(n, "start");
    bool after = c.flip("after realisation");
    std::string t = show(m), key = std::string("printed ") + (after ? "after" : "before");
    accepted(c, key + ":rejected", t, [&] { build(c, u, g, m, "", fs, ss, k); if (after) fs[0]->realize(); });
    std::string tab, dot;
    accepted(c, key + " table:refused", t, [&] { tab = fs[0]->output_table(); });
    accepted(c, key + " graph:refused", t, [&] { dot = fs[0]->dot_graph(); });
    auto val = [&](int v, bool two) -> std::string { return v >= 0 ? (two ? "1'h" : "2'h") + std::to_string(v) : v == -1 ? "in" : v == -2 ? "2'h3" : "out"; };
    std::string want = "State,out,out2\n";
    for (int i = 0; i < 2; i++) want += m.st[i].name + "," + val(m.st[i].out, false) + "," + val(m.st[i].out2, true) + "\n";
    if (tab != want) c.fail(key + " table", t + "\nthe table is\n" + tab + "instead of\n" + want);
    // every transition once
    std::multiset<std::string> have, need;
    std::istringstream is(dot);
    for (std::string l; std::getline(is, l);) if (l.find("->") != std::string::npos) {
        std::string x;
        for (char ch : l) if (ch != ' ') x += ch;
        have.insert(x);
    }
    auto hn = [&](int i) { return (m.st[i].fsm ? "G_" : "") + m.st[i].name; };
    for (int i = 0; i < n; i++)
        for (auto &[gd, to] : m.st[i].next) need.insert(hn(i) + "->" + hn(to) + (gd == 3 ? ";" : std::string("[label=\"") + (gd == 2 ? "c" : "in==2'h0") + "\"];"));
    if (have != need) c.fail(key + " graph", t + "\nthe graph is\n" + dot);
    c.states(1);
    c.trans(1);
    c.outcome(mc::hash_str(tab + dot));
}
// descriptions that mean nothing
static void refused(mc::Ctx &c) {
    Dual u;
    auto &g = u.ctx.generator("mod");
    DX clk = u.port(g, true, "clk", 1, false, PortType::Clock), rst = u.port(g, true, "rst", 1, false, PortType::AsyncReset), in = u.port(g, true, "in", 2), cc = u.port(g, true, "c", 1), out = u.port(g, false, "out", 2), out2 = u.port(g, false, "out2", 1);
    auto &f = g.fsm("F");
    auto &h = g.fsm("H");
    bool threw = false;
    int bad = c.choose(13, "mistake");
    static const char *BAD[] = {"no mistake", "no start state", "an output left open", "an output nobody declared", "the same state twice", "a wide guard", "a guard after always", "always twice", "a state of another machine", "an output given twice", "the same guard twice", "no states", "no target"};
    try {
        f.output(out.p());
        if (bad != 11) {
            auto a = f.add_state("A"), b = f.add_state("B");
            if (bad == 4) f.add_state("A");
            a->output(out.p(), 1);
            if (bad != 2) b->output(out.p(), 2);
            if (bad == 3) b->output(out2.p(), 1);
            if (bad == 9) a->output(out.p(), 2);
            if (bad == 6) a->next(b, nullptr);
            a->next(b, bad == 5 ? in.p() : cc.p());
            if (bad == 10) a->next(a, cc.p());
            b->next(a, nullptr);
            if (bad == 7) b->next(b, nullptr);
            if (bad == 8) a->next(h.add_state("X"), u.bin(B::Eq, in, u.con(0, 2)).p());
            if (bad == 12) a->next(nullptr, u.bin(B::Eq, in, u.con(0, 2)).p());
            if (bad != 1) f.set_start_state(a);
        }
        f.realize();
    } catch (std::exception &e) { threw = true; c.outcome(mc::hash_str(e.what())); }
    if (threw != (bad != 0)) c.fail(std::string("refused: ") + BAD[bad], std::string(BAD[bad]) + (threw ? " is refused" : " is accepted"));
    c.states(1);
    c.trans(1);
}
int main(int argc, char **argv) {
    std::cerr.rdbuf(nullptr);
    std::vector<mc::Family> fams = {
        {"one or two states", two_states, -1}, {"three states", three_states, -1}, {"long chains", chains, -1}, {"resets", resets, -1}, {"outputs", outputs, -1}, {"nested", nested, -1},
        {"side by side", side, -1}, {"staying", staying, -1}, {"printed", printed, -1}, {"refused", refused, -1},
    };
    return mc::run("C08", fams, argc, argv, "model_checking",
                   {"compared from the first reset on; machines of up to three states with up to three transitions each (one state with up to five), six guards over three input bits, two outputs",
                    "an output left unchanged is compared as a latch"});
}
