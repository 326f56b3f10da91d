#include "product.hh"
#include <algorithm>
#include <deque>
#include <unordered_map>
namespace rtl {
std::string compare_ports(const Design &a, const Design &b, bool sign) {
    for (auto &[n, p] : a.ports) {
        auto it = b.ports.find(n);
        if (it == b.ports.end()) return "port " + n + " is missing";
        auto &q = it->second;
        if (p.in != q.in) return "port " + n + " has the wrong direction";
        if (p.w != q.w) return "port " + n + " is " + std::to_string(q.w) + " bits wide, expected " + std::to_string(p.w);
        if (sign && p.s != q.s) return "port " + n + (q.s ? " is signed" : " is not signed");
    }
    for (auto &[n, p] : b.ports) if (!a.ports.count(n)) return "unexpected port " + n;
    return "";
}
static bool stateful(const Design &d) {
    for (auto &p : d.procs) if (p.k == Proc::Ff || p.k == Proc::Latch) return true;
    return false;
}
PRes product(const Design &ref, const Design &dut, const POpt &opt) {
    PRes r;
    auto bad = [&](const std::string &m) { r.ok = false; r.msg = m; return r; };
    if (opt.check_ports) { auto e = compare_ports(ref, dut, opt.check_sign); if (!e.empty()) return bad(e); }
    Sim A(ref), B(dut);
    struct In { std::string n; int a, b; std::vector<u128> vals; };
    std::vector<In> data, clk;
    std::set<std::string> names;
    for (auto &[n, p] : ref.ports) if (p.in) names.insert(n);
    for (auto &[n, p] : dut.ports) if (p.in) names.insert(n);
    std::vector<In> tied;
    for (auto &n : names) {
        In i;
        i.n = n;
        auto x = ref.ports.find(n), y = dut.ports.find(n);
        i.a = x == ref.ports.end() ? -1 : x->second.sig;
        i.b = y == dut.ports.end() ? -1 : y->second.sig;
        int w = i.a >= 0 ? x->second.w : y->second.w;
        if (opt.tie.count(n)) { i.vals = {opt.tie.at(n)}; tied.push_back(i); continue; }
        if (std::find(opt.clocks.begin(), opt.clocks.end(), n) != opt.clocks.end()) { clk.push_back(i); continue; }
        auto al = opt.alphabet.find(n);
        if (al != opt.alphabet.end()) i.vals = al->second;
        else {
            if (w > 16) throw Unsupported("input " + n + " is too wide to enumerate");
            for (u128 v = 0; v < ((u128)1 << w); v++) i.vals.push_back(v);
        }
        data.push_back(i);
    }
    std::vector<std::string> outs = opt.outputs;
    if (outs.empty()) for (auto &[n, p] : ref.ports) if (!p.in) outs.push_back(n);
    struct O { std::string n; int a, b; };
    std::vector<O> os;
    for (auto &n : outs) {
        if (!dut.ports.count(n)) return bad("output " + n + " is missing");
        if (!ref.ports.count(n)) return bad("reference has no output " + n);
        os.push_back({n, ref.ports.at(n).sig, dut.ports.at(n).sig});
    }
    uint64_t nvec = 1;
    for (auto &i : data) { nvec *= i.vals.size(); if (nvec > (1u << 20)) throw Unsupported("input space too large"); }
    auto vec = [&](uint64_t k) { std::vector<u128> v; for (auto &i : data) { v.push_back(i.vals[k % i.vals.size()]); k /= i.vals.size(); } return v; };
    auto show = [&](const std::vector<u128> &v) { std::string s; for (size_t i = 0; i < data.size(); i++) s += (i ? " " : "") + data[i].n + "=" + to_s(v[i]); return s; };
    int valid = opt.valid.empty() ? -1 : ref.find(opt.valid);
    auto cmp = [&](const std::string &where) -> bool {
        if (valid >= 0 && !A.get(valid)) return true;
        if (!A.settled) return true;           // undefined in the reference
        if (!B.settled) { bad("the design does not settle, " + where); return false; }
        if (B.hang) { bad("a loop does not end, " + where); return false; }
        bool x = A.oob;
        u128 h = 0;
        for (auto &o : os) {
            u128 a = A.get(o.a), b = B.get(o.b);
            h = h * 1000003 + b;
            if (a != b && !x) { bad("output " + o.n + " is " + to_s(b) + ", expected " + to_s(a) + ", " + where); return false; }
        }
        if (r.outcomes.size() < 64) r.outcomes.insert(h);
        if (opt.unique && !B.uniq.empty() && A.uniq.empty()) { bad(B.uniq[0] + ", " + where); return false; }
        if (opt.extra) { auto e = opt.extra(A, B); if (!e.empty()) { bad(e + ", " + where); return false; } }
        return true;
    };
    auto clear = [&]() { A.oob = B.oob = A.hang = B.hang = false; A.uniq.clear(); B.uniq.clear(); A.settled = B.settled = true; };
    auto ins = [&](bool dutside, const std::vector<u128> *v) {
        std::vector<std::pair<int, u128>> x;
        if (!dutside && valid >= 0) x.emplace_back(valid, 0);
        for (auto &t : tied) { int s = dutside ? t.b : t.a; if (s >= 0) x.emplace_back(s, t.vals[0]); }
        if (v) for (size_t i = 0; i < data.size(); i++) { int s = dutside ? data[i].b : data[i].a; if (s >= 0) x.emplace_back(s, (*v)[i]); }
        return x;
    };
    if (!stateful(ref) && clk.empty()) {
        for (int f = 0; f < (opt.both_fills ? 2 : 1); f++)
            for (uint64_t k = 0; k < nvec; k++) {
                auto v = vec(k);
                clear();
                A.init(f ? ~(u128)0 : 0, ins(false, &v));
                B.init(f ? ~(u128)0 : 0, ins(true, &v));
                A.settle();
                B.settle();
                r.trans++;
                if (!f) r.states++;
                if (!cmp("inputs " + show(v) + (f ? " (uninitialised signals at 1)" : ""))) return r;
            }
        return r;
    }
    // breadth-first search over the product
    struct Node { State a, b; std::vector<u128> v; std::vector<uint8_t> c; int parent; std::string step; };
    std::vector<Node> nodes;
    struct Key { State a, b; bool operator==(const Key &o) const { return a == o.a && b == o.b; } };
    struct KH { size_t operator()(const Key &k) const { return StateHash()(k.a) * 31 + StateHash()(k.b); } };
    std::unordered_map<Key, int, KH> seen;
    std::deque<int> q;
    auto path = [&](int n) {
        std::vector<std::string> s;
        for (; n >= 0; n = nodes[n].parent) s.push_back(nodes[n].step);
        std::string t;
        for (auto i = s.rbegin(); i != s.rend(); ++i) t += (t.empty() ? "" : "; ") + *i;
        return t;
    };
    auto push = [&](const std::vector<u128> &v, const std::vector<uint8_t> &c, int parent, const std::string &step) -> bool {
        nodes.push_back({A.st, B.st, v, c, parent, step});
        int id = (int)nodes.size() - 1;
        auto it = seen.emplace(Key{A.st, B.st}, id);
        if (!it.second) { nodes.pop_back(); return true; }
        r.states++;
        if (!cmp("history: " + path(id))) return false;
        if (A.settled) q.push_back(id);
        return true;
    };
    std::vector<u128> v0;
    for (auto &i : data) v0.push_back(i.vals[0]);
    for (int f = 0; f < (opt.both_fills ? 2 : 1); f++) {
        clear();
        A.init(f ? ~(u128)0 : 0, ins(false, &v0));
        B.init(f ? ~(u128)0 : 0, ins(true, &v0));
        A.settle();
        B.settle();
        if (!push(v0, std::vector<uint8_t>(clk.size(), 0), -1, std::string("start(registers at ") + (f ? "1" : "0") + ", " + show(v0) + ")")) return r;
    }
    while (!q.empty()) {
        int n = q.front();
        q.pop_front();
        if (r.states > opt.max_states) { r.capped = true; break; }
        for (size_t k = 0; k < clk.size(); k++) {
            A.st = nodes[n].a; B.st = nodes[n].b;
            clear();
            auto c = nodes[n].c;
            c[k] ^= 1;
            if (clk[k].a >= 0) A.set(clk[k].a, c[k]);
            if (clk[k].b >= 0) B.set(clk[k].b, c[k]);
            A.settle(); B.settle();
            r.trans++;
            auto v = nodes[n].v;
            if (!push(v, c, n, clk[k].n + "=" + (c[k] ? "1" : "0"))) return r;
        }
        for (uint64_t k = 0; k < nvec; k++) {
            auto v = vec(k);
            if (v == nodes[n].v) continue;
            A.st = nodes[n].a; B.st = nodes[n].b;
            clear();
            for (size_t i = 0; i < data.size(); i++) { if (data[i].a >= 0) A.set(data[i].a, v[i]); if (data[i].b >= 0) B.set(data[i].b, v[i]); }
            A.settle(); B.settle();
            r.trans++;
            auto c = nodes[n].c;
            if (!push(v, c, n, show(v))) return r;
        }
    }
    return r;
}
}  // namespace rtl
