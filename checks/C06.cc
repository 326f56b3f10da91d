// C06: hierarchy-level passes do not change what a design does.
#include <iostream>
#include <regex>

#include "hier.hh"
typedef std::vector<std::string> PL;
static const PL P_THROUGH = {"remove_pass_through_modules", "decouple_generator_ports", "fix_assignment_type", "create_module_instantiation", "create_interface_instantiation"};
static const PL P_INLINE = {"decouple_generator_ports", "fix_assignment_type", "hash_generators_parallel", "inline_instance", "uniquify_generators", "create_module_instantiation", "create_interface_instantiation"};
static const PL P_CONST = {"merge_const_port_assignment", "decouple_generator_ports", "fix_assignment_type", "create_module_instantiation", "create_interface_instantiation"};
static const PL P_LIFT = {"decouple_generator_ports", "fix_assignment_type", "hash_generators_parallel", "uniquify_generators", "create_module_instantiation", "create_interface_instantiation", "lift_genvar_instances"};
static const PL P_LEGAL = {"decouple_generator_ports", "fix_assignment_type", "hash_generators_parallel", "uniquify_generators", "create_module_instantiation", "create_interface_instantiation", "port_legality_fix"};
static const PL P_ALL = {"remove_pass_through_modules", "merge_if_block", "transform_if_to_case", "remove_fanout_one_wires", "merge_const_port_assignment", "decouple_generator_ports", "fix_assignment_type", "remove_unused_vars", "remove_unused_stmts", "merge_wire_assignments", "hash_generators_parallel",
                         "inline_instance", "uniquify_generators", "create_module_instantiation", "create_interface_instantiation", "lift_genvar_instances", "port_legality_fix"};
static const PL P_DEAD = {"dead_code_elimination", "remove_fanout_one_wires", "decouple_generator_ports", "fix_assignment_type", "remove_unused_vars", "create_module_instantiation", "create_interface_instantiation"};
static const PL SETS[] = {P_THROUGH, P_INLINE, P_CONST, P_LIFT, P_LEGAL, P_ALL, P_DEAD};
static const char *SET_NAMES[] = {"through", "inline", "const", "lift", "legal", "all", "dead"};
static void mark(Generator &g) {
    auto a = std::make_shared<kratos::Attribute>();
    a->value_str = "inline";
    g.add_attribute(a);
}
// Instances in a generate loop: the text as it is emitted is a known finding (the outputs' former assignments are left
// behind, the index is cast to a signed value); the other reading has both put right, so everything else is decided.
static void lifted(mc::Ctx &c, std::vector<std::pair<std::string, std::string>> &t, std::string &key) {
    for (auto &[name, s] : t) {
        if (s.find("for (genvar") == std::string::npos) continue;
        c.count("lifted");
        if (!c.choose(2, "reading")) { key = "lift as emitted"; continue; }
        auto loop = s.find("for (genvar");
        std::string head = s.substr(0, loop), tail = s.substr(loop), out;
        tail = std::regex_replace(tail, std::regex("([0-9]+)'\\((i\\w*)\\)"), "unsigned'($1'($2))");
        std::istringstream in(head);
        std::regex left("assign (\\w+)\\[\\d+\\] = (\\w+);");
        std::smatch m;
        for (std::string l; std::getline(in, l);) {
            if (std::regex_match(l, m, left) && tail.find("(" + m[1].str() + "[") != std::string::npos) {
                size_t n = 0;
                std::regex word("\\b" + m[2].str() + "\\b");
                for (std::sregex_iterator it(s.begin(), s.end(), word), e; it != e; ++it) n++;
                if (n == 2) continue;
            }
            out += l + "\n";
        }
        s = out + tail;
    }
}
static void fin(mc::Ctx &c, Top &v, int set, Check k = {}) {
    std::string key = std::string(SET_NAMES[set]) + " ";
    k.key = key + v.t;
    k.emit.passes = SETS[set];
    k.opt.both_fills = false;
    if (set == 3 || set == 5) k.reading = [&c](auto &t, std::string &key) { lifted(c, t, key); };
    if (v.small) {
        k.opt.alphabet["a"] = {0, 6, 13};
        k.opt.alphabet["b"] = {0, 2};
        k.opt.clocks = {"c"};
    }
    check(c, v.u, k, k.key);
}
static const std::vector<int> IN1 = {0, 1, 2, 4, 3, 5};
static void one(mc::Ctx &c, int set, bool full) {
    Top v;
    int kind = c.choose(Top::NKIND, "child");
    v.t = std::string(Top::kind_name(kind)) + " ";
    accepted(c, "one:rejected", "a legal connection is rejected", [&] {
        Child k = v.child("child", "inst", nullptr, kind);
        if (set == 1 || set == 5) mark(*k.g);
        int i4 = c.choose(13, "x source"), i1 = kind == 12 ? 0 : IN1[c.choose(full ? 6 : 3, "e source")], o4 = c.choose(full ? Top::NSINK4 : 13, "q sink"), o1 = c.choose(full ? 3 : 2, "r sink");
        if (full && c.flip("outputs first")) { v.sink4(c, k.q, o4, v.o); v.sink1(c, k.r, o1, v.p); v.drive4(c, k.x, i4, nullptr); v.drive1(c, k.e, i1, nullptr); }
        else { v.drive4(c, k.x, i4, nullptr); v.drive1(c, k.e, i1, nullptr); v.sink4(c, k.q, o4, v.o); v.sink1(c, k.r, o1, v.p); }
    });
    fin(c, v, set);
}
// every sink of the outputs, a few sources
static void sinks(mc::Ctx &c, int set) {
    Top v;
    int kind = std::vector<int>{0, 1, 8, 14, 9, 15}[c.choose(6, "child")];
    v.t = std::string(Top::kind_name(kind)) + " ";
    accepted(c, "one:rejected", "a legal connection is rejected", [&] {
        Child k = v.child("child", "inst", nullptr, kind);
        if (set == 1 || set == 5) mark(*k.g);
        int i4 = std::vector<int>{0, 3, 6, 11}[c.choose(4, "x source")], o4 = c.choose(Top::NSINK4, "q sink"), o1 = c.choose(Top::NSINK1, "r sink");
        bool of = c.flip("outputs first");
        if (of) { v.sink4(c, k.q, o4, v.o); v.sink1(c, k.r, o1, v.p); }
        v.drive4(c, k.x, i4, nullptr); v.drive1(c, k.e, 0, nullptr);
        if (!of) { v.sink4(c, k.q, o4, v.o); v.sink1(c, k.r, o1, v.p); }
        if (of) v.t += " first";
    });
    fin(c, v, set);
}
// two instances, the second fed by the first
static void two(mc::Ctx &c, int set) {
    Top v;
    int k1 = std::vector<int>{0, 8, 14, 1, 5}[c.choose(c.thorough ? 5 : 3, "first")], k2 = std::vector<int>{1, 8, 14, 0, 9}[c.choose(c.thorough ? 5 : 3, "second")];
    v.t = std::string(Top::kind_name(k1)) + "," + Top::kind_name(k2) + " ";
    accepted(c, "two:rejected", "a legal connection is rejected", [&] {
        Child k = v.child("child", "i1", nullptr, k1), m = v.child(k1 == k2 ? "child" : "other", "i2", nullptr, k2);
        int which = c.choose(set == 1 || set == 5 ? 3 : 1, "marked");
        if (set == 1 || set == 5) { if (which != 1) mark(*k.g); if (which != 2) mark(*m.g); }
        int i4 = std::vector<int>{0, 2, 3, 4, 11}[c.choose(c.thorough ? 5 : 3, "x of the first")], how = std::vector<int>{12, 13, 14, 15, 0}[c.choose(5, "x of the second")], e2 = std::vector<int>{6, 7, 0, 1}[c.choose(4, "e of the second")], both = c.choose(3, "first's output also used");
        int o4 = std::vector<int>{0, 1, 3, 4}[c.choose(4, "sink")];
        bool late = c.thorough && c.flip("connected before driven");
        v.t += " m" + std::to_string(which) + (late ? " late" : "") + " both" + std::to_string(both);
        auto first = [&] { v.drive4(c, k.x, i4, nullptr); v.drive1(c, k.e, 0, nullptr); };
        if (!late) first();
        v.drive4(c, m.x, how, &k.q);
        v.drive1(c, m.e, e2, &k.r);
        if (both == 1) { DX t = v.fresh(4); v.u.cont(*v.g, t, k.q); v.u.cont(*v.g, v.p, t); }
        else if (both == 2) v.u.cont(*v.g, v.p, v.u.bin(B::Or, k.q, m.q));
        else v.u.cont(*v.g, v.p, v.u.cat(v.b, v.u.cat(m.r, k.r)));
        v.sink4(c, m.q, o4, v.o);
        if (late) first();
    });
    fin(c, v, set);
}
// the parent reads the child's own input port
static void readback(mc::Ctx &c, int set) {
    Top v;
    int kind = std::vector<int>{0, 1, 8}[c.choose(3, "child")];
    v.t = std::string(Top::kind_name(kind)) + " ";
    accepted(c, "readback:rejected", "a legal connection is rejected", [&] {
        Child k = v.child("child", "inst", nullptr, kind);
        if (set == 1 || set == 5) mark(*k.g);
        int i4 = c.choose(13, "x source"), s = c.choose(12, "use");
        v.drive4(c, k.x, i4, nullptr);
        v.drive1(c, k.e, c.choose(3, "e"), nullptr);
        auto &u = v.u;
        auto &g = *v.g;
        v.t += " use" + std::to_string(s);
        switch (s) {
            case 0: u.cont(g, v.o, k.x); break;
            case 1: u.cont(g, v.o, u.bin(B::Add, k.x, v.a)); break;
            case 2: u.cont(g, v.o, u.cat(u.slice(k.x, 1, 0), v.b)); break;
            case 3: { DX t = v.fresh(2); u.cont(g, t, u.slice(k.x, 2, 1)); u.cont(g, v.o, u.cat(t, v.b)); break; }
            case 4: u.comb(g, {u.if_(k.e, {u.assign(v.o, v.a)}, {u.assign(v.o, k.q)})}); break;
            case 5: u.comb(g, {u.if_(u.bin(B::Eq, k.x, u.con(3, 4)), {u.assign(v.o, v.a)}, {u.assign(v.o, k.q)})}); break;
            case 6: u.comb(g, {u.assign(v.o, v.a), u.switch_(k.x, {{u.con(3, 4), {u.assign(v.o, u.con(1, 4))}}, {u.con(7, 4), {u.assign(v.o, k.x)}}}, nullptr)}); break;
            case 7: u.comb(g, {u.assign(v.o, v.a), u.if_(u.slice(k.x, 1, 1), {u.assign(v.o, u.con(1, 4))}, {})}); break;
            case 8: { Child m = v.child("other", "i2"); u.cont(g, m.x, k.x); u.cont(g, m.e, k.e); u.cont(g, v.o, m.q); break; }
            case 9: u.cont(g, v.o, u.mux(k.e, v.a, k.x)); break;
            case 10: u.cont(g, v.o, u.bin(B::Sub, u.bin(B::And, k.x, v.a), u.ext(u.slice(k.x, 3, 2), 4))); break;
            default: { Child m = v.child("other", "i2"); u.cont(g, m.x, u.cat(u.slice(k.x, 1, 0), u.slice(k.x, 3, 2))); u.cont(g, m.e, u.slice(k.x, 0, 0)); u.cont(g, v.o, m.q); break; }
        }
        u.cont(g, v.p, k.q);
    });
    fin(c, v, set);
}
// three levels
static void nested(mc::Ctx &c, int set) {
    Top v;
    auto &u = v.u;
    int kind = c.choose(Top::NKIND, "inner");
    v.t = std::string(Top::kind_name(kind)) + " ";
    accepted(c, "nested:rejected", "a legal connection is rejected", [&] {
        auto &mid = u.ctx.generator("mid");
        mid.instance_name = "m";
        DX mx = u.port(mid, true, "mx", 4), me = u.port(mid, true, "me", 1), mo = u.port(mid, false, "mo", 4), mr = u.port(mid, false, "mr", 1);
        v.g->add_child_generator("m", mid.shared_from_this());
        Child k = v.child("child", "g1", &mid, kind);
        int n = c.choose(4, "in"), w = c.choose(3, "out"), two = c.choose(2, "second");
        switch (n) {
            case 0: u.cont(mid, k.x, mx); break;
            case 1: u.cont(mid, k.x, u.un(U::Inv, mx)); break;
            case 2: u.cont(mid, k.x, u.con(10, 4)); break;
            default: { DX z = u.var(mid, "z", 4); u.cont(mid, z, u.con(6, 4)); u.cont(mid, k.x, z); break; }
        }
        u.cont(mid, k.e, me);
        DX q = k.q, r = k.r;
        Child k2;
        if (two) {
            k2 = v.child(kind == 1 ? "child" : "child2", "g2", &mid, 1);
            u.cont(mid, k2.x, q);
            u.cont(mid, k2.e, r);
            q = k2.q; r = k2.r;
        }
        switch (w) {
            case 0: u.cont(mid, mo, q); break;
            case 1: u.cont(mid, mo, u.bin(B::Xor, q, mx)); break;
            default: { DX z = u.var(mid, "y", 4); u.cont(mid, z, q); u.comb(mid, {u.assign(mo, z)}); break; }
        }
        u.cont(mid, mr, r);
        int which = set == 1 || set == 5 ? c.choose(3, "marked") : 0;
        if (set == 1 || set == 5) { if (which != 1) mark(*k.g); if (which != 2) mark(mid); if (two && which != 1) mark(*k2.g); }
        v.drive4(c, mx, c.choose(3, "x") * 2, nullptr);
        v.drive1(c, me, 0, nullptr);
        v.sink4(c, mo, c.choose(3, "sink") * 2, v.o);
        v.sink1(c, mr, c.choose(2, "sink1"), v.p);
        v.t += " n" + std::to_string(n) + std::to_string(w) + std::to_string(two) + " m" + std::to_string(which);
    });
    fin(c, v, set);
}
// a constant that reaches a child's port in some way or only sometimes
static void consts(mc::Ctx &c, int set) {
    Top v;
    auto &u = v.u;
    auto &g = *v.g;
    accepted(c, "const:rejected", "a legal connection is rejected", [&] {
        int how = c.choose(14, "source"), kind = std::vector<int>{0, 1, 12}[c.choose(3, "child")], to = c.choose(7, "sink");
        Child k = v.child("child", "i1", nullptr, kind);
        v.t = "how" + std::to_string(how) + " to" + std::to_string(to) + " " + Top::kind_name(kind);
        DX w = u.var(g, "w", 4);
        DX five = u.con(5, 4);
        switch (how) {
            case 0: u.cont(g, w, five); break;
            case 1: u.comb(g, {u.assign(w, five)}); break;
            case 2: v.small = true; u.latch(g, {u.if_(v.c, {u.assign(w, five)}, {})}); break;
            case 3: v.small = true; u.seq(g, {{v.c, true}}, {u.assign(w, five, true)}); break;
            case 4: u.cont(g, u.slice(w, 3, 2), u.con(2, 2)); u.cont(g, u.slice(w, 1, 0), v.b); break;
            case 5: u.cont(g, w, u.ext(u.con(2, 2), 4)); break;
            case 6: u.cont(g, w, u.un(U::Inv, five)); break;
            case 7: u.comb(g, {u.assign(w, v.a), u.if_(v.c, {u.assign(w, five)}, {})}); break;
            case 8: u.cont(g, w, u.con(13, 4)); break;
            case 9: u.initial(g, {u.assign(w, five)}); break;
            case 10: { DX z = u.var(g, "z", 4); u.cont(g, z, five); u.cont(g, w, z); break; }
            case 11: u.comb(g, {u.for_("i", 0, 4, 1, [&](const DX &i) { return std::vector<DS>{u.assign(u.bit(w, i), u.con(1, 1))}; })}); break;
            case 12: { DX z = u.arr(g, 0, "z", 4, {2}); u.cont(g, u.elem(z, 0, 4), five); u.cont(g, u.elem(z, 1, 4), v.a); u.cont(g, w, u.elem(z, v.c, 4)); break; }
            default: u.seq(g, {{v.c, true}}, {u.if_(u.slice(v.a, 1, 1), {u.assign(w, five, true)}, {})}); v.small = true; break;
        }
        switch (to) {
            case 0: u.cont(g, k.x, w); break;
            case 1: u.cont(g, k.x, u.un(U::Inv, w)); break;
            case 2: u.comb(g, {u.assign(k.x, w)}); break;
            case 3: u.comb(g, {u.assign(k.x, v.a), u.if_(u.slice(v.b, 0, 0), {u.assign(k.x, w)}, {})}); break;
            case 4: u.cont(g, u.slice(k.x, 1, 0), u.slice(w, 3, 2)); u.cont(g, u.slice(k.x, 3, 2), v.b); break;
            case 5: u.cont(g, k.x, w); { Child m = v.child("child", "i2", nullptr, kind); u.cont(g, m.x, w); u.cont(g, m.e, v.c); u.cont(g, v.p, m.q); } break;
            default: u.cont(g, k.x, w); u.comb(g, {u.if_(u.slice(w, 2, 2), {u.assign(v.p, v.a)}, {u.assign(v.p, w)})}); break;
        }
        if (to < 5) u.cont(g, v.p, v.a);
        v.drive1(c, k.e, kind == 12 ? 0 : c.choose(2, "e"), nullptr);
        u.cont(g, v.o, k.q);
    });
    fin(c, v, set);
}
// N instances of one module over arrays
static void loops(mc::Ctx &c, int set) {
    Top v;
    auto &u = v.u;
    auto &g = *v.g;
    accepted(c, "loops:rejected", "a legal connection is rejected", [&] {
        int n = 2 + c.choose(2, "instances"), kind = std::vector<int>{0, 8, 2}[c.choose(3, "child")];
        int in = c.choose(9, "x"), e = c.choose(5, "e"), out = c.choose(6, "q"), perm = c.choose(n == 2 ? 2 : c.thorough ? 6 : 3, "order"), names = c.choose(3, "names"), differ = c.choose(3, "one is different");
        v.t = "n" + std::to_string(n) + " in" + std::to_string(in) + " e" + std::to_string(e) + " out" + std::to_string(out) + " perm" + std::to_string(perm) + " names" + std::to_string(names) + " differ" + std::to_string(differ);
        bool pk = (c.thorough || !differ) && c.flip("packed");
        DX src = u.arr(g, 0, "src", 4, {(uint32_t)n}, pk), dst = u.arr(g, 0, "dst", 4, {(uint32_t)n}, pk), big = u.arr(g, 0, "big", 4, {(uint32_t)n + 1}, pk), es = u.var(g, "es", n), rs = u.var(g, "rs", n);
        for (int i = 0; i < n; i++) u.cont(g, u.elem(src, i, 4), u.bin(B::Add, v.a, u.con(3 * i, 4)));
        for (int i = 0; i <= n; i++) if (in == 4) u.cont(g, u.elem(big, i, 4), u.bin(B::Sub, v.a, u.con(2 * i, 4)));
        u.cont(g, es, u.slice(v.a, n - 1, 0));
        std::vector<int> ord(n);
        for (int i = 0; i < n; i++) ord[i] = i;
        for (int i = 0; i < perm; i++) std::next_permutation(ord.begin(), ord.end());
        DX t;
        if (in == 6) { t = v.fresh(4); u.cont(g, t, u.un(U::Inv, v.a)); }
        for (int j = 0; j < n; j++) {
            int i = ord[j];
            std::string inst = names == 0 ? "inst_" + std::to_string(i) : names == 1 ? std::string(1, 'x' + i) : i ? "u" + std::to_string(i) : "u";
            bool odd = differ && j == n - 1;
            Child k = v.child(odd && differ == 1 ? "other" : "child", inst, nullptr, odd ? 6 : kind);
            switch (in) {
                case 0: u.cont(g, k.x, u.elem(src, i, 4)); break;
                case 1: u.cont(g, k.x, u.elem(src, n - 1 - i, 4)); break;            // index order differs from the outputs'
                case 2: u.cont(g, k.x, v.a); break;
                case 3: u.cont(g, k.x, u.con(3, 4)); break;
                case 4: u.cont(g, k.x, u.elem(big, i + 1, 4)); break;
                case 5: u.cont(g, k.x, u.bin(B::Xor, v.a, u.con(i, 4))); break;
                case 6: u.cont(g, k.x, t); break;
                case 7: u.cont(g, k.x, j == 0 ? v.a : u.elem(src, i, 4)); break;
                default: u.cont(g, k.x, u.elem(src, 0, 4)); break;
            }
            switch (e) {
                case 0: u.cont(g, k.e, v.c); break;
                case 1: u.cont(g, k.e, u.slice(es, i, i)); break;
                case 2: u.cont(g, k.e, u.con(1, 1)); break;
                case 3: u.cont(g, k.e, u.con(i & 1, 1)); break;
                default: u.cont(g, k.e, u.slice(es, (i + 1) % n, (i + 1) % n)); break;
            }
            switch (out) {
                case 0: u.cont(g, u.elem(dst, i, 4), k.q); u.cont(g, u.slice(rs, i, i), k.r); break;
                case 1: u.cont(g, u.elem(dst, i, 4), k.q); u.cont(g, u.slice(rs, n - 1 - i, n - 1 - i), k.r); break;
                case 2: u.cont(g, u.elem(dst, i, 4), k.q); if (i == 0) u.cont(g, rs, u.cat(u.con(0, n - 1), k.r)); break;
                case 3: { DX w = v.fresh(4); u.cont(g, w, k.q); u.cont(g, u.elem(dst, i, 4), w); u.cont(g, u.slice(rs, i, i), k.r); break; }
                case 4: { DX w = v.fresh(4); u.cont(g, w, k.q); u.cont(g, u.elem(dst, i, 4), u.un(U::Inv, w)); u.cont(g, u.slice(rs, i, i), k.r); break; }
                default: u.cont(g, u.elem(dst, i, 4), k.q); u.cont(g, u.slice(rs, i, i), u.bin(B::And, k.r, u.slice(k.q, 0, 0))); break;
            }
        }
        DX acc = u.elem(dst, 0, 4);
        for (int i = 1; i < n; i++) acc = u.bin(B::Sub, u.bin(B::Add, acc, acc), u.elem(dst, i, 4));
        u.cont(g, v.o, acc);
        u.cont(g, v.p, u.ext(rs, 4));
    });
    fin(c, v, set);
}
int main(int argc, char **argv) {
    std::cerr.rdbuf(nullptr);
    std::vector<mc::Family> f;
    for (int s = 0; s < 7; s++) {
        std::string n = SET_NAMES[s];
        f.push_back({n + " one", [s](mc::Ctx &c) { one(c, s, c.thorough); }, 3});
        f.push_back({n + " sinks", [s](mc::Ctx &c) { sinks(c, s); }, 3});
        f.push_back({n + " two", [s](mc::Ctx &c) { two(c, s); }, 3});
        f.push_back({n + " nested", [s](mc::Ctx &c) { nested(c, s); }, 3});
        if (s == 4 || s == 5) f.push_back({n + " readback", [s](mc::Ctx &c) { readback(c, s); }, 3});
        if (s == 2 || s == 5) f.push_back({n + " consts", [s](mc::Ctx &c) { consts(c, s); }, 3});
        if (s == 3 || s == 5) f.push_back({n + " loops", [s](mc::Ctx &c) { loops(c, s); }, 3});
    }
    return mc::run("C06", f, argc, argv, "model_checking",
                   {"hierarchies of at most three levels and four instances over four-bit data, the shapes of checks/hier.hh; every input value, and every history where there is state",
                    "the SystemVerilog reading is that of core/svparse.cc and core/svelab.cc"});
}
