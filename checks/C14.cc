// C14: generators that share a name may only share a definition when they are the same.
#include "dual.hh"
#include <iostream>
using namespace dual;
struct Io { DX x, e, ck, rs, q; };
struct Body { const char *name; bool state; std::function<void(Dual &, Generator &, const Io &)> f; };
static std::vector<Body> bodies() {
    std::vector<Body> r;
#define C_(n, ...) r.push_back({n, false, [](Dual &u, Generator &m, const Io &i) { (void)i; __VA_ARGS__; }})
#define S_(n, ...) r.push_back({n, true, [](Dual &u, Generator &m, const Io &i) { (void)i; __VA_ARGS__; }})
#define A(...) u.cont(m, i.q, __VA_ARGS__)
    auto bin = [&](const char *n, B op, int how) {
        r.push_back({n, false, [=](Dual &u, Generator &m, const Io &i) {
            DX y = u.ext(i.e, 4);
            u.cont(m, i.q, how == 0 ? u.bin(op, i.x, y) : how == 1 ? u.bin(op, y, i.x) : u.bin(op, i.x, i.x)); }});
    };
    bin("x+e", B::Add, 0); bin("x-e", B::Sub, 0); bin("e-x", B::Sub, 1); bin("x<<e", B::Shl, 0); bin("x>>e", B::Shr, 0);
    bin("e<<x", B::Shl, 1); bin("x&x", B::And, 2); bin("x^x", B::Xor, 2); bin("x-x", B::Sub, 2); bin("x|e", B::Or, 0); bin("x*e", B::Mul, 0);
    C_("x", A(i.x)); C_("~x", A(u.un(U::Inv, i.x))); C_("-x", A(u.un(U::Neg, i.x)));
    C_("~~x", A(u.un(U::Inv, u.un(U::Inv, i.x))));
    C_("0", A(u.con(0, 4))); C_("1", A(u.con(1, 4))); C_("9", A(u.con(9, 4)));
    C_("x+1", A(u.bin(B::Add, i.x, u.con(1, 4)))); C_("1+x", A(u.bin(B::Add, u.con(1, 4), i.x))); C_("x-1", A(u.bin(B::Sub, i.x, u.con(1, 4)))); C_("x+3", A(u.bin(B::Add, i.x, u.con(3, 4))));
    C_("(x-1)-e", A(u.bin(B::Sub, u.bin(B::Sub, i.x, u.con(1, 4)), u.ext(i.e, 4)))); C_("x-(1-e)", A(u.bin(B::Sub, i.x, u.bin(B::Sub, u.con(1, 4), u.ext(i.e, 4)))));
    C_("ext x[1:0]", A(u.ext(u.slice(i.x, 1, 0), 4))); C_("ext x[2:1]", A(u.ext(u.slice(i.x, 2, 1), 4))); C_("ext x[2:0]", A(u.ext(u.slice(i.x, 2, 0), 4)));
    C_("{x0,x31}", A(u.cat(u.slice(i.x, 0, 0), u.slice(i.x, 3, 1)))); C_("{x31,x0}", A(u.cat(u.slice(i.x, 3, 1), u.slice(i.x, 0, 0))));
    C_("{4{e}}", A(u.dup(i.e, 4))); C_("{2{x10}}", A(u.dup(u.slice(i.x, 1, 0), 2))); C_("{2{x32}}", A(u.dup(u.slice(i.x, 3, 2), 2)));
    C_("e?x:1", A(u.mux(i.e, i.x, u.con(1, 4)))); C_("e?1:x", A(u.mux(i.e, u.con(1, 4), i.x))); C_("x0?x:1", A(u.mux(u.slice(i.x, 0, 0), i.x, u.con(1, 4)))); C_("!e?x:1", A(u.mux(u.un(U::RNot, i.e), i.x, u.con(1, 4))));
    C_("asr", A(u.cast(u.bin(B::AShr, u.cast(i.x, true), u.con(1, 4, true)), false))); C_("asr unsigned", A(u.bin(B::AShr, i.x, u.con(1, 4))));
    C_("&x", A(u.ext(u.un(U::RAnd, i.x), 4))); C_("|x", A(u.ext(u.un(U::ROr, i.x), 4))); C_("^x", A(u.ext(u.un(U::RXor, i.x), 4)));
    C_("x<3", A(u.ext(u.bin(B::Lt, i.x, u.con(3, 4)), 4))); C_("x<=3", A(u.ext(u.bin(B::Le, i.x, u.con(3, 4)), 4))); C_("x<3 signed", A(u.ext(u.bin(B::Lt, u.cast(i.x, true), u.con(3, 4, true)), 4)));
    C_("x[e]", A(u.ext(u.bit(i.x, i.e), 4))); C_("x[x]", A(u.ext(u.bit(i.x, u.slice(i.x, 1, 0)), 4)));
    // statements
#define IF_(c, t, e) u.comb(m, {u.if_(c, {t}, {e})})
    C_("if e x else 0", IF_(i.e, u.assign(i.q, i.x), u.assign(i.q, u.con(0, 4)))); C_("if e 0 else x", IF_(i.e, u.assign(i.q, u.con(0, 4)), u.assign(i.q, i.x))); C_("if x3 x else 0", IF_(u.slice(i.x, 3, 3), u.assign(i.q, i.x), u.assign(i.q, u.con(0, 4))));
    C_("0;if e x", u.comb(m, {u.assign(i.q, u.con(0, 4)), u.if_(i.e, {u.assign(i.q, i.x)}, {})})); C_("if e x;0", u.comb(m, {u.if_(i.e, {u.assign(i.q, i.x)}, {}), u.assign(i.q, u.con(0, 4))}));
    C_("nest in", u.comb(m, {u.assign(i.q, u.con(0, 4)), u.if_(i.e, {u.assign(i.q, i.x), u.if_(u.slice(i.x, 0, 0), {u.assign(i.q, u.con(7, 4))}, {})}, {})}));
    C_("nest after", u.comb(m, {u.assign(i.q, u.con(0, 4)), u.if_(i.e, {u.assign(i.q, i.x)}, {}), u.if_(u.slice(i.x, 0, 0), {u.assign(i.q, u.con(7, 4))}, {})}));
    C_("nest else", u.comb(m, {u.assign(i.q, u.con(0, 4)), u.if_(i.e, {u.assign(i.q, i.x)}, {u.if_(u.slice(i.x, 0, 0), {u.assign(i.q, u.con(7, 4))}, {})})}));
    auto sw = [&](const char *n, int l0, int l1, bool d, int v0) {
        r.push_back({n, false, [=](Dual &u, Generator &m, const Io &i) {
            std::vector<DS> dv{u.assign(i.q, u.con(12, 4))}, none;
            std::vector<std::pair<DX, std::vector<DS>>> items{{u.con(l0, 2), {u.assign(i.q, u.con(v0, 4))}}, {u.con(l1, 2), {u.assign(i.q, i.x)}}};
            u.comb(m, {u.assign(i.q, u.con(0, 4)), u.switch_(u.slice(i.x, 1, 0), items, d ? &dv : nullptr)}); }});
    };
    sw("case 0 1", 0, 1, false, 5); sw("case 0 2", 0, 2, false, 5); sw("case 1 0", 1, 0, false, 5); sw("case 0 1 d", 0, 1, true, 5); sw("case 0 1 v", 0, 1, false, 6);
    C_("case on 32", u.comb(m, {u.assign(i.q, u.con(0, 4)), u.switch_(u.slice(i.x, 3, 2), {{u.con(0, 2), {u.assign(i.q, u.con(5, 4))}}, {u.con(1, 2), {u.assign(i.q, i.x)}}}, nullptr)}));
    C_("comb q=x", u.comb(m, {u.assign(i.q, i.x)}));
    C_("two comb", u.comb(m, {u.assign(u.slice(i.q, 1, 0), u.slice(i.x, 1, 0))}); u.comb(m, {u.assign(u.slice(i.q, 3, 2), u.slice(i.x, 1, 0))}));
    C_("q slices", u.cont(m, u.slice(i.q, 1, 0), u.slice(i.x, 3, 2)); u.cont(m, u.slice(i.q, 3, 2), u.slice(i.x, 1, 0)));
    C_("q slices id", u.cont(m, u.slice(i.q, 1, 0), u.slice(i.x, 1, 0)); u.cont(m, u.slice(i.q, 3, 2), u.slice(i.x, 3, 2)));
    C_("q slices mv", u.cont(m, u.slice(i.q, 0, 0), u.slice(i.x, 3, 3)); u.cont(m, u.slice(i.q, 3, 1), u.slice(i.x, 2, 0)));
    // local variables
    auto loc = [&](const char *n, int w, bool s) { r.push_back({n, false, [=](Dual &u, Generator &m, const Io &i) { DX v = u.var(m, "v", w, s); u.cont(m, v, s ? u.cast(u.bin(B::Add, i.x, i.x), true) : w == 4 ? u.bin(B::Add, i.x, i.x) : u.bin(B::Add, u.ext(i.x, w), u.ext(i.x, w))); u.cont(m, i.q, s ? u.cast(u.bin(B::AShr, v, u.con(1, 4, true)), false) : w == 4 ? u.bin(B::Shr, v, u.con(1, 4)) : u.bin(B::Add, u.slice(v, 4, 1), u.con(0, 4))); }}); };
    loc("local 4", 4, false); loc("local 5", 5, false); loc("local s", 4, true);
    auto la = [&](const char *n, int k, bool packed) { r.push_back({n, false, [=](Dual &u, Generator &m, const Io &i) { DX v = u.arr(m, 0, "v", 4, {(uint32_t)k}, packed); for (int j = 0; j < k; j++) u.cont(m, u.elem(v, j, 4), u.bin(B::Add, i.x, u.con(j, 4))); u.cont(m, i.q, u.elem(v, u.ext(i.e, k > 2 ? 2 : 1).w == 2 ? u.slice(i.x, 1, 0) : i.e, 4)); }}); };
    la("array 2", 2, true); la("array 4", 4, true); la("array 2 unpacked", 2, false);
    // functions
    auto fn = [&](const char *n, int how) { r.push_back({n, false, [=](Dual &u, Generator &m, const Io &i) {
        auto f = u.func(m, "f", {{"a", 4, false}, {"b", 4, false}}, 4, false);
        u.func_body(f, {u.ret(f, u.bin(how == 0 ? B::Sub : B::Add, how == 2 ? f.args[1] : f.args[0], how == 2 ? u.con(2, 4) : f.args[1]))});
        u.cont(m, i.q, u.call(m, f, how == 3 ? std::vector<DX>{u.con(1, 4), i.x} : std::vector<DX>{i.x, u.con(1, 4)})); }}); };
    fn("f a-b", 0); fn("f a+b", 1); fn("f b+2", 2);
    r.push_back({"f a-b swapped", false, [](Dual &u, Generator &m, const Io &i) { auto f = u.func(m, "f", {{"a", 4, false}, {"b", 4, false}}, 4, false); u.func_body(f, {u.ret(f, u.bin(B::Sub, f.args[0], f.args[1]))}); u.cont(m, i.q, u.call(m, f, {u.con(1, 4), i.x})); }});
    r.push_back({"f arg order", false, [](Dual &u, Generator &m, const Io &i) { auto f = u.func(m, "f", {{"a", 4, false}, {"b", 4, false}}, 4, false, {{"a", 1}, {"b", 0}}); u.func_body(f, {u.ret(f, u.bin(B::Sub, f.args[0], f.args[1]))}); u.cont(m, i.q, u.call(m, f, {i.x, u.con(1, 4)})); }});
    // loops
    auto lp = [&](const char *n, int a, int b, int st, bool rev) { r.push_back({n, false, [=](Dual &u, Generator &m, const Io &i) {
        DX v = u.arr(m, 0, "v", 1, {4}), w = u.arr(m, 0, "w", 1, {4});
        for (int j = 0; j < 4; j++) u.cont(m, u.elem(v, j, 1), u.slice(i.x, j, j));
        u.comb(m, {u.assign(w, u.con(0, 4)), u.for_("k", a, b, st, [&](const DX &k) { return std::vector<DS>{u.assign(u.elem(w, k, 1), rev ? u.un(U::Inv, u.elem(v, k, 1)) : u.elem(v, k, 1))}; })});
        u.cont(m, i.q, u.cat(u.cat(u.elem(w, 3, 1), u.elem(w, 2, 1)), u.cat(u.elem(w, 1, 1), u.elem(w, 0, 1)))); }}); };
    lp("for 0 4", 0, 4, 1, false); lp("for 0 4 2", 0, 4, 2, false); lp("for 1 4", 1, 4, 1, false); lp("for 0 3", 0, 3, 1, false); lp("for ~", 0, 4, 1, true); lp("for down", 3, 0, -1, false);
    // children of the generator
    auto ch = [&](const char *n, int leaf, bool inv, bool both, const char *inst) { r.push_back({n, false, [=](Dual &u, Generator &m, const Io &i) {
        auto mk = [&](const std::string &in, const DX &from) {
            auto &l = u.ctx.generator("leaf");
            l.instance_name = m.instance_name + "_" + in;     // names of the reference signals
            DX y = u.port(l, true, "y", 4), z = u.port(l, false, "z", 4);
            u.cont(l, z, leaf == 0 ? u.bin(B::Add, y, u.con(5, 4)) : leaf == 1 ? u.bin(B::Add, y, u.con(4, 4)) : u.un(U::Neg, y));
            m.add_child_generator(in, l.shared_from_this());
            u.cont(m, y, from);
            return z; };
        DX z = mk(inst, inv ? u.un(U::Inv, i.x) : i.x);
        if (both) z = mk("c2", z);
        u.cont(m, i.q, z); }}); };
    ch("child +5", 0, false, false, "c"); ch("child +4", 1, false, false, "c"); ch("child -", 2, false, false, "c"); ch("child ~+5", 0, true, false, "c"); ch("child twice", 0, false, true, "c"); ch("child d +5", 0, false, false, "d");
    // state
#define SEQ_(sens, b) u.seq(m, sens, {b})
    using E = std::vector<std::pair<DX, bool>>;
    S_("ff", SEQ_((E{{i.ck, true}}), u.assign(i.q, i.x, true))); S_("ff neg", SEQ_((E{{i.ck, false}}), u.assign(i.q, i.x, true))); S_("ff rs", SEQ_((E{{i.rs, true}}), u.assign(i.q, i.x, true)));
    S_("ff e", SEQ_((E{{i.ck, true}}), u.if_(i.e, {u.assign(i.q, i.x, true)}, {}))); S_("ff inc", SEQ_((E{{i.ck, true}}), u.assign(i.q, u.bin(B::Add, i.x, u.con(1, 4)), true)));
    auto ar = [&](const char *n, bool async, bool pos, int val) { r.push_back({n, true, [=](Dual &u, Generator &m, const Io &i) {
        E s{{i.ck, true}}; if (async) s.push_back({i.rs, pos});
        u.seq(m, s, {u.if_(pos ? i.rs : u.un(U::RNot, i.rs), {u.assign(i.q, u.con(val, 4), true)}, {u.assign(i.q, i.x, true)})}); }}); };
    ar("rst async hi", true, true, 0); ar("rst async lo", true, false, 0); ar("rst sync hi", false, true, 0); ar("rst sync lo", false, false, 0); ar("rst async hi 3", true, true, 3);
    S_("latch", u.latch(m, {u.if_(i.e, {u.assign(i.q, i.x)}, {})})); S_("latch ~", u.latch(m, {u.if_(u.un(U::RNot, i.e), {u.assign(i.q, i.x)}, {})}));
    auto two = [&](const char *n, bool swap) { r.push_back({n, true, [=](Dual &u, Generator &m, const Io &i) {
        DX v = u.var(m, "v", 4); std::vector<DS> b{u.assign(v, i.x, true), u.assign(i.q, v, true)}; if (swap) std::swap(b[0], b[1]);
        u.seq(m, {{i.ck, true}}, b); }}); };
    two("pipe", false); two("pipe swapped", true);
    auto ini = [&](const char *n, int v) { r.push_back({n, true, [=](Dual &u, Generator &m, const Io &i) { if (v >= 0) u.initial(m, {u.assign(i.q, u.con(v, 4))}); u.latch(m, {u.if_(i.e, {u.assign(i.q, i.x)}, {})}); }}); };
    ini("init 3", 3); ini("init 5", 5);
#undef A
    return r;
}
static const std::vector<Body> &B_() { static auto b = bodies(); return b; }
struct Top {
    Dual u;
    Generator *g;
    DX a, b, ck, rs;
    bool state = false;
    std::vector<std::string> outs;
    Top() {
        g = &u.ctx.generator("mod");
        a = u.port(*g, true, "a", 4); b = u.port(*g, true, "b", 1);
        ck = u.port(*g, true, "ck", 1, false, PortType::Clock); rs = u.port(*g, true, "rs", 1);
    }
    std::pair<std::shared_ptr<Generator>, Io> make(Generator &p, const std::string &inst, int body, const std::string &mod = "sub") {
        auto &m = u.ctx.generator(mod);
        m.instance_name = inst;
        Io i;
        i.x = u.port(m, true, "x", 4); i.e = u.port(m, true, "e", 1); i.ck = u.port(m, true, "ck", 1, false, PortType::Clock); i.rs = u.port(m, true, "rs", 1);
        i.q = u.port(m, false, "q", 4);
        if (body >= 0) {
            p.add_child_generator(inst, m.shared_from_this());
            B_()[body].f(u, m, i);
            state |= B_()[body].state;
        }
        return {m.shared_from_this(), i};
    }
    void hook(Generator &p, const Io &i, const DX &x, const DX &e, const DX &c, const DX &r, const DX &o) {
        u.cont(p, i.x, x); u.cont(p, i.e, e); u.cont(p, i.ck, c); u.cont(p, i.rs, r); u.cont(p, o, i.q);
    }
    DX out(const std::string &n) { outs.push_back(n); return u.port(*g, false, n, 4); }
};
static int defs(const std::vector<std::pair<std::string, std::string>> &t, const std::string &stem) {
    int n = 0;
    for (auto &[name, s] : t) n += name == stem + ".sv" || name.rfind(stem + "_", 0) == 0;
    return n;
}
static const char *strat[2] = {"hash_generators_sequential", "hash_generators_parallel"};
// builds with every strategy, checks each, and compares the texts
static void both(mc::Ctx &c, const std::string &key, const std::string &what, const std::function<void(Top &)> &f, const std::map<std::string, int> &expect = {}) {
    std::string first;
    for (int s = 0; s < 2; s++) {
        Top v;
        accepted(c, key + ":rejected", what + " is rejected", [&] { f(v); });
        std::vector<std::string> ps{"decouple_generator_ports", "fix_assignment_type", strat[s], "uniquify_generators", "create_module_instantiation"};
        Check k;
        k.key = key; k.emit.passes = ps;
        k.opt.both_fills = false;
        if (v.state) { k.opt.clocks = {"ck", "rs"}; k.opt.alphabet["a"] = {0, 6, 13}; }
        check(c, v.u, k, what + (s ? " (parallel)" : ""));
        Emit e; e.passes = ps;
        auto t = text(*v.u.top, e);
        for (auto &[stem, n] : expect) if (defs(t, stem) != n)
            c.fail(key + ":definitions", what + ": " + std::to_string(defs(t, stem)) + " definitions of " + stem + " where " + std::to_string(n) + " should do\n" + join(t));
        if (!s) first = join(t);
        else if (first != join(t)) c.fail(key + ":strategy", what + ": the two ways of hashing give different designs\n" + first + "\nand\n" + join(t));
    }
}
int main(int argc, char **argv) {
    std::cerr.rdbuf(nullptr);
    int N = (int)B_().size();
    auto nm = [](int i) { return std::string(B_()[i].name); };
    std::vector<mc::Family> f;
    f.push_back({"pair", [=](mc::Ctx &c) {
        int i = c.choose(N, "first body"), j = c.choose(N, "second body");
        std::string what = "two generators named sub: \"" + nm(i) + "\" and \"" + nm(j) + "\"";
        std::map<std::string, int> ex;
        if (i == j) ex["sub"] = 1;
        both(c, "pair:" + nm(i) + "/" + nm(j), what, [&](Top &v) {
            auto p = v.make(*v.g, "s1", i), q = v.make(*v.g, "s2", j);
            v.hook(*v.g, p.second, v.a, v.b, v.ck, v.rs, v.out("o1"));
            v.hook(*v.g, q.second, v.a, v.b, v.ck, v.rs, v.out("o2"));
        }, ex);
    }, 2});
    // the difference is one level down, or in how the level in between uses it
    f.push_back({"nested", [=](mc::Ctx &c) {
        int i = c.choose(N, "first body"), j = c.choose(N, "second body"), d = c.choose(2, "depth"), twist = c.choose(3, "middle"), third = c.choose(3, "third");
        if (twist == 2 && (B_()[i].state || B_()[j].state)) c.skip();   // an enable and its latch would race
        if (!c.thorough && twist && i != j && (i + j) % 7) c.skip();
        if (!c.thorough && (third || d) && i != j && (i * 3 + j) % 5) c.skip();
        std::string what = "two generators named mid around \"" + nm(i) + "\" and \"" + nm(j) + "\", depth " + std::to_string(d) + " twist " + std::to_string(twist) + " third " + std::to_string(third);
        std::map<std::string, int> ex;
        if (i == j && !twist) { ex["mid"] = 1; ex["sub"] = 1; }
        both(c, "nested:" + nm(i) + "/" + nm(j) + std::to_string(d) + std::to_string(twist) + std::to_string(third), what, [&](Top &v) {
            int uid = 0;
            std::function<Io(Generator &, const std::string &, int, int, int)> mid = [&](Generator &p, const std::string &inst, int body, int depth, int tw) {
                auto m = v.make(p, inst, -1, depth == 0 ? "mid" : "outer");
                p.add_child_generator(inst, m.first);
                auto &g = *m.first;
                Io in = depth == 0 ? v.make(g, "s" + std::to_string(uid++) + "i", body).second : mid(g, "m" + std::to_string(uid++) + "i", body, depth - 1, tw);
                // the same instance name in both, so that only the content differs
                auto *kid = in.x.k->generator();
                g.rename_child_generator(kid->shared_from_this(), "inner");
                bool here = depth == 0;
                v.hook(g, in, here && tw == 1 ? v.u.un(U::Inv, m.second.x) : m.second.x, here && tw == 2 ? v.u.un(U::RNot, m.second.e) : m.second.e, m.second.ck, m.second.rs, m.second.q);
                return m.second;
            };
            Io p = mid(*v.g, "a1", i, d, 0), q = mid(*v.g, "a2", j, d, twist);
            v.hook(*v.g, p, v.a, v.b, v.ck, v.rs, v.out("o1"));
            v.hook(*v.g, q, v.a, v.b, v.ck, v.rs, v.out("o2"));
            if (third) { Io r = v.make(*v.g, "a3", third == 1 ? i : j).second; v.hook(*v.g, r, v.a, v.b, v.ck, v.rs, v.out("o3")); }
        }, ex);
    }, 3});
    // several instances in every arrangement; names that collide with the generated ones
    f.push_back({"many", [=](mc::Ctx &c) {
        std::vector<int> pool{0, 1, 2, 12};
        int n = 3 + c.choose(c.thorough ? 3 : 2, "instances");
        std::vector<int> pick;
        std::string what = "instances";
        for (int k = 0; k < n; k++) { pick.push_back(pool[c.choose(k < 2 ? 2 : c.thorough ? 4 : 3, "body")]); what += " " + nm(pick.back()); }
        int clash = c.choose(4, "another module"), where = c.choose(2, "it comes first"), unique = c.choose(2, "a module shared by name");
        std::set<int> kinds(pick.begin(), pick.end());
        std::map<std::string, int> ex;
        if (!clash) ex["sub"] = (int)kinds.size();
        both(c, "many:" + what + std::to_string(clash) + std::to_string(where) + std::to_string(unique), what + " clash " + std::to_string(clash), [&](Top &v) {
            auto extra = [&] {
                if (!clash) return;
                static const char *names[] = {"", "sub_unq0", "sub_unq1", "sub_unq"};
                Io i = v.make(*v.g, "other", 13, names[clash]).second;
                v.hook(*v.g, i, v.a, v.b, v.ck, v.rs, v.out("oo"));
            };
            if (where) extra();
            for (int k = 0; k < n; k++) {
                Io i = v.make(*v.g, "s" + std::to_string(k), pick[k]).second;
                v.hook(*v.g, i, v.a, v.b, v.ck, v.rs, v.out("o" + std::to_string(k)));
            }
            if (!where) extra();
            if (unique) { Io i = v.make(*v.g, "single", 5, "lone").second; v.hook(*v.g, i, v.a, v.b, v.ck, v.rs, v.out("ol")); }
        }, ex);
    }, 3});
    // clones use the definition they were cloned from
    f.push_back({"clone", [=](mc::Ctx &c) {
        int i = c.choose(N, "first body"), j = c.choose(N, "second body"), which = c.choose(2, "the clone is of the second"), order = c.choose(2, "order"), early = c.choose(2, "cloned before it has a body");
        if (!c.thorough && early && (i + 2 * j) % 5) c.skip();
        std::string what = "generators named sub: \"" + nm(i) + "\" and \"" + nm(j) + "\", clone of " + std::to_string(which) + " order " + std::to_string(order);
        std::map<std::string, int> ex;
        if (i == j) ex["sub"] = 1;
        both(c, "clone:" + nm(i) + "/" + nm(j) + std::to_string(which) + std::to_string(order) + std::to_string(early), what, [&](Top &v) {
            int sel = which ? j : i;
            auto orig = v.make(*v.g, "s1", -1), other = v.make(*v.g, "s2", -1);
            if (order) { v.g->add_child_generator("s2", other.first); v.g->add_child_generator("s1", orig.first); }
            else { v.g->add_child_generator("s1", orig.first); v.g->add_child_generator("s2", other.first); }
            int oj = which ? i : j;
            auto body = [&] { B_()[sel].f(v.u, *orig.first, orig.second); B_()[oj].f(v.u, *other.first, other.second); v.state |= B_()[sel].state | B_()[oj].state; };
            if (!early) body();
            auto k = orig.first->clone();
            if (early) body();
            v.g->add_child_generator("s3", k);
            // the reference of the clone: the same body again, on a generator outside the design
            auto ref = v.make(*v.g, "s3", -1, "reference");
            B_()[sel].f(v.u, *ref.first, ref.second);
            Io io = ref.second;
            auto re = [&](DX &d, const char *n) { d.k = k->get_port(n).get(); };
            re(io.x, "x"); re(io.e, "e"); re(io.ck, "ck"); re(io.rs, "rs"); re(io.q, "q");
            v.hook(*v.g, orig.second, v.a, v.b, v.ck, v.rs, v.out("o1"));
            v.hook(*v.g, other.second, v.a, v.b, v.ck, v.rs, v.out("o2"));
            v.hook(*v.g, io, v.a, v.b, v.ck, v.rs, v.out("o3"));
        }, ex);
    }, 2});
    // interfaces of the modules differ; parameters
    f.push_back({"iface", [=](mc::Ctx &c) {
        static const char *kinds[] = {"plain", "signed x", "x 5 wide", "named y", "array x", "another input", "another output", "q swapped role", "q unpacked", "x packed array", "q driven twice wide"};
        int K = 11, i = c.choose(K, "first"), j = c.choose(K, "second");
        both(c, "iface:" + std::string(kinds[i]) + "/" + kinds[j], std::string("two generators named sub: ") + kinds[i] + " and " + kinds[j], [&](Top &v) {
            auto &u = v.u;
            int n = 0;
            for (int k : {i, j}) {
                auto &m = u.ctx.generator("sub");
                std::string inst = "s" + std::to_string(n);
                m.instance_name = inst;
                v.g->add_child_generator(inst, m.shared_from_this());
                DX o = v.out("o" + std::to_string(n++));
                if (k == 4 || k == 9) {
                    DX x = u.arr(m, 1, "x", 2, {2}, k == 9), q = u.port(m, false, "q", 4);
                    u.cont(m, q, u.cat(u.elem(x, 0, 2), u.elem(x, 1, 2)));
                    DX t = u.arr(*v.g, 0, "t" + std::to_string(n), 2, {2}, k == 9);
                    u.cont(*v.g, u.elem(t, 0, 2), u.slice(v.a, 1, 0)); u.cont(*v.g, u.elem(t, 1, 2), u.slice(v.a, 3, 2));
                    u.cont(*v.g, x, t); u.cont(*v.g, o, q);
                    continue;
                }
                if (k == 8) {
                    DX x = u.port(m, true, "x", 4), q = u.arr(m, 2, "q", 2, {2}, false);
                    u.cont(m, u.elem(q, 0, 2), u.slice(x, 3, 2)); u.cont(m, u.elem(q, 1, 2), u.slice(x, 1, 0));
                    DX t = u.arr(*v.g, 0, "t" + std::to_string(n), 2, {2}, false);
                    u.cont(*v.g, x, v.a); u.cont(*v.g, t, q); u.cont(*v.g, o, u.cat(u.elem(t, 1, 2), u.elem(t, 0, 2)));
                    continue;
                }
                int w = k == 2 ? 5 : 4;
                bool s = k == 1;
                DX x = u.port(m, true, k == 3 ? "y" : "x", w, s), q = u.port(m, false, k == 7 ? "p" : "q", 4), z;
                if (k == 5) z = u.port(m, true, "z", 1);
                if (k == 6) { z = u.port(m, false, "z", 1); u.cont(m, z, u.un(U::RXor, x)); }
                u.cont(m, q, s ? u.cast(u.bin(B::AShr, x, u.con(1, 4, true)), false) : k == 2 ? u.slice(x, 4, 1) : k == 10 ? u.bin(B::Shr, x, u.con(1, 4)) : u.bin(B::Shr, x, u.con(1, 4)));
                u.cont(*v.g, x, s ? u.cast(v.a, true) : k == 2 ? u.cat(v.a, v.b) : v.a);
                if (k == 5) u.cont(*v.g, z, v.b);
                if (k == 6) { u.cont(*v.g, u.slice(o, 3, 1), u.slice(q, 2, 0)); u.cont(*v.g, u.slice(o, 0, 0), z); }
                else u.cont(*v.g, o, q);
            }
        });
    }, 2});
    // parameters: the same definition serves different values, but not different declarations
    f.push_back({"param", [=](mc::Ctx &c) {
        int i = c.choose(4, "first value"), j = c.choose(4, "second value"), d1 = c.choose(4, "first declaration"), d2 = c.choose(4, "second declaration"), nest = c.choose(3, "below a module");
        static const int64_t vals[] = {-1, 0, 3, 7};
        std::map<std::string, int> ex;
        if (d1 == d2 && nest < 2) ex["sub"] = 1;
        if (d1 == d2 && nest && i == j) ex["mid"] = 1;
        std::string what = "parameters " + std::to_string(vals[i]) + " and " + std::to_string(vals[j]) + ", declared " + std::to_string(d1) + " and " + std::to_string(d2) + " nest " + std::to_string(nest);
        both(c, "param:" + what, what, [&](Top &v) {
            auto &u = v.u;
            for (int n = 0; n < 2; n++) {
                int val = n ? j : i, dec = n ? d2 : d1;
                Generator *p = v.g;
                DX a = v.a, o = v.out("o" + std::to_string(n));
                std::string tag = std::to_string(n);
                if (nest) {
                    auto &m = u.ctx.generator("mid");
                    m.instance_name = "m" + tag;
                    v.g->add_child_generator("m" + tag, m.shared_from_this());
                    DX ma = u.port(m, true, "ma", 4), mo = u.port(m, false, "mo", 4);
                    u.cont(*v.g, ma, v.a); u.cont(*v.g, o, mo);
                    p = &m; a = ma; o = mo;
                }
                auto &m = u.ctx.generator("sub");
                m.instance_name = "k" + tag;
                DX x = u.port(m, true, "x", 4), q = u.port(m, false, "q", 4);
                auto &prm = m.parameter("P", 4, dec == 1);
                if (dec == 2) m.parameter("Q", 2, false).set_initial_value(1);
                { int64_t iv = dec == 3 ? 5 : 1; prm.set_initial_value(iv); prm.set_value(iv); }
                if (vals[val] >= 0) prm.set_value(vals[val]);
                int64_t eff = vals[val] >= 0 ? vals[val] : dec == 3 ? 5 : 1;
                DX pk = u.con(eff, 4, dec == 1);
                pk.k = &prm;
                u.cont(m, q, u.bin(B::Add, x, dec == 1 ? u.cast(pk, false) : pk));
                p->add_child_generator("k" + tag, m.shared_from_this());
                if (nest) p->rename_child_generator(m.shared_from_this(), "k");
                u.cont(*p, x, a); u.cont(*p, o, q);
            }
        }, ex);
    }, 2});
    return mc::run("C14", f, argc, argv, "bounded-exhaustive",
        {"generators of at most three levels, up to five with one name, with the statement kinds of the list of bodies; port widths up to 5",
         "external sources and interfaces are compared by C19 and C22"});
}
