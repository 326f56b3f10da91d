// C04: every way of selecting bits denotes the right bits, in what the object reports and in the emitted text.
#include "dual.hh"
using namespace dual;
using rtl::u128;
struct Decl { int ew; std::vector<uint32_t> dims; bool ex = false; };
static std::string ds(const Decl &d) {
    std::string t = "w" + std::to_string(d.ew);
    for (auto x : d.dims) t += "x" + std::to_string(x);
    return t + (d.ex ? "E" : "");
}
static const std::vector<Decl> QUICK = {{1, {}}, {2, {}}, {5, {}}, {1, {2}}, {2, {3}}, {3, {1}, true}, {1, {1}, true}, {1, {2, 2}}, {2, {2, 2}}, {2, {1, 2}}, {2, {2, 1}}, {1, {2, 1}}, {2, {1, 1}}, {1, {1, 1}}, {2, {3, 2}}, {1, {2, 1, 2}}, {3, {4}}};
static const std::vector<Decl> DEEP = {{8, {}}, {1, {5}}, {2, {2, 3}}, {1, {2, 3, 2}}, {1, {3, 2, 2}}, {1, {1, 1, 2}}, {1, {2, 1, 1}}, {2, {2, 2, 2}}, {4, {3}}, {1, {8}}};
// what a selection denotes
struct Sel {
    DX x;                         // kratos object; the reference is built from off/lo
    std::vector<uint32_t> dims;   // what is left
    int ew = 1, lo = 0;
    int skew = 0;                 // what is reported instead of lo is lo + skew (see family layout)
    bool arr = true;              // still an array type (dims may be exhausted by a scalar)
    bool elem_signed = false;
    rtl::EP off;
    bool dyn = false;
    bool ranged = false;          // the last selection was a range
    int w() const { int r = ew; for (auto d : dims) r *= (int)d; return r; }
};
static void ref(Sel &s, const DX &root) {
    s.x.w = s.w();
    s.x.r = s.lo == 0 && !s.off && s.x.w == root.w ? root.r : rtl::part(root.r, s.off, s.lo, s.x.w);
    s.x.lv = {{root.lv[0].sig, s.off, s.lo, s.x.w}};
}
static rtl::EP addx(rtl::EP a, rtl::EP b) { return a ? rtl::mk(rtl::Op::Add, 64, false, {a, b}) : b; }
// one more selection; kinds: 0 constant index, 1 range, 2 run-time index
static void step(mc::Ctx &c, Dual &u, Generator &g, Sel &s, const std::string &iname, Check &k, std::string &t, bool write) {
    int n = s.dims.empty() ? s.ew : (int)s.dims[0];
    int kind = c.choose(3, "selection");
    int stride = 1;
    if (!s.dims.empty()) stride = s.w() / n;
    auto peel = [&](int i) {
        s.lo += i * stride;
        if (s.dims.empty()) { s.ew = 1; s.elem_signed = false; } else s.dims.erase(s.dims.begin());
    };
    if (kind == 0) {
        int i = c.choose(n, "index");
        s.x.k = &(*s.x.k)[(uint32_t)i];
        peel(i);
        t += "[" + std::to_string(i) + "]";
    } else if (kind == 1) {
        int lo = c.choose(n, "low"), hi = lo + c.choose(n - lo, "high");
        s.x.k = &(*s.x.k)[std::make_pair((uint32_t)hi, (uint32_t)lo)];
        t += "[" + std::to_string(hi) + ":" + std::to_string(lo) + "]";
        if (hi == lo) peel(lo);   // a range of one element is that element
        else {
            s.lo += lo * stride;
            if (s.dims.empty()) { s.ew = hi - lo + 1; s.elem_signed = false; } else s.dims[0] = hi - lo + 1;
        }
    } else {
        int w = 1;
        while ((1 << w) < n) w++;
        if (n == 1) c.skip();
        DX i = u.port(g, true, iname, w);
        for (int v = 0; v < n; v++) k.opt.alphabet[iname].push_back(v);
        s.x.k = &(*s.x.k)[i.p()];
        rtl::EP off = rtl::resize(i.r, 64, false);
        if (stride != 1) off = rtl::mk(rtl::Op::Mul, 64, false, {off, rtl::cst(stride, 64)});
        s.off = addx(s.off, off);
        peel(0);
        s.dyn = true;
        t += "[" + iname + "]";
    }
}
static int root_width(const Decl &d) { int w = d.ew; for (auto x : d.dims) w *= (int)x; return w; }
static std::vector<u128> pats(int w) {
    std::vector<u128> r = {0, rtl::mask(w)};
    for (int i = 0; i < w; i++) { r.push_back((u128)1 << i); r.push_back(rtl::mask(w) ^ ((u128)1 << i)); }
    return r;
}
static void report(mc::Ctx &c, const Sel &s, const std::string &key) {
    auto &v = *s.x.k;
    if (v.width() != (uint32_t)s.w()) c.fail(key + ":width", "the selection has " + std::to_string(s.w()) + " bits, width() reports " + std::to_string(v.width()));
    if (!s.dyn && (v.var_low() != (uint32_t)(s.lo + s.skew) || v.var_high() != (uint32_t)(s.lo + s.skew + s.w() - 1)))
        c.fail(key + ":bits", "the selection is bits " + std::to_string(s.lo + s.w() - 1) + ".." + std::to_string(s.lo) + ", the object reports " + std::to_string(v.var_high()) + ".." + std::to_string(v.var_low()));
    std::vector<uint32_t> sz = s.dims.empty() ? std::vector<uint32_t>{1} : s.dims;
    if (v.size() != sz) { std::string m; for (auto x : v.size()) m += " " + std::to_string(x); c.fail(key + ":size", "the dimensions left are reported as" + m); }
    if (v.is_signed() != s.elem_signed) c.fail(key + ":sign", "the selection reports the wrong signedness");
}
static DX like(Dual &u, Generator &g, int dir, const std::string &n, const Sel &s, bool packed) {
    if (s.dims.empty()) {
        if (dir == 0) return u.var(g, n, s.ew, s.elem_signed);
        return u.port(g, dir == 1, n, s.ew, s.elem_signed);
    }
    DX x = u.arr(g, dir, n, s.ew, s.dims, packed, s.elem_signed);
    if (s.dims.size() == 1 && s.dims[0] == 1) x.k->set_explicit_array(true);
    return x;
}
static void run(mc::Ctx &c, bool write) {
    Dual u;
    auto &g = u.ctx.generator("mod");
    Check k;
    std::vector<Decl> all = QUICK;
    all.insert(all.end(), DEEP.begin(), DEEP.end());
    const Decl &d = c.pick(all, "declaration");
    bool packed = d.dims.empty() || !c.flip("unpacked"), sg = c.flip("signed");
    if (d.ew == 1 && sg) c.skip();
    std::string t = ds(d) + (packed ? "" : " unpacked") + (sg ? " signed" : "") + " ";
    Sel s;
    s.dims = d.dims; s.ew = d.ew;
    s.elem_signed = sg;
    DX root, in;
    accepted(c, (write ? "write:rejected " : "read:rejected ") + t, "a legal selection is rejected", [&] {
        auto mk = [&](int dir, const std::string &n) {
            DX x = d.dims.empty() ? u.port(g, dir == 1, n, d.ew, sg) : u.arr(g, dir, n, d.ew, d.dims, packed, sg);
            if (d.ex) x.k->set_explicit_array(true);
            return x;
        };
        in = mk(1, "a");
        root = write ? mk(2, "o") : in;
        s.x = root;
        int depth = 1 + c.choose((int)d.dims.size() + (c.thorough || d.dims.size() < 3 ? 2 : 1), "depth");
        for (int i = 0; i < depth; i++) {
            bool array = !s.dims.empty();
            if (!array && s.ew == 1 && i > 0) c.skip();   // nothing left to select from
            step(c, u, g, s, "i" + std::to_string(i), k, t, write);
            // signedness: elements of an unpacked array keep their type, everything else is unsigned
            if (packed || !array) s.elem_signed = false;
            ref(s, root);
            s.x.s = s.elem_signed;
            report(c, s, (write ? "write " : "read ") + t);
        }
        s.x.t = t;
        if (!write) {
            DX o = like(u, g, 2, "o", s, packed);
            if (s.dims.empty() && c.flip("used in an expression")) {
                // width and sign of the selection as an operand
                DX one = u.con(1, s.ew, s.elem_signed);
                if (s.ew == 1) u.cont(g, o, u.un(U::Inv, s.x)); else u.cont(g, o, u.bin(c.flip("shift") ? B::AShr : B::Add, s.x, one));
            } else u.cont(g, o, s.x);
        } else {
            DX v = like(u, g, 1, "v", s, packed);
            int how = c.choose(2, "use");
            t += how ? " conditional" : "";
            if (how == 0) u.comb(g, {u.assign(root, in), u.assign(s.x, v)});
            else { DX e = u.port(g, true, "e", 1); u.comb(g, {u.assign(root, in), u.if_(e, {u.assign(s.x, v)}, {})}); }
            if (s.w() > 4) k.opt.alphabet["v"] = pats(s.w());
        }
    });
    int total = in.w;
    if (total > (c.thorough ? 8 : 6)) k.opt.alphabet["a"] = pats(total);
    k.key = (write ? "write " : "read ") + t;
    k.emit.passes = minimal;
    k.opt.both_fills = false;
    k.opt.outputs = {};
    check(c, u, k, t);
}
// two selections from one object, by every kind of index
static void pairs(mc::Ctx &c) {
    Dual u;
    auto &g = u.ctx.generator("mod");
    Check k;
    static const std::vector<Decl> D = {{4, {}}, {1, {4}}, {2, {4}}, {1, {4, 2}}, {1, {2, 4}}};
    const Decl &d = c.pick(D, "declaration");
    bool packed = d.dims.empty() || !c.flip("unpacked");
    std::string t = ds(d) + (packed ? "" : " unpacked") + " ";
    accepted(c, "pairs:rejected " + t, "a legal selection is rejected", [&] {
        auto mk = [&](int dir, const std::string &n) { return d.dims.empty() ? u.port(g, dir == 1, n, d.ew) : u.arr(g, dir, n, d.ew, d.dims, packed); };
        DX root = mk(1, "a");
        DX x = u.port(g, true, "x", 2), y = u.port(g, true, "y", 2), z = u.port(g, true, "z", 1);
        int variants = c.thorough ? 2 : (d.dims.size() > 1 ? 1 : 2);
        for (int q = 0; q < 2; q++) {
            Sel s;
            s.dims = d.dims; s.ew = d.ew; s.x = root;
            int depth = 1 + c.choose(variants, "depth");
            for (int i = 0; i < depth; i++) {
                int n = s.dims.empty() ? s.ew : (int)s.dims[0];
                if (n == 1) c.skip();
                int stride = s.dims.empty() ? 1 : s.w() / n;
                int kind = c.choose(n == 4 ? 9 : 5, "selection");
                if (kind < 2) {
                    int v = kind ? n - 1 : 0;
                    s.x.k = &(*s.x.k)[(uint32_t)v];
                    s.lo += v * stride;
                    t += "[" + std::to_string(v) + "]";
                } else if (kind == 2) {
                    s.x.k = &(*s.x.k)[std::make_pair(1u, 0u)];
                    t += "[1:0]";
                    if (s.dims.empty()) s.ew = 2; else s.dims[0] = 2;
                    ref(s, root);
                    continue;
                } else {
                    DX ix;
                    if (n == 4) {
                        switch (kind) {
                            case 3: ix = x; t += "[x]"; break;
                            case 4: ix = y; t += "[y]"; break;
                            case 5: ix = u.bin(B::Xor, x, y); t += "[x^y]"; break;
                            case 6: ix = u.bin(B::And, x, y); t += "[x&y]"; break;
                            case 7: ix = u.cat(u.slice(x, 0, 0), z); t += "[{x[0],z}]"; break;
                            default: ix = u.mux(z, x, y); t += "[z?x:y]"; break;
                        }
                    } else {
                        if (kind == 3) { ix = u.slice(x, 1, 1); t += "[x[1]]"; } else { ix = u.bin(B::And, z, u.slice(x, 0, 0)); t += "[z&x[0]]"; }
                    }
                    s.x.k = &(*s.x.k)[ix.p()];
                    rtl::EP off = rtl::resize(ix.r, 64, false);
                    if (stride != 1) off = rtl::mk(rtl::Op::Mul, 64, false, {off, rtl::cst(stride, 64)});
                    s.off = addx(s.off, off);
                    s.dyn = true;
                }
                if (s.dims.empty()) s.ew = 1; else s.dims.erase(s.dims.begin());
                ref(s, root);
            }
            t += "; ";
            report(c, s, "pairs " + t);
            DX o = like(u, g, 2, q ? "p" : "o", s, packed);
            u.cont(g, o, s.x);
        }
    });
    if (root_width(d) > 4) k.opt.alphabet["a"] = pats(root_width(d));
    k.key = "pairs " + t;
    k.emit.passes = minimal;
    k.opt.both_fills = false;
    check(c, u, k, t);
}
// what is out of bounds is refused when it is built, and changes nothing
static void refuse(mc::Ctx &c) {
    Dual u;
    auto &g = u.ctx.generator("mod");
    std::vector<Decl> all = QUICK;
    all.insert(all.end(), DEEP.begin(), DEEP.end());
    const Decl &d = c.pick(all, "declaration");
    bool packed = d.dims.empty() || !c.flip("unpacked");
    DX root = d.dims.empty() ? u.port(g, true, "a", d.ew) : u.arr(g, 1, "a", d.ew, d.dims, packed);
    if (d.ex) root.k->set_explicit_array(true);
    kratos::Var *v = root.k;
    auto dims = d.dims;
    int ew = d.ew;
    std::string t = ds(d) + (packed ? "" : " unpacked") + " ";
    int depth = c.choose((int)dims.size() + 1, "valid selections first");
    for (int i = 0; i < depth; i++) {
        int n = dims.empty() ? ew : (int)dims[0];
        int lo = c.choose(std::min(n, 2), "low"), hi = std::min(n - 1, lo + c.choose(2, "high"));
        v = &(*v)[std::make_pair((uint32_t)hi, (uint32_t)lo)];
        t += "[" + std::to_string(hi) + ":" + std::to_string(lo) + "]";
        if (dims.empty()) ew = hi - lo + 1;
        else if (hi == lo) dims.erase(dims.begin());
        else dims[0] = hi - lo + 1;
    }
    int n = dims.empty() ? ew : (int)dims[0];
    int lo = c.choose(n + 2, "low"), hi = c.choose(n + 2, "high");
    if (lo <= hi && hi < n) c.skip();
    auto before = v->get_slices().size();
    t += "[" + std::to_string(hi) + ":" + std::to_string(lo) + "]";
    bool single = lo == hi && c.flip("index form");
    c.states(1); c.trans(1); c.trace();
    try {
        if (single) (*v)[(uint32_t)lo]; else (*v)[std::make_pair((uint32_t)hi, (uint32_t)lo)];
    } catch (std::exception &) {
        if (v->get_slices().size() != before) c.fail("refuse left " + t, "a refused selection is kept");
        c.outcome(mc::hash_str(t));
        return;
    }
    c.fail("refuse " + t, "the selection " + t + " is outside the declared bounds and was accepted");
}
// packed structs, nested ones, and arrays of them
struct F { std::string n; int w; bool s; int sub; };   // sub: index of a nested struct
static const std::vector<std::vector<F>> defs = {
    {{"fa", 2, false, -1}, {"fb", 3, true, -1}, {"fc", 1, false, -1}},
    {{"fx", 1, false, -1}, {"fs", 0, false, 0}, {"fy", 2, true, -1}},
    {{"only", 4, false, -1}},
    {{"in0", 0, false, 2}, {"in1", 0, false, 2}},
};
static int width(int i) { int w = 0; for (auto &f : defs[i]) w += f.sub >= 0 ? width(f.sub) : f.w; return w; }
static std::shared_ptr<kratos::PackedStruct> make(int i, std::vector<std::shared_ptr<kratos::PackedStruct>> &made) {
    if (made[i]) return made[i];
    auto p = std::make_shared<kratos::PackedStruct>("S" + std::to_string(i));
    for (auto &f : defs[i]) {
        kratos::PackedStructFieldDef fd{};
        fd.name = f.n;
        fd.width = f.sub >= 0 ? 0 : f.w;
        fd.signed_ = f.s;
        fd.struct_ = f.sub >= 0 ? make(f.sub, made).get() : nullptr;
        p->attributes.push_back(fd);
    }
    return made[i] = p;
}
// the bits a field is reported to have are the ones the struct declaration in the text gives it
static void layout(mc::Ctx &c) {
    kratos::Context ctx;
    auto &g = ctx.generator("mod");
    int which = c.choose(4, "struct");
    std::vector<std::shared_ptr<kratos::PackedStruct>> made(4);
    auto def = make(which, made);
    auto &p = g.port_packed(PortDirection::In, "a", def);
    int fi = c.choose((int)defs[which].size(), "field"), lo = 0;
    for (int i = fi + 1; i < (int)defs[which].size(); i++) lo += defs[which][i].sub >= 0 ? width(defs[which][i].sub) : defs[which][i].w;
    auto &v = p[defs[which][fi].n];
    c.states(1); c.trans(1); c.trace();
    std::string t = "struct " + std::to_string(which) + "." + defs[which][fi].n;
    if (v.var_low() != (uint32_t)lo) c.fail("layout " + t, t + " starts at bit " + std::to_string(lo) + " of the packed struct in the emitted text, the object reports bit " + std::to_string(v.var_low()));
    c.outcome(mc::hash_str(t));
}
static void structs(mc::Ctx &c) {
    Dual u;
    auto &g = u.ctx.generator("mod");
    Check k;
    int which = c.choose(4, "struct");
    std::vector<std::shared_ptr<kratos::PackedStruct>> made(4);
    make(which, made);
    int an = c.choose(3, "array"), sw = width(which);
    std::vector<uint32_t> dims;
    if (an == 1) dims = {2};
    if (an == 2) dims = {2, 2};
    if (an == 2 && !c.thorough && which == 1) c.skip();
    bool write = c.flip("write");
    std::string t = std::string(write ? "write" : "read") + " struct " + std::to_string(which) + " array " + std::to_string(an) + " ";
    int total = sw;
    for (auto x : dims) total *= (int)x;
    auto mk = [&](PortDirection dir, const std::string &n) {
        auto &p = dims.empty() ? g.port_packed(dir, n, made[which]) : g.port_packed(dir, n, made[which], dims);
        u.top = &g;
        DX x = u.wrap(p, n, total, false);
        u.d.ports[n] = {x.lv[0].sig, total, false, dir == PortDirection::In, "logic"};
        return x;
    };
    accepted(c, "struct:rejected " + t, "a legal selection is rejected", [&] {
        DX in = mk(PortDirection::In, "a"), root = write ? mk(PortDirection::Out, "o") : in;
        if (root.k->width() != (uint32_t)total) c.fail("struct width " + t, "reports width " + std::to_string(root.k->width()));
        kratos::Var *v = root.k;
        Sel s;
        s.x = root;
        s.dims = dims; s.ew = sw;
        for (size_t i = 0; i < dims.size(); i++) {
            bool dyn = c.flip("run-time index");
            int stride = s.w() / (int)s.dims[0];
            s.dims.erase(s.dims.begin());
            if (dyn) {
                DX ix = u.port(g, true, "i" + std::to_string(i), 1);
                v = &(*v)[ix.p()];
                s.off = addx(s.off, rtl::mk(rtl::Op::Mul, 64, false, {rtl::resize(ix.r, 64, false), rtl::cst(stride, 64)}));
                s.dyn = true;
                t += "[i]";
            } else {
                int x = c.choose(2, "index");
                v = &(*v)[(uint32_t)x];
                s.lo += x * stride;
                t += "[" + std::to_string(x) + "]";
            }
        }
        int cur = which;
        bool whole = !dims.empty() && c.flip("whole element");
        while (cur >= 0 && !whole) {
            int fi = c.choose((int)defs[cur].size(), "field");
            auto &f = defs[cur][fi];
            // the first field is the most significant one in the text
            auto fw = [&](int i) { return defs[cur][i].sub >= 0 ? width(defs[cur][i].sub) : defs[cur][i].w; };
            for (int i = fi + 1; i < (int)defs[cur].size(); i++) { s.lo += fw(i); s.skew -= fw(i); }
            for (int i = 0; i < fi; i++) s.skew += fw(i);
            s.ew = f.sub >= 0 ? width(f.sub) : f.w;
            s.elem_signed = f.s;
            if (auto *p = dynamic_cast<kratos::PortPackedStruct *>(v)) v = &(*p)[f.n];
            else if (auto *q = dynamic_cast<kratos::VarSlice *>(v)) v = &(*q)[f.n];
            else throw std::runtime_error("no field access on this selection");
            t += "." + f.n;
            cur = f.sub;
            if (cur >= 0 && c.flip("stop at the nested struct")) break;
        }
        if (cur < 0 && c.flip("bits of the field")) {
            int lo = c.choose(s.ew, "low"), hi = lo + c.choose(s.ew - lo, "high");
            if (s.ew == 1) c.skip();
            if (lo == hi && c.flip("index form")) v = &(*v)[(uint32_t)lo]; else v = &(*v)[std::make_pair((uint32_t)hi, (uint32_t)lo)];
            s.lo += lo;
            s.ew = hi - lo + 1;
            s.elem_signed = false;
            t += "[" + std::to_string(hi) + ":" + std::to_string(lo) + "]";
        }
        s.x.k = v;
        ref(s, root);
        s.x.s = s.elem_signed;
        report(c, s, t);
        if (!write) {
            DX o = u.port(g, false, "o", s.ew, s.elem_signed);
            if (s.ew > 1 && !whole && cur < 0 && c.flip("shifted")) u.cont(g, o, u.bin(B::AShr, s.x, u.con(1, s.ew, s.elem_signed)));
            else u.cont(g, o, s.x);
        } else {
            DX val = u.port(g, true, "v", s.ew, s.elem_signed);
            u.comb(g, {u.assign(root, in), u.assign(s.x, val)});
            if (s.ew > 3) k.opt.alphabet["v"] = pats(s.ew);
        }
    });
    k.opt.alphabet["a"] = pats(total);
    k.key = t;
    k.emit.passes = minimal;
    k.opt.both_fills = false;
    check(c, u, k, t);
}
int main(int argc, char **argv) {
    std::vector<mc::Family> f;
    f.push_back({"read", [](mc::Ctx &c) { run(c, false); }, 5});
    f.push_back({"write", [](mc::Ctx &c) { run(c, true); }, 5});
    f.push_back({"pairs", pairs, 5});
    f.push_back({"refuse", refuse, 4});
    f.push_back({"struct", structs, 5});
    f.push_back({"layout", layout, 2});
    return mc::run("C04", f, argc, argv, "model_checking",
                   {"declarations of up to three dimensions and twelve bits, every chain of selections up to the stated depth; wide values over one-hot patterns",
                    "the SystemVerilog reading is that of core/svparse.cc and core/svelab.cc"});
}
