// C21: whatever is in the output directory, generating leaves it right.
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>
#include "dual.hh"
using namespace dual;
namespace sf = std::filesystem;
// ---- every file operation of the library goes through here
struct Op { std::string kind, path; uint64_t n; };
static bool g_watch = false;
static std::string g_dir;
static std::vector<Op> g_ops;
static int g_fail_at = -1;     // index of the operation that fails, -1 none
static int g_short = -1;       // bytes the failing write still writes
static std::map<int, std::string> g_fd;
static bool hit() { bool f = (int)g_ops.size() - 1 == g_fail_at; if (f) errno = ENOSPC; return f; }
extern "C" {
FILE *fopen64(const char *p, const char *m) {
    static auto real = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen64");
    bool w = g_watch && strpbrk(m, "wa+");
    if (w) { g_ops.push_back({"open", p, 0}); if (hit()) return nullptr; }
    FILE *f = real(p, m);
    if (w && f) g_fd[fileno(f)] = p;
    return f;
}
FILE *fopen(const char *p, const char *m) { return fopen64(p, m); }
static ssize_t put(int fd, const struct iovec *v, int n) {
    uint64_t tot = 0;
    for (int i = 0; i < n; i++) tot += v[i].iov_len;
    std::string all;
    for (int i = 0; i < n; i++) all.append((const char *)v[i].iov_base, v[i].iov_len);
    static auto real = (ssize_t(*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
    if (g_watch && g_fd.count(fd)) {
        g_ops.push_back({"write", g_fd[fd], tot});
        if (hit()) {
            if (g_short > 0) { auto r = real(fd, all.data(), std::min<uint64_t>(g_short, tot)); (void)r; errno = ENOSPC; }
            return -1;
        }
        // nothing after a failure succeeds either: the disk is full
        if (g_fail_at >= 0 && (int)g_ops.size() - 1 > g_fail_at) { errno = ENOSPC; return -1; }
    }
    return real(fd, all.data(), all.size());
}
ssize_t write(int fd, const void *b, size_t n) { iovec v{(void *)b, n}; return put(fd, &v, 1); }
ssize_t writev(int fd, const struct iovec *v, int n) { return put(fd, v, n); }
int fclose(FILE *f) {
    static auto real = (int (*)(FILE *))dlsym(RTLD_NEXT, "fclose");
    g_fd.erase(fileno(f));
    return real(f);
}
static int bad(const char *k, const char *p) { if (g_watch) g_ops.push_back({k, p, 0}); return 0; }
int rename(const char *a, const char *b) { bad("rename", b); static auto real = (int (*)(const char *, const char *))dlsym(RTLD_NEXT, "rename"); return real(a, b); }
int unlink(const char *a) { bad("unlink", a); static auto real = (int (*)(const char *))dlsym(RTLD_NEXT, "unlink"); return real(a); }
int remove(const char *a) { bad("remove", a); static auto real = (int (*)(const char *))dlsym(RTLD_NEXT, "remove"); return real(a); }
}
// ---- versions of one design
static const int NV = 8;
static const char *vname[NV] = {"base", "other child body", "longer child", "third module", "struct", "enum", "function", "renamed top variable"};
struct Built { std::unique_ptr<kratos::Context> ctx; Generator *g = nullptr; std::set<std::string> mods; };
static Built build(int v, bool debug) {
    Built b;
    b.ctx = std::make_unique<kratos::Context>();
    auto &g = b.ctx->generator("top");
    b.g = &g;
    g.debug = debug;
    if (debug) g.fn_name_ln.emplace_back("prog.py", 1);
    auto &a = g.port(PortDirection::In, "a", 4), &o = g.port(PortDirection::Out, "o", 4);
    auto dbg = [&](kratos::Var &x) { if (debug) x.fn_name_ln.emplace_back("prog.py", 3); };
    dbg(a);
    auto &ch = b.ctx->generator("child");
    ch.debug = debug;
    auto &x = ch.port(PortDirection::In, "x", 4), &y = ch.port(PortDirection::Out, "y", 4);
    dbg(x);
    if (v == 1) ch.add_stmt(y.assign((-x).shared_from_this(), kratos::AssignmentType::Blocking));
    else ch.add_stmt(y.assign((~x).shared_from_this(), kratos::AssignmentType::Blocking));
    if (v == 2) { auto &z = ch.var("z", 4); ch.add_stmt(z.assign(x.shared_from_this(), kratos::AssignmentType::Blocking)); }
    g.add_child_generator("inst", ch.shared_from_this());
    auto &w = g.var(v == 7 ? "u" : "w", 4);
    g.wire(x, a);
    g.wire(w, y);
    kratos::Var *last = &w;
    if (v == 3) {
        auto &m = b.ctx->generator("more");
        m.debug = debug;
        auto &p = m.port(PortDirection::In, "p", 4), &q = m.port(PortDirection::Out, "q", 4);
        m.add_stmt(q.assign((p + p).shared_from_this(), kratos::AssignmentType::Blocking));
        g.add_child_generator("second", m.shared_from_this());
        auto &t = g.var("t", 4);
        g.wire(p, w);
        g.wire(t, q);
        last = &t;
        b.mods.insert("more");
    }
    if (v == 4) {
        auto ps = std::make_shared<kratos::PackedStruct>("pair_t", std::vector<std::tuple<std::string, uint32_t>>{{"lo", 2}, {"hi", 2}});
        auto &s = g.var_packed("s", ps);
        s.generator();
        g.add_stmt(s.assign(w.shared_from_this(), kratos::AssignmentType::Blocking));
        last = &s;
    }
    if (v == 5) {
        auto &e = b.ctx->enum_("color_t", {{"red", 1}, {"blue", 2}}, 2);
        auto &ev = g.enum_var("ev", e.shared_from_this());
        g.add_stmt(ev.assign(e.get_enum("red"), kratos::AssignmentType::Blocking));
        auto &o2 = g.port(PortDirection::Out, "o2", 2);
        g.add_stmt(o2.assign(ev.shared_from_this(), kratos::AssignmentType::Blocking));
    }
    if (v == 6) {
        auto f = g.dpi_function("ext_fn");
        f->set_return_width(4);
        f->input("i", 4, false);
        auto &call = g.call("ext_fn", std::map<std::string, std::shared_ptr<kratos::Var>>{{"i", w.shared_from_this()}});
        last = &call;
    }
    g.add_stmt(o.assign(last->shared_from_this(), kratos::AssignmentType::Blocking));
    b.mods.insert("top");
    b.mods.insert("child");
    return b;
}
struct Opt { bool debug; std::string pkg; int wrap = 80; };
static std::map<std::string, std::string> run(int v, const Opt &op, const std::string &dir, Built *keep = nullptr) {
    Built b = build(v, op.debug);
    for (auto &p : minimal) run_pass(*b.g, p);
    kratos::SystemVerilogCodeGenOptions o;
    o.package_name = op.pkg;
    o.output_dir = dir;
    o.line_wrap = op.wrap;
    o.extract_debug_info = op.debug;
    g_dir = dir; g_ops.clear(); g_fd.clear();
    struct W { W() { g_watch = true; } ~W() { g_watch = false; } };
    std::map<std::string, std::string> r;
    { W w; r = kratos::generate_verilog(b.g, o); }
    if (keep) *keep = std::move(b);
    return r;
}
// ---- directories
static std::string scratch() {
    static std::string d;
    static pid_t owner = 0;
    if (owner != getpid()) { owner = getpid(); d = std::string(access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp") + "/mc_c21." + std::to_string(owner); sf::remove_all(d); sf::create_directories(d); atexit([] { std::error_code e; if (getpid() == owner) sf::remove_all(d, e); }); }
    return d;
}
struct Scratch {
    std::string d;
    explicit Scratch(const std::string &n) : d(scratch() + "/" + n) { sf::remove_all(d); sf::create_directories(d); }
    ~Scratch() { std::error_code e; sf::remove_all(d, e); sf::remove(scratch(), e); }
};
static std::string slurp(const sf::path &p) { std::ifstream i(p, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void put_file(const std::string &p, const std::string &s) { std::ofstream o(p, std::ios::binary); o << s; }
struct Ent { std::string text; bool dir = false; ino_t ino = 0; int64_t mt = 0; };
typedef std::map<std::string, Ent> Dir;
static Dir look(const std::string &d) {
    Dir r;
    for (auto &e : sf::recursive_directory_iterator(d)) {
        Ent x;
        x.dir = e.is_directory();
        if (!x.dir) x.text = slurp(e.path());
        struct stat st;
        stat(e.path().c_str(), &st);
        x.ino = st.st_ino;
        x.mt = x.dir ? 0 : st.st_mtim.tv_sec * 1000000000ll + st.st_mtim.tv_nsec;
        r[sf::relative(e.path(), d)] = x;
    }
    return r;
}
static void age(const std::string &d) {   // everything becomes old, so that a rewrite shows
    for (auto &e : sf::recursive_directory_iterator(d)) if (!e.is_directory()) { timespec t[2] = {{1000, 0}, {1000, 0}}; utimensat(AT_FDCWD, e.path().c_str(), t, 0); }
}
static Dir reference(int v, const Opt &op) {
    static std::map<std::tuple<int, bool, std::string, int>, Dir> memo;
    auto k = std::make_tuple(v, op.debug, op.pkg, op.wrap);
    auto it = memo.find(k);
    if (it != memo.end()) return it->second;
    Scratch s("ref");
    run(v, op, s.d);
    return memo[k] = look(s.d);
}
// ---- what must hold after generating into a directory that looked like `before`
static void verify(mc::Ctx &c, int v, const Opt &op, const std::string &dir, const Dir &before, const std::string &what, const Built *b = nullptr) {
    auto want = reference(v, op);
    auto now = look(dir);
    for (auto &f : want) {
        auto it = now.find(f.first);
        if (it == now.end()) c.fail("missing", what + ": " + f.first + " is not there");
        if (it->second.text != f.second.text) c.fail("content", what + ": " + f.first + " does not hold the complete text; it has\n" + it->second.text + "\nexpected\n" + f.second.text);
        auto o = before.find(f.first);
        bool debug_file = f.first.size() > 6 && f.first.substr(f.first.size() - 6) == ".debug";   // the statement speaks of modules and the header
        if (!debug_file && o != before.end() && o->second.text == f.second.text && (o->second.mt != it->second.mt || o->second.ino != it->second.ino))
            c.fail("rewritten", what + ": " + f.first + " is rewritten although nothing changed");
    }
    for (auto &f : before) {
        if (want.count(f.first)) continue;
        auto it = now.find(f.first);
        if (it == now.end()) c.fail("foreign removed", what + ": " + f.first + " is gone");
        if (it->second.text != f.second.text || it->second.mt != f.second.mt || it->second.ino != f.second.ino) c.fail("foreign changed", what + ": " + f.first + " is touched");
    }
    for (auto &f : now) if (!want.count(f.first) && !before.count(f.first)) c.fail("extra", what + ": leaves " + f.first + " behind");
    if (b && op.debug) for (auto &m : b->mods) for (auto &g : b->ctx->get_generators_by_name(m)) if (g->verilog_fn != sf::path(dir) / (m + ".sv")) c.fail("location", what + ": the recorded file of " + m + " is '" + g->verilog_fn + "'");
    c.states(1);
    c.trace();
    c.trans(g_ops.size());
}
static void foreign(mc::Ctx &c, const std::string &d, int k) {
    if (k == 0) return;
    put_file(d + "/notes.txt", "keep me");
    put_file(d + "/child.sv.bak", "keep me too");
    put_file(d + "/to.sv", "module to; endmodule\n");
    put_file(d + "/top.svh", "`define X\n");
    sf::create_directories(d + "/sub");
    put_file(d + "/sub/top.sv", "module elsewhere; endmodule\n");
}
static Opt opts(mc::Ctx &c) { Opt o; o.debug = c.flip("debug"); o.pkg = c.flip("other package") ? "defs" : "pkg"; return o; }
// ---- each file absent, old, torn anywhere, or right; in every combination
static void t_states(mc::Ctx &c) {
    int v = c.choose(NV, "version"), old = c.choose(NV, "version before");
    if (!c.thorough && v && old && v != old) c.skip();
    Opt op = opts(c);
    if (op.pkg == "defs" && !c.thorough && v != 4) c.skip();
    auto want = reference(v, op), was = reference(old, op);
    std::set<std::string> names;
    for (auto &f : want) names.insert(f.first);
    for (auto &f : was) names.insert(f.first);
    Scratch s("out");
    int fk = c.choose(2, "foreign files");
    foreign(c, s.d, fk);
    std::string what = std::string(vname[v]) + " after " + vname[old] + (op.debug ? ", debug" : "") + (fk ? ", foreign files" : "") + ":";
    // debug files are always rewritten: only two states for them
    for (auto &n : names) {
        bool dbg = n.size() > 6 && n.substr(n.size() - 6) == ".debug";
        int k = c.choose(dbg ? (c.thorough ? 4 : 2) : c.thorough ? 10 : 6, n.c_str());
        const std::string &nw = want.count(n) ? want.at(n).text : was.at(n).text, &od = was.count(n) ? was.at(n).text : nw;
        what += " " + n + ":" + std::to_string(k);
        std::string t;
        switch (k) {
            case 0: continue;
            case 1: t = nw.substr(0, nw.size() - 1); break;
            case 2: t = od; break;
            case 3: t = nw; break;
            case 4: t = ""; break;
            case 5: t = nw + "// tail\n"; break;
            case 6: t = nw.substr(0, nw.size() / 2); break;
            case 7: t = od.substr(0, od.size() / 2); break;
            case 8: t = nw.substr(0, nw.size() / 2) + std::string(nw.size() - nw.size() / 2, '\0'); break;   // length written before the data
            default: t = std::string(1, nw[0]); break;
        }
        put_file(s.d + "/" + n, t);
    }
    age(s.d);
    auto before = look(s.d);
    Built b;
    run(v, op, s.d, &b);
    verify(c, v, op, s.d, before, what, &b);
    c.outcome(g_ops.size());
    // once more changes nothing
    age(s.d);
    auto after = look(s.d);
    run(v, op, s.d);
    verify(c, v, op, s.d, after, what + " again");
    if (c.want_sample()) c.sample(what);
}
// ---- a history of runs, any of them interrupted after any operation and any number of bytes
static void t_history(mc::Ctx &c) {
    Opt op = opts(c);
    Scratch s("out");
    foreign(c, s.d, 1);
    std::string what;
    int n = c.thorough ? 4 : 3;
    for (int i = 0; i < n; i++) {
        int v = c.choose(c.thorough ? NV : 3, "version");
        what += std::string(i ? ", " : "") + vname[v];
        age(s.d);
        auto before = look(s.d);
        bool last = i == n - 1;
        int crash = last ? 0 : c.choose(c.thorough ? 5 : 3, "interrupted");
        Scratch side("side");
        if (crash == 0) {
            Built b;
            run(v, op, s.d, &b);
            verify(c, v, op, s.d, before, what, &b);
            continue;
        }
        // learn the operations of this run in a copy, then replay a prefix of them
        sf::copy(s.d, side.d, sf::copy_options::recursive);
        run(v, op, side.d);
        auto ops = g_ops;
        for (auto &o : ops) {
            if (o.kind != "open" && o.kind != "write") c.fail("operation", what + ": the writer uses " + o.kind);
            if (o.path.substr(0, side.d.size()) != side.d) c.fail("operation", what + ": writes to " + o.path);
        }
        if (ops.empty()) { what += " (nothing to write)"; continue; }
        int at = c.choose((int)ops.size(), "operation");
        what += " cut at " + std::to_string(at) + "/" + std::to_string(crash);
        std::map<std::string, std::string> done;
        std::map<std::string, uint64_t> off;
        for (int k = 0; k <= at; k++) {
            auto &o = ops[k];
            std::string p = s.d + o.path.substr(side.d.size());
            if (o.kind == "open") { done[p] = ""; off[p] = 0; continue; }
            uint64_t len = o.n;
            if (k == at) len = crash == 1 ? 0 : crash == 2 ? o.n - 1 : crash == 3 ? o.n / 2 : 1;
            done[p] += slurp(o.path).substr(off[p], len);
            off[p] += len;
        }
        for (auto &f : done) put_file(f.first, f.second);
        c.count("crash points");
    }
}
// ---- a full disk: an error, and a right directory once there is space again
static void t_full(mc::Ctx &c) {
    int v = c.choose(NV, "version"), old = c.choose(3, "before");
    Opt op = opts(c);
    Scratch s("out");
    if (old) run(old, op, s.d);
    foreign(c, s.d, 1);
    age(s.d);
    auto before = look(s.d);
    int at = c.choose(16, "operation"), sh = c.choose(3, "bytes");
    std::string what = std::string(vname[v]) + " over " + (old ? vname[old] : "nothing") + (op.debug ? ", debug" : "") + ", operation " + std::to_string(at) + " fails";
    bool threw = false;
    g_fail_at = at; g_short = sh == 0 ? 0 : sh == 1 ? 5 : 1 << 20;
    try { run(v, op, s.d); } catch (std::exception &) { threw = true; }
    bool happened = (int)g_ops.size() > at;
    g_fail_at = -1;
    if (!happened) { if (sh) c.skip(); verify(c, v, op, s.d, before, what); return; }
    c.count("failing operations");
    if (!threw) {
        auto now = look(s.d);
        for (auto &f : reference(v, op)) if (!now.count(f.first) || now[f.first].text != f.second.text) c.fail("silent failure", what + ": no error, but " + f.first + " is not complete");
    }
    age(s.d);
    auto mid = look(s.d);
    for (auto &f : before) if (!reference(v, op).count(f.first) && (!mid.count(f.first) || mid[f.first].text != f.second.text)) c.fail("foreign changed", what + ": " + f.first + " is touched");
    Built b;
    run(v, op, s.d, &b);
    verify(c, v, op, s.d, mid, what + ", then again", &b);
    // and when the directory is not there at all
    if (at == 0 && sh == 0) {
        bool err = false;
        try { run(v, op, s.d + "/nowhere"); } catch (std::exception &) { err = true; }
        if (!err) c.fail("silent failure", what + ": no error when the directory does not exist");
    }
}
// ---- the files together are the design; without a package nothing is written
static void t_design(mc::Ctx &c) {
    int v = c.choose(NV, "version");
    Opt op = opts(c);
    op.wrap = c.flip("narrow") ? 20 : 80;
    Scratch s("out");
    auto plain_opt = op;
    plain_opt.pkg = "";
    auto r = run(v, plain_opt, s.d);
    if (!g_ops.empty() || !look(s.d).empty()) c.fail("writes", "generating text without a package writes files");
    auto files = reference(v, op);
    Built b = build(v, op.debug);
    std::set<std::string> want;
    for (auto &m : b.mods) { want.insert(m + ".sv"); if (op.debug) want.insert(m + ".sv.debug"); }
    want.insert(op.pkg + ".svh");
    std::set<std::string> got;
    for (auto &f : files) got.insert(f.first);
    if (want != got) { std::string l; for (auto &x : got) l += " " + x; c.fail("set of files", std::string(vname[v]) + ": writes" + l); }
    for (auto &m : r) {
        auto &t = files.at(m.first + ".sv").text;
        if (t.size() < m.second.size() || t.substr(t.find("module ")) .find(m.second.substr(m.second.find("\n"))) == std::string::npos)
            c.fail("content", m.first + ".sv is not the module's text:\n" + t + "\nexpected\n" + m.second);
        if (t.find("`include \"" + op.pkg + ".svh\"") == std::string::npos || t.find("import " + op.pkg + "::*;") == std::string::npos) c.fail("content", m.first + ".sv does not use the header:\n" + t);
    }
    auto &h = files.at(op.pkg + ".svh").text;
    static const std::map<int, std::string> defs = {{4, "pair_t"}, {5, "color_t"}, {6, "ext_fn"}};
    for (auto &d : defs) if ((h.find(d.second) != std::string::npos) != (d.first == v)) c.fail("header", std::string(vname[v]) + ": the header has" + (d.first == v ? " no " : " a ") + d.second + "\n" + h);
    if (h.find("package " + op.pkg + ";") == std::string::npos || h.find("endpackage") == std::string::npos) c.fail("header", h);
    c.states(1);
    c.trace();
    c.sample(h + files.at("top.sv").text);
}
int main(int argc, char **argv) {
    std::cerr.rdbuf(nullptr);
    return mc::run("C21", {{"states", t_states, 6}, {"history", t_history, 5}, {"full", t_full, 4}, {"design", t_design, 2}}, argc, argv, "model_checking",
                   {"a crash leaves each file as a prefix of what was to be written, possibly zero-filled; the writer only opens and writes (checked at each run)"});
}
