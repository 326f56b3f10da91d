// Builds a design twice in tandem: as kratos objects, and as an RTL reference machine.
#pragma once
#include <algorithm>
#include <functional>
#include <tuple>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "codegen.hh"
#include "context.hh"
#include "except.hh"
#include "expr.hh"
#include "generator.hh"
#include "mc.hh"
#include "pass.hh"
#include "port.hh"
#include "product.hh"
#include "rtl.hh"
#include "stmt.hh"
#include "sv.hh"
namespace dual {
using kratos::Generator;
using kratos::PortDirection;
using kratos::PortType;

struct DX {
    kratos::Var *k = nullptr;
    rtl::EP r;
    int w = 0;
    bool s = false;
    int psign = -1;            // of a concatenation: the sign its parts share
    std::vector<rtl::LV> lv;   // as an assignment target, most significant part first
    std::string t;             // reading of the tree, for messages
    std::shared_ptr<kratos::Var> p() const { return k->shared_from_this(); }
};
struct DS { std::shared_ptr<kratos::Stmt> k; rtl::SP r; };

rtl::SP block(std::vector<rtl::SP> b = {});
rtl::SP rassign(const std::vector<rtl::LV> &l, rtl::EP e, bool nba);

enum class B { Add, Sub, Mul, Div, Mod, Shr, AShr, Shl, Or, And, Xor, Lt, Gt, Le, Ge, Eq, Ne, LAnd, LOr, Pow };
enum class U { Inv, Neg, Pos, ROr, RAnd, RXor, RNot };
const char *bname(B);
const char *uname(U);

class Dual {
public:
    kratos::Context ctx;
    rtl::Design d;
    Generator *top = nullptr;
    // top-level ports and variables; scope prefixes the reference signal's name
    DX port(Generator &g, bool in, const std::string &n, int w, bool s = false, PortType ty = PortType::Data);
    DX var(Generator &g, const std::string &n, int w, bool s = false);
    DX wrap(kratos::Var &v, const std::string &refname, int w, bool s);   // reference signal for an existing object
    // array; dir: 0 variable, 1 input, 2 output. element 0 is least significant in the reference
    DX arr(Generator &g, int dir, const std::string &n, int ew, const std::vector<uint32_t> &dims, bool packed = true, bool s = false);
    DX con(int64_t v, int w, bool s = false);
    DX bin(B op, const DX &a, const DX &b);
    DX un(U op, const DX &a);
    DX slice(const DX &a, int hi, int lo);           // packed bits of a plain variable or expression
    DX bit(const DX &a, const DX &i);                // run-time bit index
    DX cat(const DX &a, const DX &b);
    DX ext(const DX &a, int w);
    DX dup(const DX &a, int n);
    DX cast(const DX &a, bool to_signed);
    DX mux(const DX &c, const DX &a, const DX &b);
    DX elem(const DX &a, int i, int ew);             // constant element of an array declared with elements of ew bits
    DX elem(const DX &a, const DX &i, int ew);
    // statements
    DS assign(const DX &l, const DX &r, bool nba = false);
    DS assign_u(const DX &l, const DX &r, bool nba);   // assignment style left for the library to infer
    void cont(Generator &g, const DX &l, const DX &r);   // continuous assignment
    DS if_(const DX &c, const std::vector<DS> &t, const std::vector<DS> &e);
    DS switch_(const DX &c, const std::vector<std::pair<DX, std::vector<DS>>> &items, const std::vector<DS> *dflt, bool unique = false);
    void comb(Generator &g, const std::vector<DS> &b);
    void latch(Generator &g, const std::vector<DS> &b);
    void initial(Generator &g, const std::vector<DS> &b);
    void seq(Generator &g, const std::vector<std::pair<DX, bool>> &sens, const std::vector<DS> &b);   // (signal, posedge)
    DS for_(const std::string &iter, int64_t start, int64_t end, int64_t step, const std::function<std::vector<DS>(const DX &)> &body);   // the reference is unrolled
    // function with input ports; body gets the arguments. ret 0: no value
    struct Fn { std::shared_ptr<kratos::FunctionStmtBlock> k; int idx = -1; std::vector<std::string> names; int w = 0; bool s = false; std::vector<DX> args; };
    Fn func(Generator &g, const std::string &name, const std::vector<std::tuple<std::string, int, bool>> &args, int w, bool s, const std::map<std::string, uint32_t> &order = {});
    void func_body(Fn &f, const std::vector<DS> &b);
    DS ret(Fn &f, const DX &v);
    DX call(Generator &g, Fn &f, const std::vector<DX> &args);
    DS call_stmt(Generator &g, Fn &f, const std::vector<DX> &args);
    int tag = 0;
};
rtl::EP subst(const rtl::EP &e, int sig, const rtl::EP &by);
rtl::SP subst(const rtl::SP &s, int sig, const rtl::EP &by);
// ---- emission
struct Emit {
    std::vector<std::string> passes;
    bool unique_case = true;
    int line_wrap = 80;
    bool with_defs = true;     // prepend the shared definitions the library extracts
};
extern const std::vector<std::string> minimal, standard;
void run_pass(Generator &top, const std::string &name);
void run_passes(Generator &top, const std::vector<std::string> &p);
std::vector<std::pair<std::string, std::string>> text(Generator &top, const Emit &e);   // after the passes
std::string join(const std::vector<std::pair<std::string, std::string>> &t);
// emits, parses, elaborates; any lint is an error
rtl::Design elab(Generator &top, const std::vector<std::pair<std::string, std::string>> &t, const std::map<std::string, rtl::u128> &params = {});

// whole check: passes, emission, elaboration, product search; fails through ctx
struct Check {
    Emit emit;
    rtl::POpt opt;
    std::string key;           // violation key prefix
    std::function<void(std::vector<std::pair<std::string, std::string>> &, std::string &key)> reading = nullptr;   // may change the text that is read, and the key
};
void check(mc::Ctx &c, Dual &u, const Check &k, const std::string &what = "");
// runs f; any exception of the library is a violation, unsupported text and our own signals pass through
template <class F> void accepted(mc::Ctx &c, const std::string &key, const std::string &what, F f) {
    try { f(); }
    catch (rtl::Unsupported &) { throw; }
    catch (std::logic_error &) { throw; }
    catch (std::exception &x) { c.fail(key, what + ": " + x.what()); }
}
// sample writer
std::string clip(const std::string &s, size_t n = 1400);
}  // namespace dual
