// A small two-state RTL core: the reference machines and the elaborated SystemVerilog both live here.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>
namespace rtl {
using u128 = unsigned __int128;
using i128 = __int128;
inline u128 mask(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sext(u128 v, int w) {
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= mask(w);
    return (i128)((v ^ m) - m);
}
std::string to_s(u128 v);

enum class Op {
    Const, Sig, Part, Resize, Add, Sub, Mul, Div, Mod, Pow, And, Or, Xor, Xnor, Not, Neg, Shl, LShr, AShr,
    Eq, Ne, Lt, Le, Gt, Ge, LAnd, LOr, LNot, RAnd, ROr, RXor, RNand, RNor, RXnor, Cond, Concat, Call, Clog2
};
struct Expr;
using EP = std::shared_ptr<const Expr>;
struct Expr {
    Op op;
    int w = 1;
    bool s = false;   // signed operation / sign of the operand for Resize and comparisons
    u128 val = 0;
    int sig = -1;     // Sig: signal, Call: function index
    int lo = 0;       // Part: constant offset
    std::vector<EP> a;
};
EP mk(Op op, int w, bool s, std::vector<EP> a);
EP cst(u128 v, int w, bool s = false);
EP sigx(int sig, int w, bool s);
EP part(EP base, EP off, int lo, int w);         // off: dynamic offset in bits, may be null
EP resize(EP e, int w, bool from_signed);        // extend/truncate

struct LV { int sig; EP off; int lo; int w; };
struct Stmt;
using SP = std::shared_ptr<Stmt>;
struct Stmt {
    enum K { Assign, If, Case, Block, For, ExprStmt, Return, Break, Nop, Assert } k = Nop;
    std::vector<LV> lhs;   // most significant first
    EP rhs;                // Assign/Return/ExprStmt value, If/For condition, Case selector
    bool nba = false;
    bool unique = false;
    std::vector<SP> body;  // Block: list; If: then, else; For: init, step, body
    std::vector<std::pair<std::vector<EP>, SP>> items;  // Case
    SP dflt;
    int id = -1;           // user tag (coverage)
    int line = 0;
};
struct Signal { std::string name; int w = 1; bool s = false; };
enum class Edge { Pos, Neg, Any };
struct Proc {
    enum K { Assign, Comb, Ff, Latch, Initial, Final } k = Comb;
    std::vector<std::pair<EP, Edge>> sens;
    SP body;
    int line = 0;
    std::string where;
};
struct Func { std::string name; std::vector<int> args; int ret = -1; SP body; };
struct PortInfo { int sig; int w; bool s; bool in; std::string type; };

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

struct Design {
    std::vector<Signal> sigs;
    std::vector<Proc> procs;
    std::vector<Func> funcs;
    std::map<std::string, PortInfo> ports;
    std::vector<std::string> lint;   // rule violations found while elaborating
    std::vector<std::string> notes;
    std::map<std::string, std::pair<int, bool>> rhs_types;   // self-determined type of the last right-hand side assigned to a plain name
    int add_sig(const std::string &n, int w, bool s);
    int find(const std::string &n) const;   // -1 if none
};

struct State {
    std::vector<u128> v;
    std::vector<uint8_t> prev;   // previous values of the edge expressions
    bool operator==(const State &o) const { return v == o.v && prev == o.prev; }
};
struct StateHash { size_t operator()(const State &s) const; };

class Sim {
public:
    const Design &d;
    State st;
    bool settled = true;
    bool oob = false;               // an out-of-range selection or division by zero was evaluated
    bool hang = false;              // a procedural loop did not end
    std::vector<uint8_t> *hit = nullptr;   // executed statement tags
    std::vector<std::string> uniq;  // unique-case violations seen
    explicit Sim(const Design &d);
    // every signal starts as `fill`, inputs as given (absent: 0); then initial blocks and the first settling
    void init(u128 fill, const std::vector<std::pair<int, u128>> &in = {});
    void run_initial();
    void set(int sig, u128 val) { st.v[sig] = val & mask(d.sigs[sig].w); }
    void settle();
    u128 get(int sig) const { return st.v[sig]; }
    u128 eval(const Expr &e);
private:
    enum Flow { Next, Ret, Brk };
    Flow exec(const Stmt &s);
    void write(const LV &lv, u128 val);
    void write_at(int sig, int64_t off, int w, u128 val);
    struct N { int sig; int64_t off; int w; u128 val; };
    std::vector<N> nba_;
    u128 ret_ = 0;
    void flush();
    void comb();
    uint8_t edge_val(const Expr &e);
};
}  // namespace rtl
