// SystemVerilog front end for the subset a hardware generator emits; IEEE 1800 sizing rules.
#pragma once
#include "rtl.hh"
namespace sv {
struct ParseError : std::runtime_error { using std::runtime_error::runtime_error; };

// ---- syntax tree
struct Expr;
using E = std::shared_ptr<Expr>;
struct Expr {
    enum K { Num, Id, Member, Index, Range, Un, Bin, Cond, Concat, Repl, Call, Cast, SizeCast, TypeCast, Str, Fill, Scoped } k;
    std::string s;        // identifier, operator, function name, type name
    rtl::u128 val = 0;
    int w = 32;
    bool sgn = false, sized = false;
    char rk = ':';        // range kind
    std::vector<E> a;
    std::vector<std::string> argn;
    int line = 0;
};
struct Dim { E hi, lo; };    // lo null: [N] unpacked size
struct TypeRef {
    std::string name;        // logic, int, or user type; "" none
    std::string modport;
    bool sgn = false, has_sign = false;
    std::vector<Dim> pk;
    bool is_unsigned = false;
};
struct Stmt;
using S = std::shared_ptr<Stmt>;
struct Stmt {
    enum K { Assign, If, Case, Block, For, Call, Return, Break, Assert, Null, Delay, Decl } k = Null;
    E lhs, rhs;
    bool nba = false, unique = false;
    std::vector<S> body;
    std::vector<std::pair<std::vector<E>, S>> items;
    S dflt;
    std::string label, end_label, var;   // For: var
    bool var_unsigned = false, declares = false;
    int line = 0;
};
struct Decl { TypeRef t; std::string name; std::vector<Dim> unp; E init; int line = 0; bool net = false; };
struct Port : Decl { std::string dir; };
struct ParamD { std::string name; TypeRef t; bool is_type = false, local = false; E val; TypeRef tval; int line = 0; };
struct StructD { std::string name; std::vector<Decl> m; int line = 0; };
struct EnumD { std::string name; TypeRef base; std::vector<std::pair<std::string, E>> m; int line = 0; };
struct Conn { std::string name; E e; bool has = true; };
struct Inst { std::string mod, name; std::vector<Conn> params, conns; bool named = true; int line = 0; };
struct FuncD { std::string name; TypeRef ret; bool is_void = false, task = false; std::vector<Port> args; S body; std::vector<Decl> locals; int line = 0; bool dpi = false; };
struct Item;
using I = std::shared_ptr<Item>;
struct Item {
    enum K { Decl, Assign, Always, Inst, Func, Struct, Enum, Param, For, Modport, Property, Raw, Import } k;
    sv::Decl d;
    std::vector<sv::Decl> ds;
    E lhs, rhs;
    std::string kind;          // always_comb ...
    std::vector<std::pair<std::string, E>> sens;
    S body;
    sv::Inst inst;
    FuncD fn;
    StructD st;
    EnumD en;
    ParamD pa;
    // generate for
    std::string var, label;
    E init, cond, step;
    std::vector<I> items;
    std::string name;
    std::vector<std::pair<std::string, std::string>> mp;  // modport: name, dir
    int line = 0;
};
struct Module {
    std::string name, end_name;
    bool iface = false, package = false;
    std::vector<std::string> imports;
    std::vector<ParamD> params;
    std::vector<Port> ports;
    std::vector<I> items;
    int line = 0;
    std::string file;
};
struct Source {
    std::map<std::string, std::shared_ptr<Module>> mods;
    std::vector<std::string> order;
    std::vector<I> unit;       // compilation-unit items (typedefs, functions)
    std::vector<std::string> lint;
};
// texts: file name -> text; all files are compiled together, `include looks them up by name
Source parse(const std::vector<std::pair<std::string, std::string>> &texts);
inline Source parse1(const std::string &t) { return parse({{"a.sv", t}}); }
rtl::Design elaborate(const Source &src, const std::string &top, const std::map<std::string, rtl::u128> &params = {});
bool is_keyword(const std::string &s);
// sizes a stand-alone expression: width, signedness (for typing checks)
struct ETy { int w; bool s; };
}  // namespace sv
