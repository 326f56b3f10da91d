#include <cctype>
#include <cstring>
#include "sv.hh"
namespace sv {
using rtl::u128;
static const std::set<std::string> &kw() {
    static std::set<std::string> k;
    if (k.empty()) {
        const char *t =
            "accept_on alias always always_comb always_ff always_latch and assert assign assume automatic before begin bind bins "
            "binsof bit break buf bufif0 bufif1 byte case casex casez cell chandle checker class clocking cmos config const "
            "constraint context continue cover covergroup coverpoint cross deassign default defparam design disable dist do edge "
            "else end endcase endchecker endclass endclocking endconfig endfunction endgenerate endgroup endinterface endmodule "
            "endpackage endprimitive endprogram endproperty endspecify endsequence endtable endtask enum event eventually expect "
            "export extends extern final first_match for force foreach forever fork forkjoin function generate genvar global "
            "highz0 highz1 if iff ifnone ignore_bins illegal_bins implements implies import incdir include initial inout input "
            "inside instance int integer interconnect interface intersect join join_any join_none large let liblist library local "
            "localparam logic longint macromodule matches medium modport module nand negedge nettype new nexttime nmos nor "
            "noshowcancelled not notif0 notif1 null or output package packed parameter pmos posedge primitive priority program "
            "property protected pull0 pull1 pulldown pullup pulsestyle_ondetect pulsestyle_onevent pure rand randc randcase "
            "randsequence rcmos real realtime ref reg reject_on release repeat restrict return rnmos rpmos rtran rtranif0 rtranif1 "
            "s_always s_eventually s_nexttime s_until s_until_with scalared sequence shortint shortreal showcancelled signed small "
            "soft solve specify specparam static string strong strong0 strong1 struct super supply0 supply1 sync_accept_on "
            "sync_reject_on table tagged task this throughout time timeprecision timeunit tran tranif0 tranif1 tri tri0 tri1 triand "
            "trior trireg type typedef union unique unique0 unsigned until until_with untyped use uwire var vectored virtual void "
            "wait wait_order wand weak weak0 weak1 while wildcard wire with within wor xnor xor";
        std::string cur;
        for (const char *p = t;; p++) {
            if (*p == ' ' || !*p) { if (!cur.empty()) k.insert(cur); cur.clear(); if (!*p) break; }
            else cur += *p;
        }
    }
    return k;
}
bool is_keyword(const std::string &s) { return kw().count(s) > 0; }

struct Tok { enum K { Id, Num, Op, Str, Sys, End } k; std::string s; u128 val = 0; int w = 32; bool sgn = false, sized = false, fill = false; int line = 0; std::string file; };

struct Lexer {
    std::vector<Tok> out;
    std::set<std::string> defs;
    const std::vector<std::pair<std::string, std::string>> &texts;
    explicit Lexer(const std::vector<std::pair<std::string, std::string>> &t) : texts(t) {}
    std::set<std::string> done;
    void lex(const std::string &file, const std::string &t, int depth = 0) {
        if (depth > 8) throw ParseError("include recursion in " + file);
        size_t i = 0, n = t.size();
        int line = 1;
        std::vector<bool> cond;   // `ifdef stack
        auto active = [&]() { for (bool b : cond) if (!b) return false; return true; };
        auto err = [&](const std::string &m) { throw ParseError(file + ":" + std::to_string(line) + ": " + m); };
        while (i < n) {
            char c = t[i];
            if (c == '\n') { line++; i++; continue; }
            if (isspace((unsigned char)c)) { i++; continue; }
            if (c == '/' && i + 1 < n && t[i + 1] == '/') { while (i < n && t[i] != '\n') i++; continue; }
            if (c == '/' && i + 1 < n && t[i + 1] == '*') {
                i += 2;
                while (i + 1 < n && !(t[i] == '*' && t[i + 1] == '/')) { if (t[i] == '\n') line++; i++; }
                if (i + 1 >= n) err("unterminated comment");
                i += 2;
                continue;
            }
            if (c == '(' && i + 1 < n && t[i + 1] == '*' && !(i + 2 < n && t[i + 2] == ')')) {   // attribute
                while (i + 1 < n && !(t[i] == '*' && t[i + 1] == ')' )) { if (t[i] == '\n') line++; i++; if (t[i-1]=='(' ) i++; }
                i += 2;
                continue;
            }
            if (c == '`') {
                size_t j = i + 1;
                while (j < n && (isalnum((unsigned char)t[j]) || t[j] == '_')) j++;
                std::string d = t.substr(i + 1, j - i - 1);
                size_t e = t.find('\n', j);
                if (e == std::string::npos) e = n;
                std::string rest = t.substr(j, e - j);
                size_t b = rest.find_first_not_of(" \t");
                rest = b == std::string::npos ? "" : rest.substr(b);
                while (!rest.empty() && isspace((unsigned char)rest.back())) rest.pop_back();
                if (d == "ifndef") cond.push_back(!defs.count(rest));
                else if (d == "ifdef") cond.push_back(defs.count(rest) > 0);
                else if (d == "else") { if (cond.empty()) err("`else"); cond.back() = !cond.back(); }
                else if (d == "endif") { if (cond.empty()) err("`endif without `ifdef"); cond.pop_back(); }
                else if (d == "define") { if (active()) defs.insert(rest.substr(0, rest.find(' '))); }
                else if (d == "include") {
                    if (active()) {
                        std::string f = rest;
                        if (f.size() < 2 || f[0] != '"') err("bad include");
                        f = f.substr(1, f.rfind('"') - 1);
                        bool found = false;
                        for (auto &x : texts) if (x.first == f) { found = true; done.insert(f); lex(x.first, x.second, depth + 1); }
                        if (!found) err("include file not found: " + f);
                    }
                } else if (d == "timescale" || d == "default_nettype") {}
                else err("unknown directive `" + d);
                i = e;
                continue;
            }
            if (!active()) { i++; continue; }
            Tok k;
            k.line = line; k.file = file;
            if (isalpha((unsigned char)c) || c == '_') {
                size_t j = i;
                while (j < n && (isalnum((unsigned char)t[j]) || t[j] == '_' || t[j] == '$')) j++;
                k.k = Tok::Id; k.s = t.substr(i, j - i); i = j;
            } else if (c == '$') {
                size_t j = i + 1;
                while (j < n && (isalnum((unsigned char)t[j]) || t[j] == '_')) j++;
                k.k = Tok::Sys; k.s = t.substr(i, j - i); i = j;
            } else if (c == '"') {
                size_t j = i + 1;
                while (j < n && t[j] != '"') { if (t[j] == '\\') j++; if (t[j] == '\n') err("newline in string"); j++; }
                k.k = Tok::Str; k.s = t.substr(i + 1, j - i - 1); i = j + 1;
            } else if (isdigit((unsigned char)c) || (c == '\'' && i + 1 < n && strchr("bhdosBHDOS01", t[i + 1]) )) {
                // number
                k.k = Tok::Num;
                u128 size = 0; bool has = false;
                size_t j = i;
                while (j < n && (isdigit((unsigned char)t[j]) || t[j] == '_')) { if (t[j] != '_') size = size * 10 + (t[j] - '0'); has = true; j++; }
                if (j < n && t[j] == '\'' && j + 1 < n && strchr("bhdosBHDOS", t[j + 1])) {
                    j++;
                    if (tolower(t[j]) == 's') { k.sgn = true; j++; }
                    int base = 0;
                    switch (tolower(t[j])) { case 'b': base = 2; break; case 'h': base = 16; break; case 'd': base = 10; break; case 'o': base = 8; break; default: err("bad base"); }
                    j++;
                    u128 v = 0; bool any = false;
                    while (j < n && (isxdigit((unsigned char)t[j]) || t[j] == '_')) {
                        if (t[j] == '_') { j++; continue; }
                        int dg = isdigit((unsigned char)t[j]) ? t[j] - '0' : tolower(t[j]) - 'a' + 10;
                        if (dg >= base) err("bad digit in number");
                        v = v * base + dg; any = true; j++;
                    }
                    if (!any) err("number without digits");
                    k.sized = has; k.w = has ? (int)size : 32;
                    if (has && size == 0) err("zero-width literal");
                    if (has && k.w <= 128 && (v & ~rtl::mask(k.w))) { lint.push_back(file + ":" + std::to_string(line) + ": literal does not fit its width: " + t.substr(i, j - i)); }
                    k.val = v & rtl::mask(k.w);
                } else if (!has) {   // '0 '1
                    k.fill = true; k.val = t[i + 1] - '0'; j = i + 2;
                } else { k.val = size; k.sgn = true; k.w = 32; if (size > 0x7fffffffu) lint.push_back(file + ":" + std::to_string(line) + ": unsized decimal exceeds 32 bits: " + t.substr(i, j - i)); }
                i = j;
                k.s = "num";
            } else {
                static const char *ops[] = {"<<<=", ">>>=", "===", "!==", "==?", "!=?", "<<<", ">>>", "<<=", ">>=", "|->", "|=>", "##", "**", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "~&", "~|", "~^", "^~", "+:", "-:", "->", "++", "--", "+=", "-=", "*=", "/=", "&=", "|=", "^=", "::", ".*"};
                k.k = Tok::Op;
                for (auto *o : ops) if (t.compare(i, strlen(o), o) == 0) { k.s = o; break; }
                if (k.s.empty()) { if (!strchr("()[]{};:,.?=+-*/%&|^~!<>#@'", c)) err(std::string("unexpected character '") + c + "'"); k.s = std::string(1, c); }
                i += k.s.size();
            }
            out.push_back(k);
        }
        if (!cond.empty()) err("missing `endif");
    }
    std::vector<std::string> lint;
};

struct Parser {
    std::vector<Tok> t;
    size_t p = 0;
    std::set<std::string> types;   // user type names seen
    Source src;
    Tok endt;
    const Tok &cur(int o = 0) const { return p + o < t.size() ? t[p + o] : endt; }
    [[noreturn]] void err(const std::string &m) const {
        const Tok &c = cur();
        throw ParseError(c.file + ":" + std::to_string(c.line) + ": " + m + " near '" + c.s + "'");
    }
    bool is(const char *s) const { return (cur().k == Tok::Op || cur().k == Tok::Id) && cur().s == s; }
    bool isn(int o, const char *s) const { return (cur(o).k == Tok::Op || cur(o).k == Tok::Id) && cur(o).s == s; }
    bool acc(const char *s) { if (is(s)) { p++; return true; } return false; }
    void exp(const char *s) { if (!acc(s)) err(std::string("expected '") + s + "'"); }
    bool isId(int o = 0) const { return cur(o).k == Tok::Id && !is_keyword(cur(o).s); }
    std::string id() {
        if (cur().k != Tok::Id) err("expected identifier");
        if (is_keyword(cur().s)) err("keyword used as identifier");
        return t[p++].s;
    }
    E mkE(Expr::K k) { auto e = std::make_shared<Expr>(); e->k = k; e->line = cur().line; return e; }

    // ---- expressions
    static int prec(const std::string &o) {
        static const std::map<std::string, int> m = {{"||", 1}, {"&&", 2}, {"|", 3}, {"^", 4}, {"~^", 4}, {"^~", 4}, {"&", 5},
            {"==", 6}, {"!=", 6}, {"===", 6}, {"!==", 6}, {"<", 7}, {"<=", 7}, {">", 7}, {">=", 7},
            {"<<", 8}, {">>", 8}, {"<<<", 8}, {">>>", 8}, {"+", 9}, {"-", 9}, {"*", 10}, {"/", 10}, {"%", 10}, {"**", 11}};
        auto it = m.find(o);
        return it == m.end() ? 0 : it->second;
    }
    E expr() { return cond(); }
    E cond() {
        E c = bin(1);
        if (is("?")) {
            auto e = mkE(Expr::Cond);
            p++;
            E a = cond();
            exp(":");
            E b = cond();
            e->a = {c, a, b};
            return e;
        }
        return c;
    }
    E bin(int min) {
        E l = unary();
        while (cur().k == Tok::Op) {
            int pr = prec(cur().s);
            if (!pr || pr < min) break;
            auto e = mkE(Expr::Bin);
            e->s = cur().s;
            p++;
            E r = bin(pr + 1);
            e->a = {l, r};
            l = e;
        }
        return l;
    }
    E unary() {
        static const std::set<std::string> un = {"+", "-", "!", "~", "&", "|", "^", "~&", "~|", "~^", "^~"};
        if (cur().k == Tok::Op && (is("--") || is("++"))) err("increment/decrement operator inside an expression");
        if (cur().k == Tok::Op && un.count(cur().s)) {
            // IEEE 1800 A.8.3: unary_operator applies to a primary
            auto e = mkE(Expr::Un);
            e->s = cur().s;
            p++;
            if (cur().k == Tok::Op && un.count(cur().s)) src.lint.push_back("line " + std::to_string(cur().line) + ": unary operator applied to a non-primary: " + e->s + cur().s);
            e->a = {unary()};
            return e;
        }
        return primary();
    }
    E primary() {
        E e;
        if (cur().k == Tok::Num) {
            if (cur().fill) { e = mkE(Expr::Fill); e->val = cur().val; p++; return e; }
            e = mkE(Expr::Num);
            e->val = cur().val; e->w = cur().w; e->sgn = cur().sgn; e->sized = cur().sized;
            p++;
            if (is("'") && isn(1, "(")) {   // size cast
                p += 2;
                auto c = mkE(Expr::SizeCast);
                c->a = {e, expr()};
                exp(")");
                return c;
            }
            return e;
        }
        if (cur().k == Tok::Str) { e = mkE(Expr::Str); e->s = cur().s; p++; return e; }
        if (cur().k == Tok::Sys) {
            e = mkE(Expr::Call);
            e->s = cur().s;
            p++;
            if (acc("(")) { args(e); }
            return e;
        }
        if (is("(")) {
            p++;
            E x = expr();
            exp(")");
            return x;      // selects on parenthesised expressions are not legal SystemVerilog
        }
        if (is("{")) {
            p++;
            E first = expr();
            if (is("{")) {
                e = mkE(Expr::Repl);
                p++;
                auto c = mkE(Expr::Concat);
                c->a.push_back(expr());
                while (acc(",")) c->a.push_back(expr());
                exp("}");
                exp("}");
                e->a = {first, c};
                if (is("[")) return selects(e);
                return e;
            }
            e = mkE(Expr::Concat);
            e->a.push_back(first);
            while (acc(",")) e->a.push_back(expr());
            exp("}");
            if (is("[")) return selects(e);
            return e;
        }
        if (cur().k == Tok::Id) {
            if ((is("signed") || is("unsigned")) && isn(1, "'")) {
                e = mkE(Expr::Cast);
                e->s = cur().s;
                p += 2;
                exp("(");
                e->a = {expr()};
                exp(")");
                return e;
            }
            if ((is("int") || is("logic") || isId()) && isn(1, "'") && isn(2, "(")) {
                e = mkE(Expr::TypeCast);
                e->s = cur().s;
                p += 3;
                e->a = {expr()};
                exp(")");
                return e;
            }
            e = mkE(Expr::Id);
            e->s = id();
            if (is("::")) {
                p++;
                auto x = mkE(Expr::Scoped);
                x->s = id();
                x->argn = {e->s};
                e = x;
            }
            if (is("(")) {
                auto c = mkE(Expr::Call);
                c->s = e->s;
                p++;
                args(c);
                return c;
            }
            return selects(e);
        }
        err("expected expression");
    }
    void args(E &c) {
        if (acc(")")) return;
        for (;;) {
            if (acc(".")) { c->argn.push_back(id()); exp("("); c->a.push_back(expr()); exp(")"); }
            else { c->argn.push_back(""); c->a.push_back(expr()); }
            if (acc(")")) break;
            exp(",");
        }
    }
    E selects(E e) {
        for (;;) {
            if (is(".") && cur(1).k == Tok::Id) {
                p++;
                auto m = mkE(Expr::Member);
                m->s = id();
                m->a = {e};
                if (is("(")) { auto c = mkE(Expr::Call); c->s = "." + m->s; p++; args(c); return c; }
                e = m;
            } else if (is("[")) {
                p++;
                E a = expr();
                if (is(":") || is("+:") || is("-:")) {
                    auto r = mkE(Expr::Range);
                    r->rk = cur().s[0];
                    p++;
                    r->a = {e, a, expr()};
                    exp("]");
                    e = r;
                } else {
                    exp("]");
                    auto x = mkE(Expr::Index);
                    x->a = {e, a};
                    e = x;
                }
            } else return e;
        }
    }
    // ---- types
    bool isType(int o = 0) const {
        static const std::set<std::string> b = {"logic", "reg", "wire", "bit", "int", "integer", "byte", "shortint", "longint", "genvar", "string", "time"};
        return cur(o).k == Tok::Id && (b.count(cur(o).s) || (isId(o) && types.count(cur(o).s)));
    }
    Dim dim() {
        exp("[");
        Dim d;
        d.hi = expr();
        if (acc(":")) d.lo = expr();
        exp("]");
        return d;
    }
    TypeRef type(bool allow_implicit = true) {
        TypeRef r;
        if (isType() || (cur().k == Tok::Id && isId() && (isId(1) || (isn(1, ".") && isId(2) && isId(3)) ||
                          ((isn(1, "signed") || isn(1, "unsigned")) && (isn(2, "[") || isId(2))) || (isn(1, "[") && type_then_id())))) {
            r.name = t[p++].s;
            if (r.name == "wire" && is("logic")) p++;
            if (isn(0, "::")) { p++; r.name = id(); }
            if (is(".")) { p++; r.modport = id(); }
        } else if (!allow_implicit) err("expected type");
        if (acc("signed")) { r.sgn = r.has_sign = true; }
        else if (acc("unsigned")) { r.has_sign = true; r.is_unsigned = true; }
        while (is("[")) r.pk.push_back(dim());
        return r;
    }
    bool type_then_id() const {   // Id [..]..[..] Id
        size_t q = p + 1;
        while (q < t.size() && t[q].s == "[") {
            int d = 0;
            for (; q < t.size(); q++) { if (t[q].s == "[") d++; if (t[q].s == "]" && --d == 0) { q++; break; } }
        }
        return q < t.size() && t[q].k == Tok::Id && !is_keyword(t[q].s);
    }
    // ---- statements
    S mkS(Stmt::K k) { auto s = std::make_shared<Stmt>(); s->k = k; s->line = cur().line; return s; }
    S stmt() {
        if (acc(";")) return mkS(Stmt::Null);
        if (cur().k == Tok::Id && isId() && isn(1, ":") && isn(2, "begin")) { auto l = id(); p++; auto s = stmt(); s->label = l; return s; }
        if (is("begin")) {
            auto s = mkS(Stmt::Block);
            p++;
            if (acc(":")) s->label = id();
            while (!is("end")) {
                if (p >= t.size()) err("unterminated block");
                s->body.push_back(stmt());
            }
            p++;
            if (acc(":")) { s->end_label = id(); if (s->end_label != s->label) src.lint.push_back("line " + std::to_string(s->line) + ": end label " + s->end_label + " does not match " + s->label); }
            return s;
        }
        if (is("if")) {
            auto s = mkS(Stmt::If);
            p++;
            exp("(");
            s->rhs = expr();
            exp(")");
            s->body.push_back(stmt());
            if (acc("else")) s->body.push_back(stmt());
            return s;
        }
        if (is("unique") || is("case") || is("priority") || is("unique0")) {
            auto s = mkS(Stmt::Case);
            if (acc("unique")) s->unique = true;
            else if (is("priority") || is("unique0")) p++;
            exp("case");
            exp("(");
            s->rhs = expr();
            exp(")");
            while (!acc("endcase")) {
                if (acc("default")) {
                    acc(":");
                    if (s->dflt) err("two defaults");
                    s->dflt = stmt();
                } else {
                    std::vector<E> es;
                    es.push_back(expr());
                    while (acc(",")) es.push_back(expr());
                    exp(":");
                    auto b = stmt();
                    s->items.emplace_back(es, b);
                }
            }
            return s;
        }
        if (is("for")) {
            auto s = mkS(Stmt::For);
            p++;
            exp("(");
            if (is("int") || is("genvar") || is("integer")) {
                s->declares = true;
                p++;
                if (acc("unsigned")) s->var_unsigned = true;
                else acc("signed");
            }
            s->var = id();
            exp("=");
            auto e0 = expr();
            exp(";");
            auto c = expr();
            exp(";");
            auto [l, r] = step();
            exp(")");
            s->rhs = c;
            s->lhs = e0;
            auto st = mkS(Stmt::Assign);
            st->lhs = l; st->rhs = r;
            s->body = {st, stmt()};
            return s;
        }
        if (acc("return")) {
            auto s = mkS(Stmt::Return);
            if (!is(";")) s->rhs = expr();
            exp(";");
            return s;
        }
        if (acc("break")) { exp(";"); return mkS(Stmt::Break); }
        if (is("assert") || is("assume") || is("cover")) {
            auto s = mkS(Stmt::Assert);
            p++;
            exp("(");
            s->rhs = expr();
            exp(")");
            if (acc("else")) s->body.push_back(stmt());
            else exp(";");
            return s;
        }
        if (acc("#")) {
            auto s = mkS(Stmt::Delay);
            s->rhs = primary();
            if (!acc(";")) s->body.push_back(stmt());
            return s;
        }
        if (acc("@")) {
            auto s = mkS(Stmt::Delay);
            exp("(");
            while (!acc(")")) p++;
            if (!acc(";")) s->body.push_back(stmt());
            return s;
        }
        if (cur().k == Tok::Sys) {
            auto s = mkS(Stmt::Call);
            s->rhs = primary();
            exp(";");
            return s;
        }
        if (isType() && !isn(1, "'")) {   // local declaration
            auto s = mkS(Stmt::Decl);
            auto ty = type();
            (void)ty;
            err("local declaration in a block is not supported");
            return s;
        }
        auto s = mkS(Stmt::Assign);
        E l = is("{") ? primary() : (isId() ? primary() : (err("expected statement"), E()));
        if (l->k == Expr::Call) { s->k = Stmt::Call; s->rhs = l; exp(";"); return s; }
        s->lhs = l;
        if (acc("=")) {}
        else if (acc("<=")) s->nba = true;
        else if (cur().k == Tok::Op && (is("+=") || is("-="))) {
            auto b = mkE(Expr::Bin);
            b->s = cur().s.substr(0, 1);
            p++;
            b->a = {l, expr()};
            s->rhs = b;
            exp(";");
            return s;
        } else err("expected assignment");
        if (is("#") || is("@")) err("delayed assignment is not supported");
        s->rhs = expr();
        exp(";");
        return s;
    }
    std::pair<E, E> step() {
        auto l = mkE(Expr::Id);
        l->s = id();
        auto b = mkE(Expr::Bin);
        auto one = mkE(Expr::Num);
        one->val = 1; one->sgn = true;
        if (acc("++")) { b->s = "+"; b->a = {l, one}; return {l, b}; }
        if (acc("--")) { b->s = "-"; b->a = {l, one}; return {l, b}; }
        if (acc("=")) return {l, expr()};
        if (is("+=") || is("-=")) { b->s = cur().s.substr(0, 1); p++; b->a = {l, expr()}; return {l, b}; }
        err("expected for step");
    }
    // ---- items
    I mkI(Item::K k) { auto i = std::make_shared<Item>(); i->k = k; i->line = cur().line; return i; }
    void skip_to(const char *s) { while (!is(s)) { if (p >= t.size()) err(std::string("missing ") + s); p++; } p++; }
    FuncD func() {
        FuncD f;
        f.line = cur().line;
        f.task = is("task");
        p++;
        acc("automatic") || acc("static");
        if (!f.task) {
            if (acc("void")) f.is_void = true;
            else f.ret = (isType() || is("[") || is("signed") || (isId() && isId(1))) ? type() : TypeRef{};
        } else f.is_void = true;
        f.name = id();
        if (acc("(")) {
            if (!acc(")")) {
                std::string dir = "input";
                for (;;) {
                    Port a;
                    a.line = cur().line;
                    if (is("input") || is("output") || is("inout")) dir = t[p++].s;
                    a.dir = dir;
                    a.t = type();
                    a.name = id();
                    while (is("[")) a.unp.push_back(dim());
                    f.args.push_back(a);
                    if (acc(")")) break;
                    exp(",");
                }
            }
        }
        exp(";");
        auto b = mkS(Stmt::Block);
        const char *e = f.task ? "endtask" : "endfunction";
        while (!is(e)) {
            if (p >= t.size()) err("unterminated function");
            b->body.push_back(stmt());
        }
        p++;
        if (acc(":")) id();
        f.body = b;
        return f;
    }
    ParamD param() {
        ParamD d;
        d.line = cur().line;
        if (acc("parameter")) {} else if (acc("localparam")) d.local = true;
        if (acc("type")) {
            d.is_type = true;
            d.name = id();
            types.insert(d.name);
            if (acc("=")) { d.tval = type(false); }
            return d;
        }
        if (isType() || is("signed") || is("unsigned") || is("[") || (isId() && isId(1))) d.t = type();
        d.name = id();
        if (acc("=")) d.val = expr();
        return d;
    }
    I item() {
        if (is("typedef")) {
            p++;
            if (is("struct")) {
                auto i = mkI(Item::Struct);
                p++;
                exp("packed");
                acc("signed") || acc("unsigned");
                exp("{");
                while (!acc("}")) {
                    Decl d;
                    d.line = cur().line;
                    d.t = type(false);
                    d.name = id();
                    exp(";");
                    i->st.m.push_back(d);
                }
                i->st.name = id();
                i->st.line = i->line;
                types.insert(i->st.name);
                exp(";");
                return i;
            }
            if (is("enum")) {
                auto i = mkI(Item::Enum);
                p++;
                i->en.base = type();
                exp("{");
                for (;;) {
                    std::string n = id();
                    E v;
                    if (acc("=")) v = expr();
                    i->en.m.emplace_back(n, v);
                    if (acc("}")) break;
                    exp(",");
                }
                i->en.name = id();
                i->en.line = i->line;
                types.insert(i->en.name);
                exp(";");
                return i;
            }
            err("unsupported typedef");
        }
        if (is("import")) {
            auto i = mkI(Item::Import);
            p++;
            if (cur().k == Tok::Str) {   // DPI
                i->k = Item::Func;
                p++;
                acc("context") || acc("pure");
                i->fn.dpi = true;
                if (acc("task")) i->fn.is_void = true;
                else {
                    exp("function");
                    if (acc("void")) i->fn.is_void = true;
                    else i->fn.ret = type();
                }
                i->fn.name = id();
                if (acc("(")) while (!acc(")")) {
                    Port a;
                    acc("input") || acc("output");
                    a.t = type();
                    a.name = id();
                    while (is("[")) a.unp.push_back(dim());
                    i->fn.args.push_back(a);
                    acc(",");
                }
                exp(";");
                return i;
            }
            i->name = id();
            exp("::");
            exp("*");
            exp(";");
            return i;
        }
        if (is("function") || is("task")) { auto i = mkI(Item::Func); i->fn = func(); return i; }
        if (is("parameter") || is("localparam")) { auto i = mkI(Item::Param); i->pa = param(); i->pa.local = true; exp(";"); return i; }
        if (is("assign")) {
            auto i = mkI(Item::Assign);
            p++;
            if (is("#")) err("delayed assign");
            i->lhs = is("{") ? primary() : primary();
            exp("=");
            i->rhs = expr();
            exp(";");
            return i;
        }
        if (is("always_comb") || is("always_latch") || is("always_ff") || is("always") || is("initial") || is("final")) {
            auto i = mkI(Item::Always);
            i->kind = t[p++].s;
            if (acc("@")) {
                if (acc("*")) i->kind = "always_comb";
                else {
                    exp("(");
                    if (acc("*")) { i->kind = "always_comb"; exp(")"); }
                    else for (;;) {
                        std::string e;
                        if (acc("posedge")) e = "posedge";
                        else if (acc("negedge")) e = "negedge";
                        i->sens.emplace_back(e, expr());
                        if (acc(")")) break;
                        if (!acc(",") && !acc("or")) err("bad sensitivity list");
                    }
                }
            }
            i->body = stmt();
            return i;
        }
        if (is("generate")) {
            p++;
            auto i = mkI(Item::For);
            i->name = "generate";
            while (!acc("endgenerate")) i->items.push_back(item());
            return i;
        }
        if (is("for")) {
            auto i = mkI(Item::For);
            i->name = "for";
            p++;
            exp("(");
            acc("genvar") || acc("int");
            i->var = id();
            exp("=");
            i->init = expr();
            exp(";");
            i->cond = expr();
            exp(";");
            i->step = step().second;
            exp(")");
            if (acc("begin")) {
                if (acc(":")) i->label = id();
                while (!acc("end")) { if (p >= t.size()) err("unterminated generate"); i->items.push_back(item()); }
                if (acc(":")) id();
            } else i->items.push_back(item());
            return i;
        }
        if (is("property")) { auto i = mkI(Item::Property); p++; i->name = id(); skip_to("endproperty"); return i; }
        if ((is("assert") || is("assume") || is("cover")) && isn(1, "property")) { auto i = mkI(Item::Property); i->kind = cur().s; while (!acc(";")) { if (p >= t.size()) err("bad assert"); p++; } return i; }
        if (is("modport")) {
            auto i = mkI(Item::Modport);
            p++;
            i->name = id();
            exp("(");
            std::string dir;
            for (;;) {
                if (is("input") || is("output") || is("inout")) dir = t[p++].s;
                if (dir.empty()) err("modport direction");
                i->mp.emplace_back(id(), dir);
                if (acc(")")) break;
                exp(",");
            }
            exp(";");
            return i;
        }
        if (is("genvar")) { p++; id(); while (acc(",")) id(); exp(";"); return mkI(Item::Raw); }
        if (acc(";")) return mkI(Item::Raw);
        // instance: Id [#(...)] Id ( ... ) ;
        if (isId() && (isn(1, "#") || (isId(1) && isn(2, "(")))) {
            auto i = mkI(Item::Inst);
            auto &n = i->inst;
            n.line = cur().line;
            n.mod = id();
            if (acc("#")) { exp("("); conns(n.params, nullptr); }
            n.name = id();
            exp("(");
            conns(n.conns, &n.named);
            exp(";");
            return i;
        }
        auto i = mkI(Item::Decl);
        bool net = is("wire");
        TypeRef ty = type(false);
        for (;;) {
            Decl d;
            d.line = cur().line;
            d.net = net;
            d.t = ty;
            d.name = id();
            while (is("[")) d.unp.push_back(dim());
            if (acc("=")) d.init = expr();
            i->ds.push_back(d);
            if (acc(";")) break;
            exp(",");
        }
        return i;
    }
    void conns(std::vector<Conn> &cs, bool *named) {
        if (acc(")")) return;
        for (;;) {
            Conn c;
            if (acc(".*")) { c.name = "*"; }
            else if (acc(".")) {
                c.name = id();
                if (acc("(")) {
                    if (is(")")) c.has = false;
                    else if (isType() && !isn(1, "'")) { auto ty = type(); c.e = mkE(Expr::TypeCast); c.e->s = ty.name; if (!ty.pk.empty() && ty.pk.size()==1) { c.e->a = {ty.pk[0].hi, ty.pk[0].lo}; } c.e->sgn = ty.sgn; }
                    else c.e = expr();
                    exp(")");
                } else { c.e = mkE(Expr::Id); c.e->s = c.name; }
            } else { if (named) *named = false; c.e = expr(); }
            cs.push_back(c);
            if (acc(")")) break;
            exp(",");
        }
    }
    void module() {
        auto m = std::make_shared<Module>();
        m->line = cur().line;
        m->file = cur().file;
        std::string k = t[p++].s;
        m->iface = k == "interface";
        m->package = k == "package";
        m->name = id();
        if (m->iface) types.insert(m->name);
        while (is("import")) { p++; m->imports.push_back(id()); exp("::"); exp("*"); exp(";"); }
        if (acc("#")) {
            exp("(");
            if (!acc(")")) for (;;) { m->params.push_back(param()); if (acc(")")) break; exp(","); }
        }
        if (acc("(")) {
            if (!acc(")")) {
                std::string dir;
                TypeRef last;
                for (;;) {
                    Port q;
                    q.line = cur().line;
                    bool hasdir = false;
                    if (is("input") || is("output") || is("inout")) { dir = t[p++].s; hasdir = true; }
                    if (hasdir || isType() || is("[") || is("signed") || (isId() && (isId(1) || isn(1, ".")))) {
                        q.t = type(); last = q.t;
                    } else q.t = last;
                    q.dir = dir;
                    if (!hasdir && (types.count(q.t.name) || !q.t.modport.empty())) q.dir = "";
                    q.name = id();
                    while (is("[")) q.unp.push_back(dim());
                    m->ports.push_back(q);
                    if (acc(")")) break;
                    exp(",");
                }
            }
        }
        exp(";");
        std::string e = "end" + k;
        while (!is(e.c_str())) {
            if (p >= t.size()) err("missing " + e);
            auto i = item();
            if (i->k == Item::Import) m->imports.push_back(i->name);
            else m->items.push_back(i);
        }
        p++;
        if (acc(":")) m->end_name = id();
        if (src.mods.count(m->name)) src.lint.push_back("module " + m->name + " is defined twice");
        else { src.mods[m->name] = m; src.order.push_back(m->name); }
    }
    void unit() {
        while (p < t.size()) {
            if (is("module") || is("interface") || is("package")) module();
            else src.unit.push_back(item());
        }
    }
};
Source parse(const std::vector<std::pair<std::string, std::string>> &texts) {
    Lexer lx(texts);
    for (auto &f : texts) if (!lx.done.count(f.first)) {
        // header files are only compiled through `include
        if (f.first.size() > 4 && f.first.substr(f.first.size() - 4) == ".svh") continue;
        lx.lex(f.first, f.second);
    }
    Parser ps;
    ps.endt.k = Tok::End;
    ps.endt.s = "<end of file>";
    ps.t = std::move(lx.out);
    ps.src.lint = lx.lint;
    ps.unit();
    return std::move(ps.src);
}
}  // namespace sv
