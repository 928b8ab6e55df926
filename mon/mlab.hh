// A small interpreter for the MATLAB language, enough to run the classes of toolbox/lib against the bindings.
// What it does not know raises Unsup: no verdict is given then. Errors of MATLAB raise MErr.
#pragma once
#include "mexstub.hh"
#include <algorithm>
#include <cmath>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
namespace ml {
struct MErr { std::string msg; };
struct Unsup { std::string msg; };
[[noreturn]] inline void merr(std::string const &m) { throw MErr{m}; }
[[noreturn]] inline void unsup(std::string const &m) { throw Unsup{m}; }

// ------------------------------------------------------------------------------------------------ text to tokens
struct Tok { enum T { NUM, CHR, STR, ID, OP, NL, END } t; std::string s; double v; bool sp; int line; };
inline std::vector<Tok> lex(std::string const &x) {
  std::vector<Tok> o; size_t i = 0; int line = 1; bool sp = false; std::string br; // open brackets
  auto operand = [&] { return !o.empty() && (o.back().t == Tok::NUM || o.back().t == Tok::ID || o.back().t == Tok::CHR || o.back().t == Tok::STR || (o.back().t == Tok::OP && (o.back().s == ")" || o.back().s == "]" || o.back().s == "}" || o.back().s == "'" || o.back().s == ".'"))); };
  auto push = [&](Tok::T t, std::string s, double v = 0) { o.push_back(Tok{t, s, v, sp, line}); sp = false; };
  static const char *kw[] = {"if", "elseif", "else", "for", "while", "switch", "case", "otherwise", "try", "catch", "return", "break", "continue", "function"};
  while (i < x.size()) {
    char c = x[i];
    if (c == ' ' || c == '\t' || c == '\r') { sp = true; ++i; continue; }
    if (c == '%') {
      size_t e = x.find('\n', i); if (e == std::string::npos) e = x.size();
      std::string rest = x.substr(i, e - i); while (!rest.empty() && (rest.back() == '\r' || rest.back() == ' ')) rest.pop_back();
      bool alone = o.empty() || o.back().t == Tok::NL;
      if (rest == "%{" && alone) { // a block of comments
        int d = 1; i = e;
        while (d && i < x.size()) { ++line; size_t f = x.find('\n', i + 1); if (f == std::string::npos) f = x.size(); std::string l = x.substr(i + 1, f - i - 1); l.erase(0, std::min(l.size(), l.find_first_not_of(" \t"))); while (!l.empty() && std::isspace((unsigned char)l.back())) l.pop_back(); if (l == "%{") ++d; if (l == "%}") --d; i = f; }
        continue;
      }
      i = e; continue;
    }
    if (c == '.' && x.compare(i, 3, "...") == 0) { size_t e = x.find('\n', i); if (e == std::string::npos) e = x.size() - 1; i = e + 1; ++line; sp = true; continue; }
    if (c == '\n') {
      if (!br.empty() && br.back() == '(') { sp = true; ++i; ++line; continue; }
      if (!br.empty()) push(Tok::OP, ";"); else push(Tok::NL, "\n");
      ++i; ++line; continue;
    }
    if (std::isdigit((unsigned char)c) || (c == '.' && i + 1 < x.size() && std::isdigit((unsigned char)x[i + 1]))) {
      char *e; double v = std::strtod(x.c_str() + i, &e); size_t j = size_t(e - x.c_str());
      if (x[j - 1] == '.' && j < x.size() && (x[j] == '*' || x[j] == '/' || x[j] == '^' || x[j] == '\'')) --j; // 2.*x
      push(Tok::NUM, x.substr(i, j - i), v); i = j; continue;
    }
    if (std::isalpha((unsigned char)c) || c == '_') {
      size_t j = i; while (j < x.size() && (std::isalnum((unsigned char)x[j]) || x[j] == '_')) ++j;
      std::string w = x.substr(i, j - i);
      bool k = false; for (char const *q : kw) k = k || w == q;
      if (w == "end" && br.empty()) k = true;
      bool member = !o.empty() && o.back().t == Tok::OP && o.back().s == "." ;
      push(k && !member ? Tok::OP : Tok::ID, w); i = j; continue;
    }
    if (c == '"' || (c == '\'' && !(operand() && !(sp && !br.empty() && br.back() != '(')))) {
      std::string s; size_t j = i + 1;
      for (;; ++j) {
        if (j >= x.size() || x[j] == '\n') unsup("text without an end, line " + std::to_string(line));
        if (x[j] == c) { if (j + 1 < x.size() && x[j + 1] == c) { s += c; ++j; continue; } break; }
        s += x[j];
      }
      push(c == '"' ? Tok::STR : Tok::CHR, s); i = j + 1; continue;
    }
    static const char *ops[] = {"&&", "||", "==", "~=", "<=", ">=", ".*", "./", ".^", ".'", ".\\"};
    bool done = false;
    for (char const *q : ops) if (x.compare(i, 2, q) == 0) { push(Tok::OP, q); i += 2; done = true; break; }
    if (done) continue;
    if (c == '(' || c == '[' || c == '{') br += c;
    if ((c == ')' || c == ']' || c == '}') && !br.empty()) br.pop_back();
    if (std::string("()[]{}+-*/\\^'~<>=&|:;,.@!?").find(c) == std::string::npos) unsup(std::string("character ") + c + ", line " + std::to_string(line));
    push(Tok::OP, std::string(1, c)); ++i;
  }
  push(Tok::NL, "\n"); push(Tok::END, "");
  return o;
}

// ------------------------------------------------------------------------------------------------ tokens to trees
struct Node; typedef std::shared_ptr<Node> NP;
struct Node { std::string k, s; double v = 0; std::vector<NP> a; int line = 0; std::vector<std::string> names; };
inline NP mk(std::string k, std::vector<NP> a = {}, std::string s = "", double v = 0) { NP n = std::make_shared<Node>(); n->k = k; n->a = a; n->s = s; n->v = v; return n; }
struct Fun { std::string name; std::vector<std::string> in, out; NP body; std::string bad; };
struct Class { std::string name; std::vector<std::string> super; std::map<std::string, NP> props; std::map<std::string, Fun> fun; };
struct Parser {
  std::vector<Tok> t; size_t p = 0; std::string br;
  explicit Parser(std::string const &x) : t(lex(x)) {}
  bool is(std::string const &s) const { return (t[p].t == Tok::OP) && t[p].s == s; }
  bool id(std::string const &s) const { return t[p].t == Tok::ID && t[p].s == s; }
  [[noreturn]] void bad() { unsup("text at line " + std::to_string(t[p].line) + " near " + t[p].s); }
  void eat(std::string const &s) { if (!is(s)) bad(); ++p; }
  bool sep() const { return t[p].t == Tok::NL || is(";") || is(","); }
  void seps() { while (sep()) ++p; }
  std::string name() { if (t[p].t != Tok::ID) bad(); return t[p++].s; }
  void skip_parens() { int d = 0; do { if (is("(")) ++d; if (is(")")) --d; if (t[p].t == Tok::END) bad(); ++p; } while (d); }

  bool in_matrix() const { return !br.empty() && br.back() != '('; }
  bool elem_break() const { // in a matrix: does white space end the element here?
    if (!in_matrix() || !t[p].sp) return false;
    Tok const &n = t[p];
    if (n.t == Tok::NUM || n.t == Tok::ID || n.t == Tok::CHR || n.t == Tok::STR) return true;
    if (n.t != Tok::OP) return false;
    if (n.s == "(" || n.s == "[" || n.s == "{" || n.s == "@") return true;
    if (n.s == "+" || n.s == "-" || n.s == "~") return !t[p + 1].sp;
    return false;
  }
  NP expr() { return oror(); }
  NP bin(std::vector<std::string> const &ops, NP (Parser::*next)()) {
    NP l = (this->*next)();
    for (;;) {
      if (elem_break()) return l;
      bool hit = false;
      for (auto const &o : ops) if (is(o)) { int ln = t[p].line; ++p; NP r = (this->*next)(); l = mk("bin", {l, r}, o); l->line = ln; hit = true; break; }
      if (!hit) return l;
    }
  }
  NP oror() { return bin({"||"}, &Parser::andand); }
  NP andand() { return bin({"&&"}, &Parser::bor); }
  NP bor() { return bin({"|"}, &Parser::band); }
  NP band() { return bin({"&"}, &Parser::cmp); }
  NP cmp() { return bin({"==", "~=", "<=", ">=", "<", ">"}, &Parser::range); }
  NP range() {
    NP a = add();
    if (!is(":") || elem_break()) return a;
    if (t[p + 1].t == Tok::OP && (t[p + 1].s == ")" || t[p + 1].s == ",")) return a;
    ++p; NP b = add();
    if (is(":")) { ++p; NP c = add(); return mk("range", {a, b, c}); }
    return mk("range", {a, mk("num", {}, "", 1), b});
  }
  NP add() { return bin({"+", "-"}, &Parser::mul); }
  NP mul() { return bin({"*", "/", ".*", "./", "\\", ".\\"}, &Parser::un); }
  NP un() {
    if (is("-") || is("+") || is("~") || is("!")) { std::string o = t[p].s == "!" ? "~" : t[p].s; ++p; NP a = un(); return mk("un", {a}, o); }
    return pw();
  }
  NP pw() {
    NP l = post();
    while (!elem_break() && (is("^") || is(".^"))) {
      std::string o = t[p].s; ++p; NP r;
      if (is("-") || is("+") || is("~")) { std::string u = t[p].s; ++p; r = mk("un", {post()}, u); } else r = post();
      l = mk("bin", {l, r}, o);
    }
    return l;
  }
  std::vector<NP> args(char close) { // after the opening bracket
    std::vector<NP> v; br += '(';
    while (!is(std::string(1, close))) {
      if (is(":") && t[p + 1].t == Tok::OP && (t[p + 1].s == "," || t[p + 1].s == std::string(1, close))) { ++p; v.push_back(mk("colon")); }
      else v.push_back(expr());
      if (is(",")) ++p; else if (!is(std::string(1, close))) bad();
    }
    br.pop_back(); ++p;
    return v;
  }
  NP post() {
    NP e = prim();
    for (;;) {
      if (is("'") || is(".'")) { if (t[p].sp && in_matrix()) return e; ++p; e = mk("tr", {e}); continue; }
      if (elem_break()) return e;
      int ln = t[p].line;
      if (is("(")) { ++p; NP n = mk("call", {e}); n->line = ln; for (NP const &x : args(')')) n->a.push_back(x); e = n; }
      else if (is("{")) { ++p; NP n = mk("brace", {e}); for (NP const &x : args('}')) n->a.push_back(x); e = n; }
      else if (is(".") && !(t[p].sp && in_matrix())) {
        ++p;
        if (is("(")) { ++p; br += '('; NP x = expr(); br.pop_back(); eat(")"); e = mk("dynfield", {e, x}); }
        else { e = mk("field", {e}, name()); e->line = ln; }
      } else return e;
    }
  }
  NP prim() {
    Tok k = t[p];
    if (k.t == Tok::NUM) { ++p; return mk("num", {}, "", k.v); }
    if (k.t == Tok::CHR) { ++p; return mk("chr", {}, k.s); }
    if (k.t == Tok::STR) { ++p; return mk("str", {}, k.s); }
    if (k.t == Tok::ID) {
      ++p;
      if (is("@") && !t[p].sp) { ++p; NP n = mk("super", {}, name()); return n; } // this@super(...)
      NP n = mk("id", {}, k.s); n->line = k.line; return n;
    }
    if (is("(")) { ++p; br += '('; NP e = expr(); br.pop_back(); eat(")"); return mk("par", {e}); }
    if (is("[")) { ++p; return matrix(']', "mat"); }
    if (is("{")) { ++p; return matrix('}', "cellmat"); }
    if (is("@")) {
      ++p;
      if (is("(")) {
        ++p; NP n = mk("anon");
        while (!is(")")) { if (is("~")) { ++p; n->names.push_back("~"); } else n->names.push_back(name()); if (is(",")) ++p; }
        ++p; n->a.push_back(expr()); return n;
      }
      return mk("handle", {}, name());
    }
    bad();
  }
  NP matrix(char close, std::string kind) {
    NP m = mk(kind), row = mk("row"); std::string c(1, close); br += close == ']' ? '[' : '{';
    for (;;) {
      if (is(c)) { ++p; break; }
      if (is(";")) { ++p; if (!row->a.empty()) m->a.push_back(row); row = mk("row"); continue; }
      if (is(",")) { ++p; continue; }
      row->a.push_back(expr());
    }
    if (!row->a.empty()) m->a.push_back(row);
    br.pop_back();
    return m;
  }
  NP block(std::vector<std::string> const &ends) {
    NP b = mk("block");
    for (;;) {
      seps();
      if (t[p].t == Tok::END) return b;
      for (auto const &e : ends) if (is(e)) return b;
      b->a.push_back(stmt());
    }
  }
  NP stmt() {
    int ln = t[p].line; NP n;
    if (is("if")) {
      ++p; n = mk("if"); n->a.push_back(expr()); n->a.push_back(block({"elseif", "else", "end"}));
      while (is("elseif")) { ++p; n->a.push_back(expr()); n->a.push_back(block({"elseif", "else", "end"})); }
      if (is("else")) { ++p; n->a.push_back(block({"end"})); }
      eat("end");
    } else if (is("for")) {
      ++p; bool par = is("("); if (par) ++p; std::string v = name(); eat("="); if (par) br += '('; NP e = expr(); if (par) { br.pop_back(); eat(")"); }
      n = mk("for", {e, block({"end"})}, v); eat("end");
    } else if (is("while")) { ++p; NP e = expr(); n = mk("while", {e, block({"end"})}); eat("end"); }
    else if (is("switch")) {
      ++p; n = mk("switch"); n->a.push_back(expr()); seps();
      while (is("case")) { ++p; NP e = expr(); n->a.push_back(e); n->a.push_back(block({"case", "otherwise", "end"})); }
      if (is("otherwise")) { ++p; n->a.push_back(block({"end"})); }
      eat("end");
    } else if (is("try")) {
      ++p; n = mk("try"); n->a.push_back(block({"catch", "end"}));
      if (is("catch")) { int l = t[p].line; ++p; if (t[p].t == Tok::ID && t[p].line == l && (t[p + 1].t == Tok::NL || (t[p + 1].t == Tok::OP && t[p + 1].s == ";"))) n->s = name(); n->a.push_back(block({"end"})); }
      eat("end");
    } else if (is("return")) { ++p; n = mk("return"); }
    else if (is("break")) { ++p; n = mk("break"); }
    else if (is("continue")) { ++p; n = mk("continue"); }
    else if (t[p].t == Tok::ID && t[p + 1].t == Tok::ID && t[p + 1].sp && t[p + 1].line == t[p].line) { // command syntax
      n = mk("cmd", {}, name());
      while (t[p].t != Tok::NL && !is(";") && !is(",")) { if (t[p].t == Tok::END) bad(); n->names.push_back(t[p].s); ++p; }
    } else {
      size_t q = p;
      if (is("[")) { // several outputs?
        int d = 0; size_t j = p; do { if (t[j].t == Tok::OP) { if (t[j].s == "[") ++d; if (t[j].s == "]") --d; } if (t[j].t == Tok::END) bad(); ++j; } while (d);
        if (t[j].t == Tok::OP && t[j].s == "=") {
          ++p; n = mk("assign"); br += '[';
          while (!is("]")) { if (is(",")) { ++p; continue; } if (is("~")) { ++p; n->a.push_back(mk("skip")); } else n->a.push_back(post()); }
          br.pop_back(); p = j + 1; n->a.push_back(expr());
        }
      }
      if (!n) {
        p = q; NP e = expr();
        if (is("=")) { ++p; NP r = expr(); n = mk("assign", {e, r}); } else n = mk("expr", {e});
      }
      if (!sep() && t[p].t != Tok::END) bad();
    }
    n->line = ln;
    return n;
  }
  Fun function() { // after the word function
    Fun f; 
    if (is("[")) { ++p; while (!is("]")) { if (is(",")) ++p; else f.out.push_back(name()); } ++p; eat("="); f.name = name(); }
    else { f.name = name(); if (is("=")) { ++p; f.out.push_back(f.name); f.name = name(); } }
    while (is(".")) { ++p; f.name += "." + name(); }
    if (is("(")) { ++p; while (!is(")")) { if (is(",")) ++p; else if (is("~")) { ++p; f.in.push_back("~"); } else f.in.push_back(name()); } ++p; }
    f.body = block({"end", "function"});
    if (is("end")) ++p;
    return f;
  }
  Class classdef() {
    Class c; seps();
    if (!id("classdef")) bad();
    ++p; if (is("(")) skip_parens();
    c.name = name();
    if (is("<")) { ++p; c.super.push_back(name()); while (is(".")) { ++p; c.super.back() += "." + name(); } while (is("&")) { ++p; c.super.push_back(name()); } }
    for (;;) {
      seps();
      if (is("end")) { ++p; break; }
      std::string s = name(); if (is("(")) skip_parens();
      if (s == "properties") {
        for (;;) {
          seps(); if (is("end")) { ++p; break; }
          std::string q = name(); NP init;
          while (t[p].t == Tok::ID || is("(")) { if (is("(")) skip_parens(); else ++p; } // size and class
          if (is("=")) { ++p; init = expr(); }
          c.props[q] = init;
        }
      } else if (s == "methods") {
        for (;;) {
          seps(); if (is("end")) { ++p; break; }
          if (is("function")) { ++p; Fun f = function(); c.fun[f.name] = f; }
          else { while (t[p].t != Tok::NL) ++p; }
        }
      } else bad();
    }
    seps();
    while (is("function")) { ++p; Fun f = function(); if (!c.fun.count(f.name)) c.fun[f.name] = f; seps(); }
    return c;
  }
};

// ------------------------------------------------------------------------------------------------ values
struct Obj; struct Val; typedef std::shared_ptr<Obj> OP;
typedef std::map<std::string, Val> Env;
struct Val {
  enum K { NUM, CELL, OBJ, STRUCT, FUN } k = NUM;
  mxClassID cls = mxDOUBLE_CLASS; bool str = false; size_t m = 0, n = 0;
  std::vector<double> d; std::vector<Val> c; OP o; std::shared_ptr<Env> s; NP f;
  size_t numel() const { return k == OBJ || k == STRUCT || k == FUN ? 1 : m * n; }
};
struct Obj { std::string cls; Env props; bool live = true; std::shared_ptr<void> native; };
inline Val num(double x, mxClassID c = mxDOUBLE_CLASS) { Val v; v.cls = c; v.m = v.n = 1; v.d = {x}; return v; }
inline Val logical(bool b) { return num(b, mxLOGICAL_CLASS); }
inline Val mat(size_t m, size_t n, double x = 0, mxClassID c = mxDOUBLE_CLASS) { Val v; v.cls = c; v.m = m; v.n = n; v.d.assign(m * n, x); return v; }
inline Val text(std::string const &s, bool str = false) { Val v; v.cls = mxCHAR_CLASS; v.str = str; v.m = str || !s.empty() ? 1 : 0; v.n = s.size(); for (char c : s) v.d.push_back((unsigned char)c); if (str && s.empty()) v.m = 1; return v; }
inline Val cell(size_t m, size_t n) { Val v; v.k = Val::CELL; v.m = m; v.n = n; v.c.assign(m * n, Val()); return v; }
inline Val obj(OP o) { Val v; v.k = Val::OBJ; v.o = o; v.m = v.n = 1; return v; }
inline bool is_text(Val const &v) { return v.k == Val::NUM && v.cls == mxCHAR_CLASS; }
inline std::string str(Val const &v) { if (!is_text(v)) merr("text expected"); std::string s; for (double x : v.d) s += char(int(x)); return s; }
inline double scalar(Val const &v) { if (v.k != Val::NUM || v.d.size() != 1) merr("a scalar is expected"); return v.d[0]; }
inline bool truth(Val const &v) { if (v.k != Val::NUM) merr("a condition is expected"); if (v.d.empty()) return false; for (double x : v.d) { if (std::isnan(x)) merr("NaN is no condition"); if (x == 0) return false; } return true; }

struct Drawing { std::string what; std::vector<Val> args; };
struct Interp {
  std::map<std::string, Class> classes;
  std::map<std::string, mexstub::Fun> mex;
  std::map<std::string, std::function<std::vector<Val>(Interp &, std::vector<Val> const &, int)>> natives; // classes and functions of others
  std::map<std::string, std::function<std::vector<Val>(Interp &, Val const &, std::vector<Val> const &, int)>> native_methods; // "class.method"
  std::vector<Drawing> drawn; long mexcalls = 0, calls = 0;
  int depth = 0;
  struct Ret {}; struct Brk {}; struct Cont {};
  struct Ctx { Val const *v; size_t dim, of; };
  std::vector<Ctx> ends;

  void load(std::string const &path) { std::ifstream f(path); std::stringstream s; s << f.rdbuf(); Parser p(s.str()); Class c = p.classdef(); classes[c.name] = c; }
  Fun const *method(std::string const &cls, std::string const &m) const {
    auto c = classes.find(cls); if (c == classes.end()) return nullptr;
    auto f = c->second.fun.find(m); if (f != c->second.fun.end() && !(m == cls)) return &f->second;
    for (auto const &s : c->second.super) if (Fun const *g = method(s, m)) return g;
    return nullptr;
  }
  bool is_a(std::string const &cls, std::string const &what) const {
    if (cls == what) return true;
    auto c = classes.find(cls); if (c == classes.end()) return false;
    for (auto const &s : c->second.super) if (s == what || is_a(s, what)) return true;
    return false;
  }
  // ---- objects
  void init_props(Obj &o, std::string const &cls) {
    auto c = classes.find(cls); if (c == classes.end()) return;
    for (auto const &s : c->second.super) { init_props(o, s); if (s == "acme_entity") o.props["objectHandle"] = Val(); }
    Env e; for (auto const &q : c->second.props) o.props[q.first] = q.second ? eval(q.second, e) : Val();
  }
  OP fresh(std::string const &cls) { // deleted by its own method when nobody has it any more
    Interp *I = this;
    Obj *p = new Obj; p->cls = cls;
    return OP(p, [I](Obj *q) {
      OP keep(q);
      if (q->live) { try { I->destroy(keep); } catch (MErr const &) {} catch (Unsup const &) {} }
    });
  }
  void destroy(OP const &o) {
    if (!o->live) return;
    if (Fun const *f = method(o->cls, "delete")) run(*f, {obj(o)}, 0);
    o->live = false; o->native.reset();
  }
  Val construct(std::string const &cls, std::vector<Val> const &a) {
    Class const &c = classes.at(cls); OP o = fresh(cls);
    init_props(*o, cls);
    auto f = c.fun.find(cls);
    if (f == c.fun.end()) { if (!a.empty()) merr("too many inputs"); return obj(o); }
    Env e; if (f->second.out.empty()) unsup("constructor without output");
    e[f->second.out[0]] = obj(o);
    try {
      std::vector<Val> r = run(f->second, a, 1, &e);
      return r.at(0);
    } catch (...) { o->live = false; throw; } // no object: nothing to delete
  }
  // ---- functions
  std::vector<Val> run(Fun const &f, std::vector<Val> const &a, int nout, Env *start = nullptr) {
    if (!f.bad.empty()) unsup(f.bad);
    if (++depth > 200) { depth = 0; unsup("recursion"); }
    struct D { int &d; ~D() { --d; } } dd{depth}; ++calls;
    Env e; if (start) e = *start;
    bool var = !f.in.empty() && f.in.back() == "varargin"; size_t n = f.in.size() - (var ? 1 : 0);
    if (a.size() > n && !var) merr("too many input arguments for " + f.name);
    for (size_t i = 0; i < n && i < a.size(); ++i) if (f.in[i] != "~") e[f.in[i]] = a[i];
    for (size_t i = a.size(); i < n; ++i) e["?" + f.in[i]] = Val(); // not given
    if (var) { Val v = cell(a.size() > n ? 1 : 0, a.size() > n ? a.size() - n : 0); for (size_t i = n; i < a.size(); ++i) v.c[i - n] = a[i]; e["varargin"] = v; }
    e["nargin"] = num(double(a.size())); e["nargout"] = num(nout);
    if (nout > int(f.out.size()) && !(f.out.size() && f.out.back() == "varargout")) merr("too many output arguments for " + f.name);
    auto keep = ends; ends.clear();
    try { exec(f.body, e); } catch (Ret const &) {} catch (...) { ends = keep; throw; }
    ends = keep;
    std::vector<Val> r;
    for (size_t i = 0; i < f.out.size(); ++i) {
      if (f.out[i] == "varargout") { if (e.count("varargout")) for (Val const &v : e["varargout"].c) r.push_back(v); break; }
      auto q = e.find(f.out[i]);
      if (q == e.end()) { if (int(i) < nout) merr("output " + f.out[i] + " of " + f.name + " is not assigned"); break; }
      r.push_back(q->second);
    }
    return r;
  }
  std::vector<Val> call_mex(std::string const &nm, std::vector<Val> const &a, int nout) {
    std::vector<mxArray *> own; struct G { std::vector<mxArray *> &o; ~G() { for (mxArray *x : o) mexstub::destroy(x); } } g{own};
    for (Val const &v : a) own.push_back(to_mx(v));
    std::vector<mxArray const *> in(own.begin(), own.end());
    ++mexcalls;
    mexstub::Result r = mexstub::call(mex.at(nm), nout, in);
    if (r.error) merr(r.msg);
    std::vector<Val> o; for (mxArray *x : r.out) { o.push_back(from_mx(x)); mexstub::destroy(x); }
    if (int(o.size()) < nout) merr("one or more output arguments of " + nm + " are not assigned");
    return o;
  }
  static mxArray *to_mx(Val const &v) {
    if (v.k == Val::OBJ) return mexstub::make(mxUNKNOWN_CLASS, {1, 1});
    if (v.k == Val::STRUCT) return mexstub::make(mxSTRUCT_CLASS, {1, 1});
    if (v.k == Val::CELL) return mexstub::make(mxCELL_CLASS, {v.m, v.n});
    if (v.k == Val::FUN || v.str) return mexstub::make(mxUNKNOWN_CLASS, {1, 1}); // a string is no char array
    mxArray *x = mexstub::make(v.cls, {v.m, v.n});
    for (size_t i = 0; i < v.d.size(); ++i) put(x, i, v.d[i]);
    return x;
  }
  static void put(mxArray *x, size_t i, double q) {
    switch (x->cls) {
    case mxLOGICAL_CLASS: case mxUINT8_CLASS: static_cast<uint8_t *>(x->data)[i] = uint8_t(q); break;
    case mxINT8_CLASS: static_cast<int8_t *>(x->data)[i] = int8_t(q); break;
    case mxINT16_CLASS: static_cast<int16_t *>(x->data)[i] = int16_t(q); break;
    case mxCHAR_CLASS: case mxUINT16_CLASS: static_cast<uint16_t *>(x->data)[i] = uint16_t(q); break;
    case mxINT32_CLASS: static_cast<int32_t *>(x->data)[i] = int32_t(q); break;
    case mxUINT32_CLASS: static_cast<uint32_t *>(x->data)[i] = uint32_t(q); break;
    case mxINT64_CLASS: static_cast<int64_t *>(x->data)[i] = int64_t(q); break;
    case mxUINT64_CLASS: static_cast<uint64_t *>(x->data)[i] = uint64_t(q); break;
    case mxSINGLE_CLASS: static_cast<float *>(x->data)[i] = float(q); break;
    default: static_cast<double *>(x->data)[i] = q;
    }
  }
  static Val from_mx(mxArray const *x) {
    if (x->dims.size() != 2) unsup("an array of more dimensions");
    Val v; v.cls = x->cls; v.m = x->dims[0]; v.n = x->dims[1];
    for (size_t i = 0; i < v.m * v.n; ++i) v.d.push_back(mexstub::value(x, i));
    return v;
  }
  std::vector<Val> call_method(Val const &o, std::string const &m, std::vector<Val> const &rest, int nout) {
    if (m == "delete" && !o.o->live) return {};
    if (m == "delete") { if (!rest.empty()) merr("too many inputs"); destroy(o.o); return {}; }
    if (m == "isvalid") return {logical(o.o->live)};
    if (!o.o->live) merr("invalid or deleted object");
    if (Fun const *f = method(o.o->cls, m)) { std::vector<Val> a{o}; a.insert(a.end(), rest.begin(), rest.end()); return run(*f, a, nout); }
    auto q = native_methods.find(o.o->cls + "." + m);
    if (q != native_methods.end()) { ++calls; return q->second(*this, o, rest, nout); }
    if (natives.count(o.o->cls)) unsup("method " + m + " of " + o.o->cls);
    merr("no method or property " + m + " of " + o.o->cls);
  }
  bool has_method(Val const &o, std::string const &m) { return m == "delete" || m == "isvalid" || method(o.o->cls, m) || native_methods.count(o.o->cls + "." + m); }
  std::vector<Val> call_fun(std::string const &nm, std::vector<Val> const &a, int nout, Env *) {
    if (mex.count(nm)) return call_mex(nm, a, nout);
    for (Val const &x : a) if (x.k == Val::OBJ && has_method(x, nm) && nm != "disp") { // the method of the first object
      std::vector<Val> rest(a.begin(), a.end()); if (&x != &a[0]) { Fun const *f = method(x.o->cls, nm); if (f) return run(*f, a, nout); }
      rest.erase(rest.begin()); return call_method(x, nm, rest, nout);
    }
    if (nm == "disp" && a.size() == 1 && a[0].k == Val::OBJ) return call_method(a[0], "disp", {}, nout);
    if (classes.count(nm)) return {construct(nm, a)};
    auto q = natives.find(nm); if (q != natives.end()) { ++calls; return q->second(*this, a, nout); }
    return builtin(nm, a, nout);
  }
  std::vector<Val> call_handle(Val const &f, std::vector<Val> const &a, int nout) {
    if (f.f->k == "handle") return call_fun(f.f->s, a, nout, nullptr);
    Env e = *f.s;
    if (a.size() > f.f->names.size()) merr("too many inputs");
    for (size_t i = 0; i < a.size(); ++i) e[f.f->names[i]] = a[i];
    return multi(f.f->a[0], e, nout);
  }
  // ---- statements
  void exec(NP const &n, Env &e) {
    if (n->k == "block") { for (NP const &s : n->a) exec(s, e); return; }
    if (n->k == "expr") {
      NP x = n->a[0];
      std::vector<Val> r = multi(x, e, 0);
      if (!r.empty()) e["ans"] = r[0];
      return;
    }
    if (n->k == "assign") {
      size_t k = n->a.size() - 1; NP rhs = n->a[k];
      if (k == 1) {
        if (n->a[0]->k == "call" && rhs->k == "mat" && rhs->a.empty()) { erase(n->a[0], e); return; }
        std::vector<Val> r = multi(rhs, e, 1); if (r.empty()) merr("nothing to assign"); assign(n->a[0], r[0], e); return;
      }
      std::vector<Val> r = multi(rhs, e, int(k));
      if (r.size() < k) merr("too few outputs");
      for (size_t i = 0; i < k; ++i) if (n->a[i]->k != "skip") assign(n->a[i], r[i], e);
      return;
    }
    if (n->k == "if") {
      size_t i = 0;
      for (; i + 1 < n->a.size(); i += 2) if (truth(eval(n->a[i], e))) { exec(n->a[i + 1], e); return; }
      if (i < n->a.size()) exec(n->a[i], e);
      return;
    }
    if (n->k == "for") {
      Val v = eval(n->a[0], e);
      size_t cols = v.k == Val::NUM || v.k == Val::CELL ? (v.m ? v.n : 0) : 1;
      for (size_t j = 0; j < cols; ++j) {
        Val x;
        if (v.k == Val::NUM) { x = mat(v.m, 1, 0, v.cls); for (size_t i = 0; i < v.m; ++i) x.d[i] = v.d[j * v.m + i]; }
        else if (v.k == Val::CELL) { x = cell(v.m, 1); for (size_t i = 0; i < v.m; ++i) x.c[i] = v.c[j * v.m + i]; } else x = v;
        e[n->s] = x;
        try { exec(n->a[1], e); } catch (Brk const &) { break; } catch (Cont const &) {}
      }
      return;
    }
    if (n->k == "while") {
      for (long c = 0; truth(eval(n->a[0], e)); ++c) { if (c > 1000000) unsup("a long loop"); try { exec(n->a[1], e); } catch (Brk const &) { break; } catch (Cont const &) {} }
      return;
    }
    if (n->k == "switch") {
      Val v = eval(n->a[0], e); size_t i = 1;
      auto same = [&](Val const &a) { if (is_text(v)) return is_text(a) && str(a) == str(v); return a.k == Val::NUM && !is_text(a) && a.d.size() == 1 && v.d.size() == 1 && a.d[0] == v.d[0]; };
      for (; i + 1 < n->a.size(); i += 2) {
        Val c = eval(n->a[i], e); bool hit = false;
        if (c.k == Val::CELL) { for (Val const &x : c.c) hit = hit || same(x); } else hit = same(c);
        if (hit) { exec(n->a[i + 1], e); return; }
      }
      if (i < n->a.size()) exec(n->a[i], e);
      return;
    }
    if (n->k == "try") {
      try { exec(n->a[0], e); }
      catch (MErr const &x) {
        if (!n->s.empty()) { Val s; s.k = Val::STRUCT; s.m = s.n = 1; s.s = std::make_shared<Env>(); (*s.s)["message"] = text(x.msg); (*s.s)["identifier"] = text(""); e[n->s] = s; }
        if (n->a.size() > 1) exec(n->a[1], e);
      }
      return;
    }
    if (n->k == "cmd") { std::vector<Val> a; for (auto const &s : n->names) a.push_back(text(s)); call_fun(n->s, a, 0, &e); return; }
    if (n->k == "return") throw Ret();
    if (n->k == "break") throw Brk();
    if (n->k == "continue") throw Cont();
    unsup("statement " + n->k);
  }
  // ---- places
  std::vector<std::vector<size_t>> subs(Val const &v, std::vector<NP> const &a, Env &e, bool grow) {
    std::vector<std::vector<size_t>> r;
    for (size_t i = 0; i < a.size(); ++i) {
      size_t len = a.size() == 1 ? v.m * v.n : i == 0 ? v.m : i == 1 ? v.n : 1;
      std::vector<size_t> q;
      if (a[i]->k == "colon") { for (size_t j = 0; j < len; ++j) q.push_back(j); r.push_back(q); continue; }
      ends.push_back(Ctx{&v, i, a.size()});
      Val x; try { x = eval(a[i], e); } catch (...) { ends.pop_back(); throw; }
      ends.pop_back();
      if (x.k != Val::NUM) merr("no index");
      if (is_text(x) && str(x) == ":") { for (size_t j = 0; j < len; ++j) q.push_back(j); r.push_back(q); continue; }
      if (x.cls == mxLOGICAL_CLASS) { for (size_t j = 0; j < x.d.size(); ++j) if (x.d[j]) q.push_back(j); }
      else for (double d : x.d) { if (!(d >= 1) || d != std::floor(d)) merr("an index must be a positive integer"); q.push_back(size_t(d) - 1); }
      if (!grow) for (size_t j : q) if (j >= len) merr("index " + std::to_string(j + 1) + " exceeds " + std::to_string(len));
      r.push_back(q);
    }
    return r;
  }
  Val index(Val const &v, std::vector<NP> const &a, Env &e) {
    if (a.empty()) return v;
    if (v.k == Val::OBJ || v.k == Val::STRUCT) { Val one = mat(1, 1); auto s = subs(one, a, e, false); for (auto const &q : s) if (q.size() != 1) unsup("an array of objects"); return v; }
    if (v.k == Val::FUN) unsup("handle");
    if (v.str) { Val w = cell(1, 1); w.c[0] = v; auto s = subs(w, a, e, false); return v; }
    auto s = subs(v, a, e, false);
    Val r; r.k = v.k; r.cls = v.cls;
    auto get = [&](size_t j) { if (v.k == Val::NUM) r.d.push_back(v.d[j]); else r.c.push_back(v.c[j]); };
    if (s.size() == 1) {
      for (size_t j : s[0]) get(j);
      bool colon = a[0]->k == "colon"; size_t k = s[0].size();
      if (colon || (v.n == 1 && v.m != 1)) { r.m = k; r.n = 1; } else { r.m = 1; r.n = k; }
    } else {
      for (size_t j : s[1]) for (size_t i : s[0]) get(j * v.m + i);
      r.m = s[0].size(); r.n = s[1].size();
      for (size_t k = 2; k < s.size(); ++k) if (s[k].size() != 1 || s[k][0] != 0) merr("index exceeds");
    }
    return r;
  }
  static void grow(Val &v, size_t m, size_t n) {
    if (m <= v.m && n <= v.n) return;
    m = std::max(m, v.m); n = std::max(n, v.n);
    Val w = v; w.m = m; w.n = n;
    if (v.k == Val::CELL) { w.c.assign(m * n, Val()); for (size_t j = 0; j < v.n; ++j) for (size_t i = 0; i < v.m; ++i) w.c[j * m + i] = v.c[j * v.m + i]; }
    else { w.d.assign(m * n, 0.0); for (size_t j = 0; j < v.n; ++j) for (size_t i = 0; i < v.m; ++i) w.d[j * m + i] = v.d[j * v.m + i]; }
    v = w;
  }
  void put_at(Val &v, std::vector<NP> const &a, Val const &x, Env &e, bool brace) {
    if (v.k == Val::NUM && v.d.empty() && (brace || x.k == Val::CELL)) { v = cell(0, 0); }
    if (v.k == Val::NUM && v.d.empty() && x.k == Val::OBJ) unsup("an array of objects");
    if (v.k == Val::OBJ || v.k == Val::STRUCT) unsup("an array of objects");
    if (brace && v.k != Val::CELL) merr("braces on what is no cell");
    auto s = subs(v, a, e, true);
    if (s.size() == 1) { size_t top = 0; for (size_t j : s[0]) top = std::max(top, j + 1); if (top > v.m * v.n) { if (v.m > 1 && v.n > 1) merr("a matrix does not grow by one index"); if (v.n == 1 && v.m > 1) grow(v, top, 1); else grow(v, 1, top); } }
    else { if (s.size() > 2) unsup("three dimensions"); size_t m = 0, n = 0; for (size_t j : s[0]) m = std::max(m, j + 1); for (size_t j : s[1]) n = std::max(n, j + 1);
      if (v.m == 0 && v.n == 0) { if (a[0]->k == "colon") { m = brace ? 1 : x.m * x.n / std::max<size_t>(1, s[1].size()); s[0].clear(); for (size_t i = 0; i < m; ++i) s[0].push_back(i); } if (a[1]->k == "colon") { n = brace ? 1 : x.m * x.n / std::max<size_t>(1, s[0].size()); s[1].clear(); for (size_t i = 0; i < n; ++i) s[1].push_back(i); } }
      grow(v, m, n); }
    std::vector<size_t> at;
    if (s.size() == 1) at = s[0]; else for (size_t j : s[1]) for (size_t i : s[0]) at.push_back(j * v.m + i);
    if (brace) { if (at.size() != 1) merr("one cell is expected"); v.c[at[0]] = x; return; }
    if (v.k == Val::CELL) { if (x.k == Val::CELL && x.c.size() == at.size()) { for (size_t k = 0; k < at.size(); ++k) v.c[at[k]] = x.c[k]; } else for (size_t k : at) v.c[k] = x.k == Val::CELL && x.c.size() == 1 ? x.c[0] : x; return; }
    if (x.k != Val::NUM) merr("no number to assign");
    if (x.d.size() != 1 && x.d.size() != at.size()) merr("the sizes of both sides differ");
    if (v.d.empty()) v.cls = x.cls;
    for (size_t k = 0; k < at.size(); ++k) v.d[at[k]] = x.d.size() == 1 ? x.d[0] : x.d[k];
  }
  void erase(NP const &n, Env &e) {
    Val v = eval(n->a[0], e); std::vector<NP> a(n->a.begin() + 1, n->a.end());
    auto s = subs(v, a, e, false);
    if (s.size() != 1 || (v.m != 1 && v.n != 1)) unsup("removal from a matrix");
    std::sort(s[0].begin(), s[0].end()); s[0].erase(std::unique(s[0].begin(), s[0].end()), s[0].end());
    for (size_t k = s[0].size(); k-- > 0;) { if (v.k == Val::CELL) v.c.erase(v.c.begin() + long(s[0][k])); else v.d.erase(v.d.begin() + long(s[0][k])); }
    size_t left = v.k == Val::CELL ? v.c.size() : v.d.size(); if (v.m == 1) v.n = left; else v.m = left;
    assign(n->a[0], v, e);
  }
  void assign(NP const &l, Val const &x, Env &e) {
    if (l->k == "id") { e[l->s] = x; return; }
    if (l->k == "call" || l->k == "brace") {
      Val v; bool have = true;
      if (l->a[0]->k == "id" && l->k == "call" && x.k == Val::NUM) { auto q = e.find(l->a[0]->s); if (q != e.end() && q->second.k == Val::NUM && !q->second.d.empty()) { put_at(q->second, std::vector<NP>(l->a.begin() + 1, l->a.end()), x, e, false); return; } } // in place
      if (l->a[0]->k == "id") { auto q = e.find(l->a[0]->s); if (q == e.end()) have = false; else v = q->second; }
      else { try { v = eval(l->a[0], e); } catch (MErr const &) { have = false; } }
      if (!have && l->k == "brace") v = cell(0, 0);
      if (!have && l->k == "call" && x.k == Val::CELL) v = cell(0, 0);
      put_at(v, std::vector<NP>(l->a.begin() + 1, l->a.end()), x, e, l->k == "brace");
      assign(l->a[0], v, e); return;
    }
    if (l->k == "field" || l->k == "dynfield") {
      std::string nm = l->k == "field" ? l->s : str(eval(l->a[1], e));
      Val b; bool have = true;
      if (l->a[0]->k == "id") { auto q = e.find(l->a[0]->s); if (q == e.end()) have = false; else b = q->second; } else { try { b = eval(l->a[0], e); } catch (MErr const &) { have = false; } }
      if (have && b.k == Val::OBJ) {
        if (!b.o->live) merr("invalid or deleted object");
        if (!b.o->props.count(nm)) merr("no property " + nm + " of " + b.o->cls);
        b.o->props[nm] = x; return;
      }
      if (!have || (b.k == Val::NUM && b.d.empty())) { b = Val(); b.k = Val::STRUCT; b.m = b.n = 1; b.s = std::make_shared<Env>(); }
      if (b.k != Val::STRUCT) merr("a field of what is no structure");
      b.s = std::make_shared<Env>(*b.s); (*b.s)[nm] = x;
      assign(l->a[0], b, e); return;
    }
    if (l->k == "par") unsup("assignment to parentheses");
    unsup("assignment to " + l->k);
  }
  // ---- expressions
  Val eval(NP const &n, Env &e) { std::vector<Val> r = multi(n, e, 1); if (r.empty()) merr("a value is expected"); return r[0]; }
  std::vector<Val> arguments(NP const &n, size_t from, Env &e) {
    std::vector<Val> a;
    for (size_t i = from; i < n->a.size(); ++i) {
      if (n->a[i]->k == "colon") { a.push_back(text(":")); continue; }
      auto keep = ends; // `end` belongs to what is indexed
      std::vector<Val> r = n->a[i]->k == "brace" || n->a[i]->k == "field" ? multi(n->a[i], e, 1) : std::vector<Val>{eval(n->a[i], e)};
      a.insert(a.end(), r.begin(), r.end());
    }
    return a;
  }
  std::vector<Val> multi(NP const &n, Env &e, int nout) {
    std::string const &k = n->k;
    if (k == "num") return {num(n->v)};
    if (k == "chr") return {text(n->s)};
    if (k == "str") return {text(n->s, true)};
    if (k == "par") return {eval(n->a[0], e)};
    if (k == "id") {
      auto q = e.find(n->s); if (q != e.end()) return {q->second};
      if (n->s == "end" && !ends.empty()) { Ctx c = ends.back(); Val const &v = *c.v; size_t m = v.k == Val::OBJ ? 1 : v.m, nn = v.k == Val::OBJ ? 1 : v.n; return {num(double(c.of == 1 ? m * nn : c.dim == 0 ? m : c.dim == 1 ? nn : 1))}; }
      if (e.count("?" + n->s)) merr("not enough input arguments");
      if (n->s.size() == 1 && n->s != "i" && n->s != "j" && !classes.count(n->s)) merr("no variable " + n->s);
      return call_fun(n->s, {}, nout, &e);
    }
    if (k == "super") unsup("call of a super class");
    if (k == "anon") { Val f; f.k = Val::FUN; f.f = n; f.s = std::make_shared<Env>(e); f.m = f.n = 1; return {f}; }
    if (k == "handle") { Val f; f.k = Val::FUN; f.f = n; f.s = std::make_shared<Env>(); f.m = f.n = 1; return {f}; }
    if (k == "tr") { Val v = eval(n->a[0], e); Val r = v; r.m = v.n; r.n = v.m; if (v.k == Val::OBJ || v.str) return {v}; for (size_t i = 0; i < v.m; ++i) for (size_t j = 0; j < v.n; ++j) { if (v.k == Val::CELL) r.c[i * r.m + j] = v.c[j * v.m + i]; else r.d[i * r.m + j] = v.d[j * v.m + i]; } return {r}; }
    if (k == "un") {
      Val v = eval(n->a[0], e); if (v.k != Val::NUM) merr("no number");
      if (n->s == "~") { v.cls = mxLOGICAL_CLASS; v.str = false; for (double &x : v.d) x = x == 0; return {v}; }
      if (v.cls == mxLOGICAL_CLASS || v.cls == mxCHAR_CLASS) v.cls = mxDOUBLE_CLASS;
      if (n->s == "-") for (double &x : v.d) x = -x;
      return {v};
    }
    if (k == "bin") {
      if (n->s == "&&") { if (!truth(eval(n->a[0], e))) return {logical(false)}; return {logical(truth(eval(n->a[1], e)))}; }
      if (n->s == "||") { if (truth(eval(n->a[0], e))) return {logical(true)}; return {logical(truth(eval(n->a[1], e)))}; }
      Val a = eval(n->a[0], e), b = eval(n->a[1], e);
      return {binary(n->s, a, b)};
    }
    if (k == "range") {
      double a = scalar(eval(n->a[0], e)), s = scalar(eval(n->a[1], e)), b = scalar(eval(n->a[2], e));
      Val r = mat(1, 0); if (s == 0 || std::isnan(a + s + b)) return {r};
      // as MATLAB counts: from both ends, and never past the end
      double tol = 2 * 2.220446049250313e-16 * std::max(std::fabs(a), std::fabs(b)), sg = s > 0 ? 1 : -1, cnt;
      if (a == std::floor(a) && s == std::floor(s)) cnt = std::floor((b - a) / s); else { cnt = std::round((b - a) / s); if (sg * (a + cnt * s - b) > tol) cnt -= 1; }
      if (cnt > 1e6) unsup("a long range");
      if (cnt < 0) return {r};
      double last = a + cnt * s; if (sg * (last - b) > -tol) last = b;
      size_t k = size_t(cnt); r.d.assign(k + 1, 0.0);
      for (size_t c = 0; c <= k / 2; ++c) { r.d[c] = a + double(c) * s; r.d[k - c] = last - double(c) * s; }
      if (k % 2 == 0) r.d[k / 2] = (a + last) / 2;
      if (k == 0) r.d[0] = a;
      r.n = r.d.size(); return {r};
    }
    if (k == "mat") return {concat(n, e)};
    if (k == "cellmat") {
      Val r = cell(n->a.size(), n->a.empty() ? 0 : 0); std::vector<std::vector<Val>> rows;
      for (NP const &w : n->a) { std::vector<Val> q; for (NP const &x : w->a) for (Val const &v : multi(x, e, 1)) q.push_back(v); rows.push_back(q); }
      size_t c = rows.empty() ? 0 : rows[0].size(); r = cell(rows.size(), c);
      for (size_t i = 0; i < rows.size(); ++i) { if (rows[i].size() != c) merr("rows differ"); for (size_t j = 0; j < c; ++j) r.c[j * r.m + i] = rows[i][j]; }
      return {r};
    }
    if (k == "field" || k == "dynfield") return member(n, e, {}, nout, false);
    if (k == "brace") {
      Val v = eval(n->a[0], e); if (v.k != Val::CELL) merr("braces on what is no cell");
      Val r = index(v, std::vector<NP>(n->a.begin() + 1, n->a.end()), e);
      return r.c;
    }
    if (k == "call") {
      NP f = n->a[0];
      if (f->k == "id" && !e.count(f->s) && f->s.size() == 1 && f->s != "i" && f->s != "j") { if (e.count("?" + f->s)) merr("not enough input arguments"); std::vector<Val> a = arguments(n, 1, e); for (Val const &v : a) if (v.k == Val::OBJ) return call_fun(f->s, a, nout, &e); merr("no variable " + f->s); }
      if (f->k == "id" && !e.count(f->s)) return call_fun(f->s, arguments(n, 1, e), nout, &e);
      if (f->k == "field" || f->k == "dynfield") return member(f, e, std::vector<NP>(n->a.begin() + 1, n->a.end()), nout, true);
      if (f->k == "super") unsup("call of a super class");
      if (f->k == "id") { Val const &q = e.find(f->s)->second; if (q.k == Val::NUM || q.k == Val::CELL) return {index(q, std::vector<NP>(n->a.begin() + 1, n->a.end()), e)}; } // no copy
      Val v = eval(f, e);
      if (v.k == Val::FUN) return call_handle(v, arguments(n, 1, e), nout);
      return {index(v, std::vector<NP>(n->a.begin() + 1, n->a.end()), e)};
    }
    unsup("expression " + k);
  }
  std::vector<Val> member(NP const &f, Env &e, std::vector<NP> const &args, int nout, bool called) {
    std::string nm = f->k == "field" ? f->s : str(eval(f->a[1], e));
    Val b = eval(f->a[0], e);
    if (b.k == Val::OBJ) {
      auto q = b.o->props.find(nm);
      if (q != b.o->props.end()) { if (!b.o->live) merr("invalid or deleted object"); Val v = q->second; return {called ? index(v, args, e) : v}; }
      NP holder = mk("call", {f}); for (NP const &x : args) holder->a.push_back(x);
      return call_method(b, nm, arguments(holder, 1, e), nout);
    }
    if (b.k == Val::STRUCT) {
      auto q = b.s->find(nm); if (q == b.s->end()) merr("no field " + nm);
      if (called && q->second.k == Val::FUN) { NP holder = mk("call", {f}); for (NP const &x : args) holder->a.push_back(x); return call_handle(q->second, arguments(holder, 1, e), nout); }
      return {called ? index(q->second, args, e) : q->second};
    }
    merr("a field of what is no structure");
  }
  Val concat(NP const &n, Env &e) {
    std::vector<Val> rows;
    for (NP const &w : n->a) { std::vector<Val> q; for (NP const &x : w->a) for (Val const &v : multi(x, e, 1)) q.push_back(v); rows.push_back(hcat(q)); }
    return vcat(rows);
  }
  static mxClassID joined(std::vector<Val> const &q) {
    bool chr = false, all_log = true; mxClassID in = mxDOUBLE_CLASS; bool sgl = false, i = false;
    for (Val const &v : q) { if (v.cls == mxCHAR_CLASS) chr = true; if (v.cls != mxLOGICAL_CLASS) all_log = false; if (v.cls == mxSINGLE_CLASS) sgl = true; if (v.cls >= mxINT8_CLASS && !i) { in = v.cls; i = true; } }
    return chr ? mxCHAR_CLASS : i ? in : sgl ? mxSINGLE_CLASS : all_log && !q.empty() ? mxLOGICAL_CLASS : mxDOUBLE_CLASS;
  }
  static Val hcat(std::vector<Val> const &q) {
    bool cells = false; for (Val const &v : q) { cells = cells || v.k == Val::CELL; if (v.k == Val::OBJ || v.k == Val::STRUCT || v.k == Val::FUN) { if (q.size() == 1) return v; unsup("an array of objects"); } if (v.str) { if (q.size() == 1) return v; std::string s; for (Val const &w : q) s += str(w); unsup("an array of strings"); } }
    Val r; r.k = cells ? Val::CELL : Val::NUM; if (!cells) r.cls = joined(q); bool first = true;
    for (Val const &v0 : q) {
      Val v = v0; if (cells && v.k != Val::CELL) { if (v.d.empty()) continue; v = cell(1, 1); v.c[0] = v0; }
      if (v.m * v.n == 0 && (v.m == 0 || first || true)) { if (first && v.m == 0 && v.n == 0) continue; if (v.m * v.n == 0) continue; }
      if (first) { r.m = v.m; r.n = 0; first = false; }
      if (v.m != r.m) merr("the rows of what is joined differ");
      r.n += v.n; r.d.insert(r.d.end(), v.d.begin(), v.d.end()); r.c.insert(r.c.end(), v.c.begin(), v.c.end());
    }
    return r;
  }
  static Val vcat(std::vector<Val> const &q) {
    if (q.size() == 1) return q[0];
    std::vector<Val> w; for (Val const &v : q) { if (v.str || v.k == Val::OBJ || v.k == Val::STRUCT) unsup("an array of objects"); if (v.m * v.n) w.push_back(v); }
    Val r; if (w.empty()) return r;
    r.k = w[0].k; r.cls = w[0].k == Val::NUM ? joined(w) : mxDOUBLE_CLASS; r.n = w[0].n; r.m = 0;
    for (Val const &v : w) { if (v.n != r.n || v.k != r.k) merr("the columns of what is joined differ"); r.m += v.m; }
    for (size_t j = 0; j < r.n; ++j) for (Val const &v : w) for (size_t i = 0; i < v.m; ++i) { if (r.k == Val::CELL) r.c.push_back(v.c[j * v.m + i]); else r.d.push_back(v.d[j * v.m + i]); }
    return r;
  }
  static Val binary(std::string const &o, Val const &a, Val const &b) {
    if (a.k == Val::OBJ && b.k == Val::OBJ && (o == "==" || o == "~=")) return logical((a.o == b.o) == (o == "=="));
    if (a.k != Val::NUM || b.k != Val::NUM) { if (a.str || b.str) merr("no comparison with a string"); merr("operator " + o + " on what is no number"); }
    if (a.str || b.str) {
      if (!is_text(a) || !is_text(b)) unsup("a string and a number");
      if (o == "==") return logical(str(a) == str(b));
      if (o == "~=") return logical(str(a) != str(b));
      if (o == "+") return text(str(a) + str(b), true);
      merr("operator " + o + " on strings");
    }
    bool sa = a.d.size() == 1, sb = b.d.size() == 1;
    if (o == "*" && !sa && !sb) {
      if (a.n != b.m) merr("inner dimensions differ");
      Val r = mat(a.m, b.n); for (size_t i = 0; i < a.m; ++i) for (size_t j = 0; j < b.n; ++j) { double s = 0; for (size_t k = 0; k < a.n; ++k) s += a.d[k * a.m + i] * b.d[j * b.m + k]; r.d[j * a.m + i] = s; }
      return r;
    }
    if (o == "/" && !sb && a.n != b.n) merr("matrix dimensions must agree");
    if (((o == "/") && !sb) || ((o == "\\") && !sa) || (o == "^" && (!sa || !sb))) unsup("matrix " + o);
    auto f = [&](double x, double y) -> double {
      if (o == "+") return x + y;
      if (o == "-") return x - y;
      if (o == "*" || o == ".*") return x * y;
      if (o == "/" || o == "./") return x / y;
      if (o == "\\" || o == ".\\") return y / x;
      if (o == "^" || o == ".^") return std::pow(x, y);
      if (o == "==") return x == y;
      if (o == "~=") return x != y;
      if (o == "<") return x < y;
      if (o == ">") return x > y;
      if (o == "<=") return x <= y;
      if (o == ">=") return x >= y;
      if (o == "&") return x != 0 && y != 0;
      if (o == "|") return x != 0 || y != 0;
      unsup("operator " + o);
    };
    size_t m = a.m == b.m || b.m == 1 ? a.m : a.m == 1 ? b.m : size_t(-1), n = a.n == b.n || b.n == 1 ? a.n : a.n == 1 ? b.n : size_t(-1);
    if (m == size_t(-1) || n == size_t(-1)) merr("matrix dimensions must agree");
    Val r = mat(m, n);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) r.d[j * m + i] = f(a.d[(a.n == 1 ? 0 : j) * a.m + (a.m == 1 ? 0 : i)], b.d[(b.n == 1 ? 0 : j) * b.m + (b.m == 1 ? 0 : i)]);
    static const char *lg[] = {"==", "~=", "<", ">", "<=", ">=", "&", "|"};
    for (char const *q : lg) if (o == q) { r.cls = mxLOGICAL_CLASS; return r; }
    if (a.cls >= mxINT8_CLASS || b.cls >= mxINT8_CLASS) { r.cls = a.cls >= mxINT8_CLASS ? a.cls : b.cls; for (double &x : r.d) x = std::round(x); }
    else if (a.cls == mxSINGLE_CLASS || b.cls == mxSINGLE_CLASS) r.cls = mxSINGLE_CLASS;
    return r;
  }
  // ---- functions of MATLAB
  static std::string class_name(Val const &v) {
    if (v.k == Val::CELL) return "cell";
    if (v.k == Val::STRUCT) return "struct";
    if (v.k == Val::FUN) return "function_handle";
    if (v.k == Val::OBJ) return v.o->cls;
    if (v.str) return "string";
    static char const *nm[] = {"unknown", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"};
    return nm[v.cls];
  }
  std::vector<Val> builtin(std::string const &f, std::vector<Val> const &a, int nout) {
    auto need = [&](size_t lo, size_t hi) { if (a.size() < lo) merr("not enough input arguments for " + f); if (a.size() > hi) merr("too many input arguments for " + f); };
    auto dims = [&](size_t from, size_t &m, size_t &n) { m = n = 1; std::vector<double> v; for (size_t i = from; i < a.size(); ++i) { if (is_text(a[i])) break; for (double x : a[i].d) v.push_back(x); } if (v.size() == 1) m = n = size_t(std::max(0.0, v[0])); else if (v.size() == 2) { m = size_t(std::max(0.0, v[0])); n = size_t(std::max(0.0, v[1])); } else if (v.size() > 2) unsup("three dimensions"); };
    auto map = [&](double (*g)(double)) { need(1, 1); Val v = a[0]; if (v.k != Val::NUM) merr("no number"); if (v.cls == mxLOGICAL_CLASS || v.cls == mxCHAR_CLASS) v.cls = mxDOUBLE_CLASS; for (double &x : v.d) x = g(x); return std::vector<Val>{v}; };
    size_t m, n;
    if (f == "pi") return {num(M_PI)};
    if (f == "true") { dims(0, m, n); return {mat(m, n, 1, mxLOGICAL_CLASS)}; }
    if (f == "false") { dims(0, m, n); return {mat(m, n, 0, mxLOGICAL_CLASS)}; }
    if (f == "NaN" || f == "nan") { dims(0, m, n); return {mat(m, n, std::nan(""))}; }
    if (f == "Inf" || f == "inf") { dims(0, m, n); return {mat(m, n, INFINITY)}; }
    if (f == "eps") return {num(2.220446049250313e-16)};
    if (f == "zeros" || f == "ones") { dims(0, m, n); mxClassID c = mxDOUBLE_CLASS; if (!a.empty() && is_text(a.back())) { if (str(a.back()) != "double") unsup("zeros of a class"); } return {mat(m, n, f == "ones", c)}; }
    if (f == "eye") { dims(0, m, n); Val v = mat(m, n); for (size_t i = 0; i < std::min(m, n); ++i) v.d[i * m + i] = 1; return {v}; }
    if (f == "cell") { dims(0, m, n); return {cell(m, n)}; }
    if (f == "struct") { Val s; s.k = Val::STRUCT; s.m = s.n = 1; s.s = std::make_shared<Env>(); for (size_t i = 0; i + 1 < a.size(); i += 2) (*s.s)[str(a[i])] = a[i + 1]; return {s}; }
    if (f == "size") {
      need(1, 2); double r = double(a[0].k == Val::NUM && !a[0].str ? a[0].m : a[0].k == Val::CELL ? a[0].m : 1), c = double(a[0].k == Val::NUM && !a[0].str ? a[0].n : a[0].k == Val::CELL ? a[0].n : 1);
      if (a.size() == 2) { double d = scalar(a[1]); return {num(d == 1 ? r : d == 2 ? c : 1)}; }
      if (nout <= 1) { Val v = mat(1, 2); v.d = {r, c}; return {v}; }
      std::vector<Val> o{num(r), num(c)}; while (int(o.size()) < nout) o.push_back(num(1)); return o;
    }
    if (f == "numel" || f == "length" || f == "height" || f == "width" || f == "isempty" || f == "ndims") {
      need(1, 1); size_t r = a[0].str || a[0].k == Val::OBJ || a[0].k == Val::STRUCT || a[0].k == Val::FUN ? 1 : a[0].m, c = a[0].str || a[0].k == Val::OBJ || a[0].k == Val::STRUCT || a[0].k == Val::FUN ? 1 : a[0].n;
      if (f == "numel") return {num(double(r * c))};
      if (f == "length") return {num(double(r * c ? std::max(r, c) : 0))};
      if (f == "height") return {num(double(r))};
      if (f == "width") return {num(double(c))};
      if (f == "ndims") return {num(2)};
      return {logical(r * c == 0)};
    }
    if (f == "isscalar") { need(1, 1); return {logical(a[0].str || a[0].k == Val::OBJ || (a[0].m == 1 && a[0].n == 1))}; }
    if (f == "isvector") { need(1, 1); return {logical(a[0].m == 1 || a[0].n == 1)}; }
    if (f == "isrow") { need(1, 1); return {logical(a[0].m == 1)}; }
    if (f == "iscolumn") { need(1, 1); return {logical(a[0].n == 1)}; }
    if (f == "ismatrix") { need(1, 1); return {logical(true)}; }
    if (f == "issquare") { need(1, 1); return {logical(a[0].m == a[0].n)}; }
    if (f == "ischar") { need(1, 1); return {logical(is_text(a[0]) && !a[0].str)}; }
    if (f == "isstring") { need(1, 1); return {logical(is_text(a[0]) && a[0].str)}; }
    if (f == "isnumeric") { need(1, 1); return {logical(a[0].k == Val::NUM && a[0].cls >= mxDOUBLE_CLASS)}; }
    if (f == "isfloat") { need(1, 1); return {logical(a[0].k == Val::NUM && (a[0].cls == mxDOUBLE_CLASS || a[0].cls == mxSINGLE_CLASS))}; }
    if (f == "isinteger") { need(1, 1); return {logical(a[0].k == Val::NUM && a[0].cls >= mxINT8_CLASS)}; }
    if (f == "isreal") { need(1, 1); return {logical(a[0].k == Val::NUM)}; }
    if (f == "islogical") { need(1, 1); return {logical(a[0].k == Val::NUM && a[0].cls == mxLOGICAL_CLASS)}; }
    if (f == "iscell") { need(1, 1); return {logical(a[0].k == Val::CELL)}; }
    if (f == "isstruct") { need(1, 1); return {logical(a[0].k == Val::STRUCT)}; }
    if (f == "isobject") { need(1, 1); return {logical(a[0].k == Val::OBJ)}; }
    if (f == "class") { need(1, 1); return {text(class_name(a[0]))}; }
    if (f == "isa") { need(2, 2); std::string c = str(a[1]), k = class_name(a[0]); bool fl = k == "double" || k == "single", in = a[0].k == Val::NUM && a[0].cls >= mxINT8_CLASS; return {logical(k == c || (c == "float" && fl) || (c == "integer" && in) || (c == "numeric" && (fl || in)) || (a[0].k == Val::OBJ && (c == "handle" || is_a(k, c))))}; }
    if (f == "isvalid") { need(1, 1); return {logical(a[0].k == Val::OBJ && a[0].o->live)}; }
    if (f == "isprop") { need(2, 2); return {logical(a[0].k == Val::OBJ && a[0].o->props.count(str(a[1])))}; }
    if (f == "ismethod") { need(2, 2); return {logical(a[0].k == Val::OBJ && has_method(a[0], str(a[1])))}; }
    if (f == "isfield") { need(2, 2); return {logical(a[0].k == Val::STRUCT && a[0].s->count(str(a[1])))}; }
    if (f == "delete") { need(1, 1); return {}; }
    if (f == "isfile" || f == "exist") { if (a.empty()) merr("not enough inputs"); if (!is_text(a[0])) { if (f == "isfile") return {logical(false)}; merr("text expected"); } bool ok = bool(std::ifstream(str(a[0]))); return {f == "isfile" ? logical(ok) : num(ok ? 2 : 0)}; }
    if (f == "strcmp" || f == "strcmpi") { need(2, 2); if (!is_text(a[0]) || !is_text(a[1])) return {logical(false)}; std::string x = str(a[0]), y = str(a[1]); if (f == "strcmpi") { for (char &c : x) c = char(std::tolower(c)); for (char &c : y) c = char(std::tolower(c)); } return {logical(x == y)}; }
    if (f == "lower" || f == "upper") { need(1, 1); std::string s = str(a[0]); for (char &c : s) c = char(f == "lower" ? std::tolower(c) : std::toupper(c)); return {text(s, a[0].str)}; }
    if (f == "char") { need(1, 1); Val v = a[0]; if (v.k != Val::NUM) unsup("char"); v.cls = mxCHAR_CLASS; v.str = false; return {v}; }
    if (f == "string") { need(1, 1); if (!is_text(a[0])) unsup("string of a number"); return {text(str(a[0]), true)}; }
    if (f == "strtrim") { need(1, 1); std::string s = str(a[0]); while (!s.empty() && std::isspace((unsigned char)s.back())) s.pop_back(); while (!s.empty() && std::isspace((unsigned char)s[0])) s.erase(0, 1); return {text(s, a[0].str)}; }
    if (f == "endsWith" || f == "startsWith" || f == "contains") {
      need(2, 2); std::string s = str(a[0]); std::vector<Val> q = a[1].k == Val::CELL ? a[1].c : std::vector<Val>{a[1]}; bool r = false;
      for (Val const &v : q) { std::string w = str(v); r = r || (f == "contains" ? s.find(w) != std::string::npos : w.size() <= s.size() && (f == "endsWith" ? s.compare(s.size() - w.size(), w.size(), w) : s.compare(0, w.size(), w)) == 0); }
      return {logical(r)};
    }
    if (f == "ismember") { need(2, 2); if (is_text(a[0]) && a[1].k == Val::CELL) { bool r = false; for (Val const &v : a[1].c) r = r || (is_text(v) && str(v) == str(a[0])); return {logical(r)}; } if (a[0].k == Val::NUM && a[1].k == Val::NUM && !a[0].str) { Val v = a[0]; v.cls = mxLOGICAL_CLASS; for (double &x : v.d) { bool r = false; for (double y : a[1].d) r = r || x == y; x = r; } return {v}; } unsup("ismember"); }
    if (f == "fileparts") { need(1, 1); std::string s = str(a[0]), d, e; size_t q = s.find_last_of('/'); if (q != std::string::npos) { d = s.substr(0, q); s = s.substr(q + 1); } q = s.find_last_of('.'); if (q != std::string::npos) { e = s.substr(q); s = s.substr(0, q); } return {text(d), text(s), text(e)}; }
    if (f == "error") { std::string s = "error"; if (!a.empty() && is_text(a[0])) s = str(a[0]); if (!a.empty() && a[0].k == Val::STRUCT && a[0].s->count("message")) s = str((*a[0].s)["message"]); merr(s); }
    if (f == "rethrow") { need(1, 1); merr("again"); }
    if (f == "assert") { if (a.empty()) merr("not enough inputs"); if (!truth(a[0])) merr("assertion"); return {}; }
    if (f == "warning" || f == "fprintf" || f == "validateattributes" || f == "narginchk" || f == "nargoutchk") { if (f == "validateattributes" || f == "narginchk" || f == "nargoutchk") unsup(f); return {}; }
    if (f == "disp" || f == "display") { need(1, 1); drawn.push_back(Drawing{"disp", a}); return {}; }
    if (f == "num2str" || f == "int2str" || f == "mat2str") { if (a.empty()) merr("not enough inputs"); if (is_text(a[0])) return {a[0]}; std::ostringstream o; for (double x : a[0].d) o << x << ' '; std::string s = o.str(); if (!s.empty()) s.pop_back(); return {text(s)}; }
    if (f == "sprintf") { return {text("text")}; }
    if (f == "strcat") { std::string s; bool st = false; for (Val const &v : a) { s += str(v); st = st || v.str; } return {text(s, st)}; }
    if (f == "abs") return map([](double x) { return std::fabs(x); });
    if (f == "sqrt") return map([](double x) { return std::sqrt(x); });
    if (f == "sin") return map([](double x) { return std::sin(x); });
    if (f == "cos") return map([](double x) { return std::cos(x); });
    if (f == "tan") return map([](double x) { return std::tan(x); });
    if (f == "atan") return map([](double x) { return std::atan(x); });
    if (f == "floor") return map([](double x) { return std::floor(x); });
    if (f == "ceil") return map([](double x) { return std::ceil(x); });
    if (f == "round") return map([](double x) { return std::round(x); });
    if (f == "fix") return map([](double x) { return std::trunc(x); });
    if (f == "sign") return map([](double x) { return double((x > 0) - (x < 0)); });
    if (f == "double" || f == "single" || f == "int8" || f == "uint8" || f == "int16" || f == "uint16" || f == "int32" || f == "uint32" || f == "int64" || f == "uint64" || f == "logical") {
      need(1, 1); if (a[0].k != Val::NUM || a[0].str) unsup(f); Val v = a[0];
      static const std::map<std::string, mxClassID> c{{"double", mxDOUBLE_CLASS}, {"single", mxSINGLE_CLASS}, {"int8", mxINT8_CLASS}, {"uint8", mxUINT8_CLASS}, {"int16", mxINT16_CLASS}, {"uint16", mxUINT16_CLASS}, {"int32", mxINT32_CLASS}, {"uint32", mxUINT32_CLASS}, {"int64", mxINT64_CLASS}, {"uint64", mxUINT64_CLASS}, {"logical", mxLOGICAL_CLASS}};
      static const std::map<mxClassID, std::pair<double, double>> lim{{mxINT8_CLASS, {-128, 127}}, {mxUINT8_CLASS, {0, 255}}, {mxINT16_CLASS, {-32768, 32767}}, {mxUINT16_CLASS, {0, 65535}}, {mxINT32_CLASS, {-2147483648.0, 2147483647.0}}, {mxUINT32_CLASS, {0, 4294967295.0}}, {mxINT64_CLASS, {-9.2e18, 9.2e18}}, {mxUINT64_CLASS, {0, 1.8e19}}};
      v.cls = c.at(f); auto l = lim.find(v.cls);
      for (double &x : v.d) { if (l != lim.end()) x = std::isnan(x) ? 0 : std::min(std::max(std::round(x), l->second.first), l->second.second); if (f == "single") x = double(float(x)); if (f == "logical") { if (std::isnan(x)) merr("NaN is no logical"); x = x != 0; } }
      return {v};
    }
    if (f == "isnan" || f == "isinf" || f == "isfinite") { need(1, 1); if (a[0].k != Val::NUM) merr("no number"); Val v = a[0]; v.cls = mxLOGICAL_CLASS; for (double &x : v.d) x = f == "isnan" ? std::isnan(x) : f == "isinf" ? std::isinf(x) : std::isfinite(x); return {v}; }
    if (f == "any" || f == "all" || f == "sum" || f == "prod" || ((f == "max" || f == "min") && a.size() == 1)) {
      need(1, 1); Val const &v = a[0]; if (v.k != Val::NUM) merr("no number");
      auto red = [&](std::vector<double> const &x) { double r = f == "any" ? 0 : f == "all" ? 1 : f == "sum" ? 0 : f == "prod" ? 1 : x.empty() ? std::nan("") : x[0]; for (double y : x) r = f == "any" ? (r != 0 || y != 0) : f == "all" ? (r != 0 && y != 0) : f == "sum" ? r + y : f == "prod" ? r * y : f == "max" ? std::max(r, y) : std::min(r, y); return r; };
      mxClassID c = f == "any" || f == "all" ? mxLOGICAL_CLASS : mxDOUBLE_CLASS;
      if (v.m == 1 || v.n == 1 || v.d.empty()) return {num(red(v.d), c)};
      Val r = mat(1, v.n, 0, c); for (size_t j = 0; j < v.n; ++j) r.d[j] = red(std::vector<double>(v.d.begin() + long(j * v.m), v.d.begin() + long((j + 1) * v.m))); return {r};
    }
    if ((f == "max" || f == "min") && a.size() == 2) { Val x = binary("<", a[0], a[1]), s = binary("+", a[0], a[1]); for (size_t i = 0; i < s.d.size(); ++i) { double p = a[0].d.size() == 1 ? a[0].d[0] : a[0].d[i], q = a[1].d.size() == 1 ? a[1].d[0] : a[1].d[i]; s.d[i] = f == "max" ? std::max(p, q) : std::min(p, q); } return {s}; }
    if (f == "mod" || f == "rem") { need(2, 2); double x = scalar(a[0]), y = scalar(a[1]); return {num(f == "mod" ? (y == 0 ? x : x - y * std::floor(x / y)) : std::fmod(x, y))}; }
    if (f == "not") { need(1, 1); Val v = a[0]; v.cls = mxLOGICAL_CLASS; for (double &x : v.d) x = x == 0; return {v}; }
    if (f == "and") { need(2, 2); return {binary("&", a[0], a[1])}; }
    if (f == "or") { need(2, 2); return {binary("|", a[0], a[1])}; }
    if (f == "eq") { need(2, 2); return {binary("==", a[0], a[1])}; }
    if (f == "ne") { need(2, 2); return {binary("~=", a[0], a[1])}; }
    if (f == "isequal") { need(2, 2); Val const &x = a[0], &y = a[1]; if (x.k != y.k) return {logical(false)}; if (x.k != Val::NUM) unsup("isequal"); return {logical((x.str || y.str) ? is_text(x) && is_text(y) && str(x) == str(y) : x.m == y.m && x.n == y.n && x.d == y.d)}; }
    if (f == "norm") { need(1, 1); if (a[0].m != 1 && a[0].n != 1) unsup("norm"); double s = 0; for (double x : a[0].d) s += x * x; return {num(std::sqrt(s))}; }
    if (f == "reshape") { size_t q; need(2, 3); dims(1, m, q); Val v = a[0]; if (m * q != v.m * v.n) merr("reshape"); v.m = m; v.n = q; return {v}; }
    if (f == "horzcat") return {hcat(a)};
    if (f == "vertcat") return {vcat(a)};
    if (f == "transpose" || f == "ctranspose") { need(1, 1); Val v = a[0]; if (v.k != Val::NUM) unsup(f); Val r = v; r.m = v.n; r.n = v.m; for (size_t i = 0; i < v.m; ++i) for (size_t j = 0; j < v.n; ++j) r.d[i * r.m + j] = v.d[j * v.m + i]; return {r}; }
    if (f == "linspace") { double x = scalar(a.at(0)), y = scalar(a.at(1)); int k = a.size() > 2 ? int(scalar(a[2])) : 100; Val v = mat(1, size_t(k)); for (int i = 0; i < k; ++i) v.d[size_t(i)] = x + (y - x) * i / (k - 1); return {v}; }
    if (f == "repmat") { size_t q; dims(1, m, q); std::vector<Val> row(q, a.at(0)); Val h = hcat(row); std::vector<Val> col(m, h); return {vcat(col)}; }
    if (f == "feval") { if (a.empty()) merr("not enough inputs"); std::vector<Val> r(a.begin() + 1, a.end()); return a[0].k == Val::FUN ? call_handle(a[0], r, nout) : call_fun(str(a[0]), r, nout, nullptr); }
    if (f == "arrayfun" || f == "cellfun") {
      std::vector<Val> q = a; bool uniform = true;
      while (q.size() >= 4 && is_text(q[q.size() - 2]) && str(q[q.size() - 2]) == "UniformOutput") { uniform = truth(q.back()); q.pop_back(); q.pop_back(); }
      if (q.size() < 2 || q[0].k != Val::FUN) unsup(f);
      size_t k = q[1].m * q[1].n; Val c = cell(q[1].m, q[1].n), u = mat(q[1].m, q[1].n);
      for (size_t i = 0; i < k; ++i) {
        std::vector<Val> in; for (size_t j = 1; j < q.size(); ++j) { if (q[j].m * q[j].n != k) merr("sizes differ"); in.push_back(f == "cellfun" ? q[j].c.at(i) : num(q[j].d[i], q[j].cls)); }
        std::vector<Val> r = call_handle(q[0], in, nout > 0 ? 1 : 0); if (nout == 0 && r.empty()) continue;
        if (r.empty()) merr("no output");
        if (uniform) { u.d[i] = scalar(r[0]); u.cls = r[0].cls; } else c.c[i] = r[0];
      }
      return {uniform ? u : c};
    }
    if (f == "cylinder") { // the radii along the axis, as MATLAB gives them
      if (a.empty()) unsup(f); Val r = a[0]; size_t k = r.d.size() == 1 ? 2 : r.d.size(), q = a.size() > 1 ? size_t(scalar(a[1])) : 20;
      Val X = mat(k, q + 1), Y = X, Z = X;
      for (size_t i = 0; i < k; ++i) for (size_t j = 0; j <= q; ++j) { double w = 2 * M_PI * double(j) / double(q), s = r.d[r.d.size() == 1 ? 0 : i]; X.d[j * k + i] = s * std::cos(w); Y.d[j * k + i] = s * (j == q ? 0 : std::sin(w)); Z.d[j * k + i] = k > 1 ? double(i) / double(k - 1) : 0; }
      return {X, Y, Z};
    }
    static const char *draw[] = {"hold", "plot", "plot3", "xlim", "ylim", "zlim", "axis", "grid", "patch", "quiver3", "surf", "mesh", "fill3", "trisurf", "trimesh", "figure", "xlabel", "ylabel", "zlabel", "title", "view", "set", "line", "drawnow", "legend", "subplot", "colormap", "box", "camlight", "lighting", "shading", "gca", "gcf"};
    for (char const *q : draw) if (f == q) { drawn.push_back(Drawing{f, a}); Val s; s.k = Val::STRUCT; s.m = s.n = 1; s.s = std::make_shared<Env>(); return {s}; }
    if (f == "tic" || f == "toc" || f == "clc" || f == "pause") return {num(0)};
    unsup("function " + f);
  }
};
} // namespace ml
