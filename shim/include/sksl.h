// A small interpreter of Skia's shading language: enough of it to run mesh
// shaders on the CPU, in single precision, the way a desktop GPU would.
#ifndef VERIF_SKSL_H_
#define VERIF_SKSL_H_

#include <cctype>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace sksl {

// The program is wrong: a compiler of the language would refuse it.
struct Bad : std::runtime_error { using std::runtime_error::runtime_error; };
// The program uses something this interpreter does not know.
struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

enum Base : uint8_t { kVoid, kBool, kInt, kHalf, kFloat, kMat, kStruct };
struct Type {
  Base b = kVoid;
  int n = 1;         // components of a vector, columns of a (square) matrix
  int sid = -1;      // which struct
  bool literal = false;
  friend bool operator==(const Type& x, const Type& y) { return x.b == y.b && x.n == y.n && x.sid == y.sid; }
};
inline std::string Name(const Type& t) {
  static const char* names[] = {"void", "bool", "int", "half", "float", "mat", "struct"};
  return names[t.b] + (t.n > 1 ? std::to_string(t.n) : std::string());
}

struct Val {
  float f[4] = {0, 0, 0, 0};
};

struct Field { std::string name; Type type; };
struct StructDef { std::string name; std::vector<Field> fields; };

struct Func;
enum Op : uint8_t { oConst, oVar, oSwizzle, oIndex, oUnary, oBinary, oAssign, oCall, oIntrinsic, oCtor, oCond, oIncDec, oComma };

struct Expr {
  Op op = oConst;
  Type t;
  std::vector<std::unique_ptr<Expr>> a;
  Val c;
  int slot = -1;
  bool global = false, writable = false;
  int sw[4] = {0, 0, 0, 0}, nsw = 0;
  int o = 0;              // operator or intrinsic
  bool prefix = false;
  int col = -1;
  Func* fn = nullptr;
};
using E = std::unique_ptr<Expr>;

enum SKind : uint8_t { sExpr, sDecl, sIf, sFor, sReturn, sBlock, sBreak, sContinue, sEmpty, sDoWhile };
struct Stmt {
  SKind k = sEmpty;
  E e, e2;
  int slot = -1, slots = 1;
  std::vector<std::unique_ptr<Stmt>> body;  // If: then, else. For: init, body. Block: all
};
using S = std::unique_ptr<Stmt>;

struct Param { Type type; int slot = -1; bool in = true, out = false, konst = false; std::string name; };
struct Func {
  std::string name;
  Type ret;
  std::vector<Param> params;
  int nslots = 0;
  S body;
  bool used = false;
};
struct Uniform { std::string name; Type type; int slot; bool color = false; };

enum Intr : int {
  iDot = 1, iAtan, iSqrt, iRadians, iDegrees, iCos, iSin, iTan, iAbs, iMax, iMin, iLength, iMix, iSaturate, iFloor, iCeil, iFract, iSign, iStep,
  iClamp, iPow, iExp, iLog, iExp2, iLog2, iMod, iSmoothstep, iNormalize, iDistance, iAsin, iAcos, iInvSqrt, iTrunc, iRound, iAny, iAll, iNot,
  iLess, iLessEq, iGreater, iGreaterEq, iEqual, iNotEqual, iDeterminant, iCross, iInverse, iTranspose,
};

inline int IntrinsicId(const std::string& s) {
  static const std::map<std::string, int> m = {
      {"dot", iDot}, {"atan", iAtan}, {"sqrt", iSqrt}, {"radians", iRadians}, {"degrees", iDegrees}, {"cos", iCos}, {"sin", iSin}, {"tan", iTan},
      {"abs", iAbs}, {"max", iMax}, {"min", iMin}, {"length", iLength}, {"mix", iMix}, {"saturate", iSaturate}, {"floor", iFloor}, {"ceil", iCeil},
      {"fract", iFract}, {"sign", iSign}, {"step", iStep}, {"clamp", iClamp}, {"pow", iPow}, {"exp", iExp}, {"log", iLog}, {"exp2", iExp2},
      {"log2", iLog2}, {"mod", iMod}, {"smoothstep", iSmoothstep}, {"normalize", iNormalize}, {"distance", iDistance}, {"asin", iAsin},
      {"acos", iAcos}, {"inversesqrt", iInvSqrt}, {"trunc", iTrunc}, {"round", iRound}, {"any", iAny}, {"all", iAll}, {"not", iNot},
      {"lessThan", iLess}, {"lessThanEqual", iLessEq}, {"greaterThan", iGreater}, {"greaterThanEqual", iGreaterEq}, {"equal", iEqual},
      {"notEqual", iNotEqual}, {"determinant", iDeterminant}, {"cross", iCross}, {"inverse", iInverse}, {"transpose", iTranspose}};
  auto it = m.find(s);
  return it == m.end() ? 0 : it->second;
}

class Program {
 public:
  // `structs` are the types that the host declares.
  Program(std::string text, std::vector<StructDef> structs) : structs_(std::move(structs)) {
    Lex(text);
    while (!At("")) TopLevel();
  }
  const std::vector<Uniform>& uniforms() const { return uniforms_; }
  const Func* Find(const std::string& name) const {
    const Func* r = nullptr;
    for (const auto& f : funcs_)
      if (f->name == name) r = f.get();
    return r;
  }
  const std::vector<StructDef>& structs() const { return structs_; }
  int StructId(const std::string& n) const {
    for (size_t i = 0; i < structs_.size(); ++i)
      if (structs_[i].name == n) return i;
    return -1;
  }
  // Members of the struct that are not written on any path are left as NaN.
  struct Run {
    std::vector<Val> globals;
    uint64_t steps = 0;
  };
  Run Start() const {
    Run r;
    r.globals.assign(nglobals_, Val());
    for (const auto& [slot, e] : global_init_) r.globals[slot] = const_cast<Program*>(this)->Eval(*e, nullptr, r);
    return r;
  }
  // Runs a function whose slots for parameters hold `frame`; returns its result.
  std::vector<Val> Call(const Func& f, std::vector<Val>& frame, Run& r) const {
    frame.resize(f.nslots + 4);
    std::vector<Val> ret(8);
    const_cast<Program*>(this)->Exec(*f.body, frame.data(), r, ret.data());
    return ret;
  }

 private:
  struct Tok { std::string s; char kind; };  // kind: i(dentifier) n(umber) p(unctuation)
  std::vector<Tok> toks_;
  size_t p_ = 0;
  std::vector<StructDef> structs_;
  std::vector<std::unique_ptr<Func>> funcs_;
  std::vector<Uniform> uniforms_;
  std::vector<std::pair<int, E>> global_init_;
  int nglobals_ = 0;
  struct Var { std::string name; Type type; int slot; bool global, writable; };
  std::vector<std::vector<Var>> scopes_{1};
  int next_slot_ = 0, max_slot_ = 0;
  Func* cur_ = nullptr;

  void Lex(const std::string& t) {
    size_t i = 0;
    while (i < t.size()) {
      char ch = t[i];
      if (isspace(static_cast<unsigned char>(ch))) { ++i; continue; }
      if (t.compare(i, 2, "//") == 0) { while (i < t.size() && t[i] != '\n') ++i; continue; }
      if (t.compare(i, 2, "/*") == 0) {
        size_t e = t.find("*/", i + 2);
        if (e == std::string::npos) throw Bad("unterminated comment");
        i = e + 2;
        continue;
      }
      if (isalpha(static_cast<unsigned char>(ch)) || ch == '_') {
        size_t j = i;
        while (j < t.size() && (isalnum(static_cast<unsigned char>(t[j])) || t[j] == '_')) ++j;
        toks_.push_back({t.substr(i, j - i), 'i'});
        i = j;
        continue;
      }
      if (isdigit(static_cast<unsigned char>(ch)) || (ch == '.' && i + 1 < t.size() && isdigit(static_cast<unsigned char>(t[i + 1])))) {
        size_t j = i;
        while (j < t.size() && (isalnum(static_cast<unsigned char>(t[j])) || t[j] == '.' || ((t[j] == '+' || t[j] == '-') && (t[j - 1] == 'e' || t[j - 1] == 'E')))) ++j;
        toks_.push_back({t.substr(i, j - i), 'n'});
        i = j;
        continue;
      }
      static const char* two[] = {"==", "!=", "<=", ">=", "&&", "||", "^^", "+=", "-=", "*=", "/=", "++", "--", "%=", "<<", ">>"};
      std::string s(1, ch);
      for (const char* w : two)
        if (t.compare(i, 2, w) == 0) s = w;
      if (std::string("+-*/%<>=!&|^~?:;,.(){}[]#").find(ch) == std::string::npos) throw Bad(std::string("unexpected character ") + ch);
      toks_.push_back({s, 'p'});
      i += s.size();
    }
    toks_.push_back({"", 'e'});
  }
  const Tok& Cur() const { return toks_[p_]; }
  bool At(const char* s) const { return Cur().s == s && (Cur().kind != 'n'); }
  bool Accept(const char* s) {
    if (!At(s)) return false;
    ++p_;
    return true;
  }
  void Expect(const char* s) {
    if (!Accept(s)) throw Bad(std::string("expected '") + s + "' instead of '" + Cur().s + "'");
  }
  std::string Ident() {
    if (Cur().kind != 'i') throw Bad("expected a name instead of '" + Cur().s + "'");
    return toks_[p_++].s;
  }
  bool TypeName(const std::string& s, Type& t) const {
    static const std::map<std::string, Type> m = [] {
      std::map<std::string, Type> r;
      r["void"] = {kVoid, 1};
      r["bool"] = {kBool, 1}; r["int"] = {kInt, 1}; r["float"] = {kFloat, 1}; r["half"] = {kHalf, 1};
      for (int n = 2; n <= 4; ++n) {
        std::string k = std::to_string(n);
        r["bool" + k] = {kBool, n}; r["bvec" + k] = {kBool, n};
        r["int" + k] = {kInt, n}; r["ivec" + k] = {kInt, n};
        r["float" + k] = {kFloat, n}; r["vec" + k] = {kFloat, n};
        r["half" + k] = {kHalf, n};
      }
      r["mat2"] = {kMat, 2}; r["float2x2"] = {kMat, 2}; r["half2x2"] = {kMat, 2};
      return r;
    }();
    auto it = m.find(s);
    if (it != m.end()) { t = it->second; return true; }
    int id = StructId(s);
    if (id >= 0) { t = {kStruct, 1, id}; return true; }
    for (const char* u : {"mat3", "mat4", "float3x3", "float4x4", "half3x3", "half4x4", "uint", "short", "ushort", "shader", "colorFilter", "blender", "uint2", "uint3", "uint4", "short2", "short3", "short4"})
      if (s == u) throw Unsupported("type " + s);
    return false;
  }
  int SlotsOf(const Type& t) const { return t.b == kStruct ? structs_[t.sid].fields.size() : 1; }
  const Var* Lookup(const std::string& n) const {
    for (int i = static_cast<int>(scopes_.size()) - 1; i >= 0; --i)
      for (int j = static_cast<int>(scopes_[i].size()) - 1; j >= 0; --j)
        if (scopes_[i][j].name == n) return &scopes_[i][j];
    return nullptr;
  }
  const Var& Declare(const std::string& n, const Type& t, bool writable) {
    for (const Var& v : scopes_.back())
      if (v.name == n) throw Bad("'" + n + "' is declared twice");
    bool global = scopes_.size() == 1;
    int slot;
    if (global) {
      slot = nglobals_;
      nglobals_ += SlotsOf(t);
    } else {
      slot = next_slot_;
      next_slot_ += SlotsOf(t);
      max_slot_ = std::max(max_slot_, next_slot_);
    }
    scopes_.back().push_back({n, t, slot, global, writable});
    return scopes_.back().back();
  }

  void TopLevel() {
    if (Accept(";")) return;
    if (At("#")) throw Unsupported("preprocessor");
    bool color = false;
    if (Accept("layout")) {
      Expect("(");
      while (!Accept(")")) {
        if (At("")) throw Bad("unterminated layout");
        if (At("color")) color = true;
        ++p_;
      }
    }
    if (Accept("uniform")) {
      Type t;
      if (!TypeName(Ident(), t)) throw Bad("unknown type of a uniform");
      do {
        std::string n = Ident();
        const Var& v = Declare(n, t, false);
        uniforms_.push_back({n, t, v.slot, color});
      } while (Accept(","));
      Expect(";");
      return;
    }
    if (At("struct")) throw Unsupported("struct");
    bool konst = false;
    while (At("const") || At("inline") || At("noinline") || At("highp") || At("mediump") || At("lowp")) {
      konst |= At("const");
      ++p_;
    }
    Type t;
    std::string tn = Ident();
    if (!TypeName(tn, t)) throw Bad("unknown type '" + tn + "'");
    std::string n = Ident();
    if (At("[")) throw Unsupported("array");
    if (!At("(")) {
      if (!konst) throw Bad("global variable '" + n + "'");
      Expect("=");
      E e = Coerce(Assignment(), t);
      const Var& v = Declare(n, t, false);
      global_init_.push_back({v.slot, std::move(e)});
      Expect(";");
      return;
    }
    Expect("(");
    auto f = std::make_unique<Func>();
    f->name = n;
    f->ret = t;
    scopes_.emplace_back();
    next_slot_ = max_slot_ = 0;
    if (!Accept(")")) {
      if (At("void") && toks_[p_ + 1].s == ")") {
        p_ += 2;
      } else {
        do {
          Param q;
          for (;;) {
            if (Accept("const")) q.konst = true;
            else if (Accept("in")) q.in = true;
            else if (Accept("out")) { q.out = true; q.in = false; }
            else if (Accept("inout")) q.out = q.in = true;
            else if (Accept("highp") || Accept("mediump") || Accept("lowp")) {}
            else break;
          }
          std::string ptn = Ident();
          if (!TypeName(ptn, q.type) || q.type.b == kVoid) throw Bad("unknown type '" + ptn + "'");
          q.name = Ident();
          if (At("[")) throw Unsupported("array");
          q.slot = Declare(q.name, q.type, !q.konst).slot;
          f->params.push_back(q);
        } while (Accept(","));
        Expect(")");
      }
    }
    Func* target = nullptr;
    for (auto& g : funcs_) {
      if (g->name != n || g->params.size() != f->params.size()) continue;
      bool same = true;
      for (size_t i = 0; i < g->params.size(); ++i) same &= g->params[i].type == f->params[i].type;
      if (!same) continue;
      if (g->body) throw Bad("function '" + n + "' is defined twice");
      target = g.get();
    }
    if (target == nullptr) {
      funcs_.push_back(std::move(f));
      target = funcs_.back().get();
    } else {
      target->params = f->params;
    }
    if (Accept(";")) {
      scopes_.pop_back();
      return;
    }
    cur_ = target;
    Expect("{");
    target->body = BlockBody();
    target->nslots = max_slot_;
    scopes_.pop_back();
    cur_ = nullptr;
  }

  S BlockBody() {
    auto s = std::make_unique<Stmt>();
    s->k = sBlock;
    scopes_.emplace_back();
    while (!Accept("}")) {
      if (At("")) throw Bad("unterminated block");
      s->body.push_back(Statement());
    }
    scopes_.pop_back();
    return s;
  }
  S Declaration() {
    bool konst = false;
    while (At("const") || At("highp") || At("mediump") || At("lowp")) {
      konst |= At("const");
      ++p_;
    }
    Type t;
    std::string tn = Ident();
    if (!TypeName(tn, t) || t.b == kVoid) throw Bad("unknown type '" + tn + "'");
    auto blk = std::make_unique<Stmt>();
    blk->k = sBlock;
    do {
      std::string n = Ident();
      if (At("[")) throw Unsupported("array");
      auto s = std::make_unique<Stmt>();
      s->k = sDecl;
      if (Accept("=")) {
        if (t.b == kStruct) throw Unsupported("initialized struct");
        s->e = Coerce(Assignment(), t);
      } else if (konst) {
        throw Bad("constant without a value");
      }
      s->slot = Declare(n, t, !konst).slot;
      s->slots = SlotsOf(t);
      blk->body.push_back(std::move(s));
    } while (Accept(","));
    Expect(";");
    return blk;
  }
  bool AtDeclaration() {
    if (At("const") || At("highp") || At("mediump") || At("lowp")) return true;
    Type t;
    return Cur().kind == 'i' && toks_[p_ + 1].kind == 'i' && TypeName(Cur().s, t);
  }
  S Statement() {
    auto s = std::make_unique<Stmt>();
    if (Accept("{")) return BlockBody();
    if (Accept(";")) return s;
    if (Accept("if")) {
      s->k = sIf;
      Expect("(");
      s->e = Coerce(Expression(), {kBool, 1});
      Expect(")");
      scopes_.emplace_back();
      s->body.push_back(Statement());
      scopes_.pop_back();
      if (Accept("else")) {
        scopes_.emplace_back();
        s->body.push_back(Statement());
        scopes_.pop_back();
      }
      return s;
    }
    if (Accept("for")) {
      s->k = sFor;
      Expect("(");
      scopes_.emplace_back();
      if (Accept(";")) {
        s->body.push_back(std::make_unique<Stmt>());
      } else if (AtDeclaration()) {
        s->body.push_back(Declaration());
      } else {
        auto i = std::make_unique<Stmt>();
        i->k = sExpr;
        i->e = Expression();
        Expect(";");
        s->body.push_back(std::move(i));
      }
      if (!At(";")) s->e = Coerce(Expression(), {kBool, 1});
      Expect(";");
      if (!At(")")) s->e2 = Expression();
      Expect(")");
      s->body.push_back(Statement());
      scopes_.pop_back();
      return s;
    }
    if (Accept("while")) {
      s->k = sFor;
      Expect("(");
      s->e = Coerce(Expression(), {kBool, 1});
      Expect(")");
      s->body.push_back(std::make_unique<Stmt>());
      s->body.push_back(Statement());
      return s;
    }
    if (At("do") || At("switch")) throw Unsupported(Cur().s);
    if (At("discard")) throw Bad("discard");
    if (Accept("break")) { Expect(";"); s->k = sBreak; return s; }
    if (Accept("continue")) { Expect(";"); s->k = sContinue; return s; }
    if (Accept("return")) {
      s->k = sReturn;
      if (!At(";")) {
        E e = Expression();
        if (cur_->ret.b == kStruct) {
          if (!(e->t == cur_->ret) || e->op != oVar) throw Unsupported("returned struct");
          s->e = std::move(e);
        } else {
          s->e = Coerce(std::move(e), cur_->ret);
        }
      } else if (cur_->ret.b != kVoid) {
        throw Bad("return without a value");
      }
      Expect(";");
      return s;
    }
    if (AtDeclaration()) return Declaration();
    s->k = sExpr;
    s->e = Expression();
    Expect(";");
    return s;
  }

  // ------------------------------------------------------------ expressions
  static bool Scalar(const Type& t) { return t.n == 1 && t.b != kMat && t.b != kStruct && t.b != kVoid; }
  static bool Numeric(const Type& t) { return t.b == kInt || t.b == kHalf || t.b == kFloat; }
  static int Cost(const Type& from, const Type& to) {  // of the implicit conversion, -1 when there is none
    if (from == to) return 0;
    if (from.b == kStruct || to.b == kStruct || from.n != to.n || from.b == kMat || to.b == kMat) return -1;
    if (from.b == kHalf && to.b == kFloat) return 1;
    if (from.b == kFloat && to.b == kHalf) return from.literal ? 1 : 2;
    if (from.b == kInt && from.literal && (to.b == kFloat || to.b == kHalf)) return 3;
    return -1;
  }
  E Coerce(E e, const Type& t) {
    if (Cost(e->t, t) < 0) throw Bad("cannot turn " + Name(e->t) + " into " + Name(t));
    e->t = t;
    return e;
  }
  E Expression() {
    E e = Assignment();
    while (Accept(",")) {
      auto r = std::make_unique<Expr>();
      r->op = oComma;
      E g = Assignment();
      r->t = g->t;
      r->a.push_back(std::move(e));
      r->a.push_back(std::move(g));
      e = std::move(r);
    }
    return e;
  }
  bool IsLvalue(const Expr& e) const {
    if (e.op == oVar) return e.writable;
    if (e.op == oSwizzle) {
      for (int i = 0; i < e.nsw; ++i)
        for (int j = 0; j < i; ++j)
          if (e.sw[i] == e.sw[j]) return false;
      return IsLvalue(*e.a[0]);
    }
    if (e.op == oIndex) {
      if (e.col >= 0 || e.a[0]->op == oIndex) throw Unsupported("assigned matrix element");
      return IsLvalue(*e.a[0]);
    }
    return false;
  }
  E Assignment() {
    E l = Conditional();
    static const char* ops[] = {"=", "+=", "-=", "*=", "/=", "%="};
    for (const char* o : ops) {
      if (!Accept(o)) continue;
      E r = Assignment();
      if (!IsLvalue(*l)) throw Bad("assignment to something that cannot be assigned");
      auto x = std::make_unique<Expr>();
      x->op = oAssign;
      x->o = o[0] == '=' ? 0 : o[0];
      x->t = l->t;
      x->t.literal = false;
      if (x->o == 0) {
        if (l->t.b == kStruct) throw Unsupported("struct assignment");
        r = Coerce(std::move(r), l->t);
      } else {
        Type t = BinaryType(x->o, l->t, r->t);
        if (Cost(t, l->t) < 0) throw Bad("compound assignment changes the type");
      }
      x->a.push_back(std::move(l));
      x->a.push_back(std::move(r));
      return x;
    }
    return l;
  }
  E Conditional() {
    E c = Binary(0);
    if (!Accept("?")) return c;
    auto x = std::make_unique<Expr>();
    x->op = oCond;
    c = Coerce(std::move(c), {kBool, 1});
    E y = Assignment();
    Expect(":");
    E n = Assignment();
    Type t = y->t;
    if (Cost(n->t, y->t) < 0) {
      if (Cost(y->t, n->t) < 0) throw Bad("the branches of a conditional differ in type");
      t = n->t;
    }
    t.literal = false;
    x->t = t;
    x->a.push_back(std::move(c));
    x->a.push_back(std::move(y));
    x->a.push_back(std::move(n));
    return x;
  }
  enum { opEq = 1000, opNe, opLe, opGe, opAnd, opOr, opXor };
  static int BinOp(const std::string& s, int& prec) {
    static const std::map<std::string, std::pair<int, int>> m = {
        {"||", {opOr, 0}}, {"^^", {opXor, 1}}, {"&&", {opAnd, 2}}, {"==", {opEq, 3}}, {"!=", {opNe, 3}}, {"<", {'<', 4}},
        {">", {'>', 4}}, {"<=", {opLe, 4}}, {">=", {opGe, 4}}, {"+", {'+', 5}}, {"-", {'-', 5}}, {"*", {'*', 6}}, {"/", {'/', 6}}, {"%", {'%', 6}}};
    auto it = m.find(s);
    if (it == m.end()) return 0;
    prec = it->second.second;
    return it->second.first;
  }
  Type BinaryType(int o, const Type& l, const Type& r) const {
    if (l.b == kStruct || r.b == kStruct || l.b == kVoid || r.b == kVoid) throw Bad("operator on a struct");
    if (o == opAnd || o == opOr || o == opXor) {
      if (l.b != kBool || r.b != kBool || l.n != 1 || r.n != 1) throw Bad("logical operator on something else than bool");
      return {kBool, 1};
    }
    if (o == opEq || o == opNe) {
      if (!(l == r) && Cost(l, r) < 0 && Cost(r, l) < 0) throw Bad("comparison of different types");
      return {kBool, 1};
    }
    if (o == '<' || o == '>' || o == opLe || o == opGe) {
      if (!Numeric(l) || !Numeric(r) || l.n != 1 || r.n != 1) throw Bad("comparison of something else than scalars");
      if (Cost(l, r) < 0 && Cost(r, l) < 0) throw Bad("comparison of different types");
      return {kBool, 1};
    }
    if (l.b == kBool || r.b == kBool) throw Bad("arithmetic on bool");
    if (l.b == kMat || r.b == kMat) {
      if (l.b == kMat && r.b == kMat) {
        if (l.n != r.n) throw Bad("matrix sizes");
        return l;
      }
      const Type& m = l.b == kMat ? l : r;
      const Type& v = l.b == kMat ? r : l;
      if (v.b == kInt && !v.literal) throw Bad("matrix and int");
      if (v.n == 1) return m;
      if (o != '*' || v.n != m.n) throw Bad("matrix and vector");
      return {kFloat, v.n};
    }
    if (l.n != r.n && l.n != 1 && r.n != 1) throw Bad("vectors of different sizes");
    Type t;
    t.n = std::max(l.n, r.n);
    if (l.b == kInt && r.b == kInt) t.b = kInt;
    else {
      if ((l.b == kInt && !l.literal) || (r.b == kInt && !r.literal)) throw Bad("int with float");
      Base lb = l.b == kInt ? r.b : l.b, rb = r.b == kInt ? l.b : r.b;
      if (l.literal && !r.literal) t.b = rb;
      else if (r.literal && !l.literal) t.b = lb;
      else t.b = lb == kFloat || rb == kFloat ? kFloat : kHalf;
    }
    t.literal = l.literal && r.literal;
    return t;
  }
  E Binary(int prec) {
    E l = Unary();
    for (;;) {
      int p = -1, o = Cur().kind == 'p' ? BinOp(Cur().s, p) : 0;
      if (o == 0 || p < prec) {
        if (Cur().kind == 'p' && (At("&") || At("|") || At("^") || At("<<") || At(">>"))) throw Unsupported("bit operator");
        return l;
      }
      ++p_;
      E r = Binary(p + 1);
      auto x = std::make_unique<Expr>();
      x->op = oBinary;
      x->o = o;
      x->t = BinaryType(o, l->t, r->t);
      x->a.push_back(std::move(l));
      x->a.push_back(std::move(r));
      l = std::move(x);
    }
  }
  E Unary() {
    for (const char* o : {"-", "+", "!"}) {
      if (!Accept(o)) continue;
      E e = Unary();
      if (o[0] == '!' ? !(e->t.b == kBool && e->t.n == 1) : !(Numeric(e->t) || e->t.b == kMat)) throw Bad(std::string("operand of ") + o);
      auto x = std::make_unique<Expr>();
      x->op = oUnary;
      x->o = o[0];
      x->t = e->t;
      x->a.push_back(std::move(e));
      return x;
    }
    for (const char* o : {"++", "--"}) {
      if (!Accept(o)) continue;
      E e = Unary();
      if (!IsLvalue(*e)) throw Bad("increment");
      auto x = std::make_unique<Expr>();
      x->op = oIncDec;
      x->prefix = true;
      x->o = o[0];
      x->t = e->t;
      x->a.push_back(std::move(e));
      return x;
    }
    return Postfix();
  }
  E Postfix() {
    E e = Primary();
    for (;;) {
      if (Accept("[")) {
        E i = Expression();
        Expect("]");
        if (i->t.b != kInt || i->t.n != 1) throw Bad("index that is no int");
        auto x = std::make_unique<Expr>();
        x->op = oIndex;
        if (e->t.b == kMat) x->t = {kFloat, e->t.n};
        else if (e->t.n > 1 && e->t.b != kStruct) x->t = {e->t.b, 1};
        else throw Bad("index of a scalar");
        if (i->op == oConst && (i->c.f[0] < 0 || i->c.f[0] >= e->t.n)) throw Bad("index out of range");
        x->a.push_back(std::move(e));
        x->a.push_back(std::move(i));
        e = std::move(x);
        continue;
      }
      if (Accept(".")) {
        std::string n = Ident();
        if (e->t.b == kStruct) {
          if (e->op != oVar) throw Unsupported("struct expression");
          const auto& fs = structs_[e->t.sid].fields;
          bool found = false;
          for (size_t k = 0; k < fs.size(); ++k) {
            if (fs[k].name != n) continue;
            e->t = fs[k].type;
            e->slot += k;
            found = true;
            break;
          }
          if (!found) throw Bad("no member '" + n + "' in " + structs_[e->t.sid].name);
          continue;
        }
        if (e->t.b == kMat || e->t.b == kVoid) throw Bad("member of a matrix");
        auto x = std::make_unique<Expr>();
        x->op = oSwizzle;
        if (n.size() > 4) throw Bad("swizzle '" + n + "'");
        static const char* sets[] = {"xyzw", "rgba"};
        const char* set = nullptr;
        for (const char* q : sets)
          if (strchr(q, n[0]) != nullptr) set = q;
        if (set == nullptr) throw Unsupported("swizzle " + n);
        for (char ch : n) {
          const char* q = strchr(set, ch);
          if (q == nullptr) { if (ch == '0' || ch == '1') throw Unsupported("swizzle " + n); throw Bad("swizzle '" + n + "'"); }
          int k = q - set;
          if (k >= e->t.n) throw Bad("swizzle '" + n + "' of " + Name(e->t));
          x->sw[x->nsw++] = k;
        }
        x->t = {e->t.b, x->nsw};
        x->a.push_back(std::move(e));
        e = std::move(x);
        continue;
      }
      if (At("++") || At("--")) {
        char o = Cur().s[0];
        ++p_;
        if (!IsLvalue(*e)) throw Bad("increment");
        auto x = std::make_unique<Expr>();
        x->op = oIncDec;
        x->o = o;
        x->t = e->t;
        x->a.push_back(std::move(e));
        e = std::move(x);
        continue;
      }
      return e;
    }
  }
  E Primary() {
    if (Accept("(")) {
      E e = Expression();
      Expect(")");
      return e;
    }
    if (Cur().kind == 'n') {
      std::string s = toks_[p_++].s;
      auto x = std::make_unique<Expr>();
      bool hex = s.size() > 1 && (s[1] == 'x' || s[1] == 'X');
      bool fl = !hex && s.find_first_of(".eE") != std::string::npos;
      char* end = nullptr;
      if (fl) x->c.f[0] = strtof(s.c_str(), &end);
      else x->c.f[0] = static_cast<float>(strtol(s.c_str(), &end, 0));
      if (*end != 0 && !((*end == 'f' || *end == 'u') && end[1] == 0)) throw Bad("number '" + s + "'");
      x->t = {fl ? kFloat : kInt, 1, -1, true};
      return x;
    }
    if (At("true") || At("false")) {
      auto x = std::make_unique<Expr>();
      x->c.f[0] = At("true");
      ++p_;
      x->t = {kBool, 1};
      return x;
    }
    std::string n = Ident();
    Type t;
    if (At("(")) {
      ++p_;
      std::vector<E> args;
      if (!Accept(")")) {
        do args.push_back(Assignment());
        while (Accept(","));
        Expect(")");
      }
      if (TypeName(n, t)) return Ctor(t, std::move(args));
      return CallTo(n, std::move(args));
    }
    const Var* v = Lookup(n);
    if (v == nullptr) throw Bad("unknown name '" + n + "'");
    auto x = std::make_unique<Expr>();
    x->op = oVar;
    x->t = v->type;
    x->slot = v->slot;
    x->global = v->global;
    x->writable = v->writable;
    return x;
  }
  E Ctor(const Type& t, std::vector<E> args) {
    if (t.b == kVoid || t.b == kStruct) throw Bad("constructor of " + Name(t));
    auto x = std::make_unique<Expr>();
    x->op = oCtor;
    x->t = t;
    int want = t.b == kMat ? t.n * t.n : t.n, have = 0;
    for (const E& a : args) {
      if (a->t.b == kStruct || a->t.b == kVoid) throw Bad("constructor argument");
      have += a->t.b == kMat ? a->t.n * a->t.n : a->t.n;
    }
    if (args.empty()) throw Bad("constructor without arguments");
    bool ok = have == want || (args.size() == 1 && have == 1);
    if (!ok) throw Bad("constructor of " + Name(t) + " with " + std::to_string(have) + " components");
    x->a = std::move(args);
    return x;
  }
  E CallTo(const std::string& n, std::vector<E> args) {
    Func* best = nullptr;
    int bc = -1;
    bool any = false, tie = false;
    for (auto& f : funcs_) {
      if (f->name != n) continue;
      any = true;
      if (f->params.size() != args.size()) continue;
      int c = 0;
      for (size_t i = 0; i < args.size() && c >= 0; ++i) {
        int k = Cost(args[i]->t, f->params[i].type);
        c = k < 0 ? -1 : c + k;
      }
      if (c < 0) continue;
      if (best == nullptr || c < bc) { best = f.get(); bc = c; tie = false; }
      else if (c == bc) tie = true;
    }
    if (best != nullptr) {
      if (tie) throw Bad("ambiguous call of '" + n + "'");
      if (cur_ == best) throw Bad("recursion");
      auto x = std::make_unique<Expr>();
      x->op = oCall;
      x->fn = best;
      x->t = best->ret;
      for (size_t i = 0; i < args.size(); ++i) {
        if (best->params[i].type.b == kStruct) throw Unsupported("struct argument");
        if (best->params[i].out) {
          if (!IsLvalue(*args[i]) || !(args[i]->t == best->params[i].type)) throw Bad("out argument of '" + n + "'");
        } else {
          args[i] = Coerce(std::move(args[i]), best->params[i].type);
        }
      }
      x->a = std::move(args);
      return x;
    }
    if (any) throw Bad("no '" + n + "' takes these arguments");
    int id = IntrinsicId(n);
    if (id == 0) throw Bad("unknown function '" + n + "'");
    return Intrinsic(id, n, std::move(args));
  }
  E Intrinsic(int id, const std::string& n, std::vector<E> a) {
    auto x = std::make_unique<Expr>();
    x->op = oIntrinsic;
    x->o = id;
    auto need = [&](size_t k) {
      if (a.size() != k) throw Bad("arguments of " + n);
    };
    int w = 1;
    bool isfloat = false, isint = !a.empty();
    for (const E& e : a) {
      if (e->t.b == kStruct || e->t.b == kVoid) throw Bad("argument of " + n);
      w = std::max(w, e->t.n);
      isfloat |= e->t.b == kFloat && !e->t.literal;
      isint &= e->t.b == kInt && !e->t.literal;
      if (e->t.b == kInt && !e->t.literal && id != iAbs && id != iMin && id != iMax && id != iClamp && id != iSign && id != iLess && id != iLessEq &&
          id != iGreater && id != iGreaterEq && id != iEqual && id != iNotEqual)
        throw Bad("int argument of " + n);
    }
    bool ishalf = false;
    for (const E& e : a) ishalf |= e->t.b == kHalf;
    Base b = isint ? kInt : (isfloat || !ishalf) ? kFloat : kHalf;
    auto same = [&](size_t i, bool scalar_ok) {
      if (a[i]->t.n != w && !(scalar_ok && a[i]->t.n == 1)) throw Bad("sizes of the arguments of " + n);
      if (a[i]->t.b == kMat || a[i]->t.b == kBool) throw Bad("argument of " + n);
    };
    switch (id) {
      case iDot: case iDistance:
        need(2); same(0, false); same(1, false);
        x->t = {b, 1};
        break;
      case iLength:
        need(1); same(0, false);
        x->t = {b, 1};
        break;
      case iNormalize: case iSqrt: case iRadians: case iDegrees: case iCos: case iSin: case iTan: case iAbs: case iSaturate: case iFloor: case iCeil:
      case iFract: case iSign: case iExp: case iLog: case iExp2: case iLog2: case iAsin: case iAcos: case iInvSqrt: case iTrunc: case iRound:
        need(1); same(0, false);
        x->t = {b, w};
        break;
      case iAtan:
        if (a.size() != 1) need(2);
        for (size_t i = 0; i < a.size(); ++i) same(i, false);
        x->t = {b, w};
        break;
      case iMax: case iMin: case iMod:
        need(2); same(0, false); same(1, true);
        x->t = {b, w};
        break;
      case iPow:
        need(2); same(0, false); same(1, false);
        x->t = {b, w};
        break;
      case iStep:
        need(2); same(0, true); same(1, false);
        x->t = {b, w};
        break;
      case iMix:
        need(3); same(0, false); same(1, false);
        if (a[2]->t.b == kBool) { if (a[2]->t.n != w) throw Bad("arguments of mix"); }
        else same(2, true);
        x->t = {b, w};
        break;
      case iClamp:
        need(3); same(0, false); same(1, true); same(2, true);
        if (a[1]->t.n != a[2]->t.n) throw Bad("arguments of clamp");
        x->t = {b, w};
        break;
      case iSmoothstep:
        need(3); same(0, true); same(1, true); same(2, false);
        x->t = {b, w};
        break;
      case iAny: case iAll:
        need(1);
        if (a[0]->t.b != kBool) throw Bad("argument of " + n);
        x->t = {kBool, 1};
        break;
      case iNot:
        need(1);
        if (a[0]->t.b != kBool) throw Bad("argument of " + n);
        x->t = a[0]->t;
        break;
      case iLess: case iLessEq: case iGreater: case iGreaterEq: case iEqual: case iNotEqual:
        need(2);
        if (a[0]->t.n != a[1]->t.n || a[0]->t.n < 2) throw Bad("arguments of " + n);
        x->t = {kBool, w};
        break;
      case iDeterminant:
        need(1);
        if (a[0]->t.b != kMat) throw Bad("argument of " + n);
        x->t = {kFloat, 1};
        break;
      case iTranspose: case iInverse:
        need(1);
        if (a[0]->t.b != kMat) throw Bad("argument of " + n);
        x->t = a[0]->t;
        break;
      default:
        throw Unsupported(n);
    }
    x->a = std::move(a);
    return x;
  }

  // -------------------------------------------------------------- execution
  enum Flow { fNext, fBreak, fContinue, fReturn };
  static Val Uninit() {
    Val v;
    for (float& f : v.f) f = std::numeric_limits<float>::quiet_NaN();
    return v;
  }
  Flow Exec(const Stmt& s, Val* fr, Run& r, Val* ret) {
    if (++r.steps > 200000) throw Unsupported("endless loop");
    switch (s.k) {
      case sEmpty: return fNext;
      case sExpr: Eval(*s.e, fr, r); return fNext;
      case sDecl:
        if (s.e) fr[s.slot] = Eval(*s.e, fr, r);
        else
          for (int i = 0; i < s.slots; ++i) fr[s.slot + i] = Uninit();
        return fNext;
      case sIf:
        if (Eval(*s.e, fr, r).f[0] != 0) return Exec(*s.body[0], fr, r, ret);
        if (s.body.size() > 1) return Exec(*s.body[1], fr, r, ret);
        return fNext;
      case sFor: {
        Exec(*s.body[0], fr, r, ret);
        while (!s.e || Eval(*s.e, fr, r).f[0] != 0) {
          Flow f = Exec(*s.body[1], fr, r, ret);
          if (f == fBreak) break;
          if (f == fReturn) return f;
          if (s.e2) Eval(*s.e2, fr, r);
        }
        return fNext;
      }
      case sReturn:
        if (s.e) {
          if (s.e->t.b == kStruct) {
            for (int i = 0; i < SlotsOf(s.e->t); ++i) ret[i] = fr[s.e->slot + i];
          } else {
            ret[0] = Eval(*s.e, fr, r);
          }
        }
        return fReturn;
      case sBlock:
        for (const S& t : s.body) {
          Flow f = Exec(*t, fr, r, ret);
          if (f != fNext) return f;
        }
        return fNext;
      case sBreak: return fBreak;
      case sContinue: return fContinue;
      default: throw Unsupported("statement");
    }
  }
  Val& Slot(const Expr& e, Val* fr, Run& r) { return e.global ? r.globals[e.slot] : fr[e.slot]; }
  void Store(const Expr& e, const Val& v, Val* fr, Run& r) {
    if (e.op == oVar) {
      Slot(e, fr, r) = v;
      return;
    }
    Val t = Eval(*e.a[0], fr, r);
    if (e.op == oSwizzle) {
      for (int i = 0; i < e.nsw; ++i) t.f[e.sw[i]] = v.f[i];
    } else {
      int i = static_cast<int>(Eval(*e.a[1], fr, r).f[0]);
      if (e.a[0]->t.b == kMat) {
        for (int k = 0; k < 2; ++k) t.f[2 * (i & 1) + k] = v.f[k];
      } else {
        if (i < 0 || i >= e.a[0]->t.n) throw Bad("index out of range");
        t.f[i] = v.f[0];
      }
    }
    Store(*e.a[0], t, fr, r);
  }
  static float Arith(int o, float x, float y, bool integer) {
    switch (o) {
      case '+': return x + y;
      case '-': return x - y;
      case '*': return x * y;
      case '/': return integer ? (y == 0 ? 0 : std::trunc(x / y)) : x / y;
      case '%': return y == 0 ? 0 : std::fmod(x, y);
    }
    throw Unsupported("operator");
  }
  Val Binop(int o, const Type& lt, const Val& x, const Type& rt, const Val& y, const Type& t) {
    Val v;
    switch (o) {
      case opEq: case opNe: {
        bool eq = true;
        int n = lt.b == kMat ? 4 : lt.n;
        for (int i = 0; i < n; ++i) eq &= x.f[i] == y.f[i];
        v.f[0] = eq == (o == opEq);
        return v;
      }
      case '<': v.f[0] = x.f[0] < y.f[0]; return v;
      case '>': v.f[0] = x.f[0] > y.f[0]; return v;
      case opLe: v.f[0] = x.f[0] <= y.f[0]; return v;
      case opGe: v.f[0] = x.f[0] >= y.f[0]; return v;
      case opXor: v.f[0] = (x.f[0] != 0) != (y.f[0] != 0); return v;
    }
    bool lm = lt.b == kMat, rm = rt.b == kMat;
    if (o == '*' && lm && rm) {
      for (int c = 0; c < 2; ++c)
        for (int k = 0; k < 2; ++k) v.f[2 * c + k] = x.f[k] * y.f[2 * c] + x.f[2 + k] * y.f[2 * c + 1];
      return v;
    }
    if (o == '*' && lm && rt.n > 1) {
      for (int k = 0; k < 2; ++k) v.f[k] = x.f[k] * y.f[0] + x.f[2 + k] * y.f[1];
      return v;
    }
    if (o == '*' && rm && lt.n > 1) {
      for (int k = 0; k < 2; ++k) v.f[k] = x.f[0] * y.f[2 * k] + x.f[1] * y.f[2 * k + 1];
      return v;
    }
    int n = lm || rm ? 4 : t.n;
    bool li = !lm && lt.n == 1, ri = !rm && rt.n == 1;
    for (int i = 0; i < n; ++i) v.f[i] = Arith(o, x.f[li ? 0 : i], y.f[ri ? 0 : i], t.b == kInt);
    return v;
  }
  Val Eval(const Expr& e, Val* fr, Run& r) {
    if (++r.steps > 200000) throw Unsupported("endless loop");
    switch (e.op) {
      case oConst: return e.c;
      case oVar: return Slot(e, fr, r);
      case oComma: Eval(*e.a[0], fr, r); return Eval(*e.a[1], fr, r);
      case oSwizzle: {
        Val x = Eval(*e.a[0], fr, r), v;
        for (int i = 0; i < e.nsw; ++i) v.f[i] = x.f[e.sw[i]];
        return v;
      }
      case oIndex: {
        Val x = Eval(*e.a[0], fr, r), v;
        int i = static_cast<int>(Eval(*e.a[1], fr, r).f[0]);
        if (i < 0 || i >= e.a[0]->t.n) throw Bad("index out of range");
        if (e.a[0]->t.b == kMat) { v.f[0] = x.f[2 * i]; v.f[1] = x.f[2 * i + 1]; }
        else v.f[0] = x.f[i];
        return v;
      }
      case oUnary: {
        Val x = Eval(*e.a[0], fr, r);
        if (e.o == '-') for (float& f : x.f) f = -f;
        if (e.o == '!') x.f[0] = x.f[0] == 0;
        return x;
      }
      case oCond: return Eval(*e.a[0], fr, r).f[0] != 0 ? Eval(*e.a[1], fr, r) : Eval(*e.a[2], fr, r);
      case oBinary: {
        Val x = Eval(*e.a[0], fr, r);
        if (e.o == opAnd || e.o == opOr) {
          bool l = x.f[0] != 0;
          Val v;
          v.f[0] = l == (e.o == opOr) ? l : Eval(*e.a[1], fr, r).f[0] != 0;
          return v;
        }
        Val y = Eval(*e.a[1], fr, r);
        return Binop(e.o, e.a[0]->t, x, e.a[1]->t, y, e.t);
      }
      case oAssign: {
        Val y = Eval(*e.a[1], fr, r);
        if (e.o != 0) y = Binop(e.o, e.a[0]->t, Eval(*e.a[0], fr, r), e.a[1]->t, y, e.t);
        Store(*e.a[0], y, fr, r);
        return y;
      }
      case oIncDec: {
        Val x = Eval(*e.a[0], fr, r), y = x;
        for (int i = 0; i < e.t.n; ++i) y.f[i] += e.o == '+' ? 1 : -1;
        Store(*e.a[0], y, fr, r);
        return e.prefix ? y : x;
      }
      case oCtor: {
        Val v;
        if (e.a.size() == 1 && e.a[0]->t.n == 1 && e.a[0]->t.b != kMat) {
          Val x = Eval(*e.a[0], fr, r);
          if (e.t.b == kMat) { v.f[0] = v.f[3] = x.f[0]; return v; }
          for (int i = 0; i < e.t.n; ++i) v.f[i] = Conv(x.f[0], e.a[0]->t.b, e.t.b);
          return v;
        }
        int k = 0;
        for (const E& a : e.a) {
          Val x = Eval(*a, fr, r);
          int n = a->t.b == kMat ? 4 : a->t.n;
          for (int i = 0; i < n && k < 4; ++i) v.f[k++] = Conv(x.f[i], a->t.b, e.t.b);
        }
        return v;
      }
      case oCall: {
        std::vector<Val> f(e.fn->nslots + 1);
        for (size_t i = 0; i < e.a.size(); ++i) f[e.fn->params[i].slot] = e.fn->params[i].in ? Eval(*e.a[i], fr, r) : Uninit();
        Val ret[8];
        ret[0] = Uninit();
        if (!e.fn->body) throw Bad("'" + e.fn->name + "' has no body");
        Exec(*e.fn->body, f.data(), r, ret);
        for (size_t i = 0; i < e.a.size(); ++i)
          if (e.fn->params[i].out) Store(*e.a[i], f[e.fn->params[i].slot], fr, r);
        return ret[0];
      }
      case oIntrinsic: return EvalIntrinsic(e, fr, r);
    }
    throw Unsupported("expression");
  }
  static float Conv(float x, Base from, Base to) {
    if (to == kBool) return x != 0;
    if (to == kInt && from != kInt && from != kBool) return std::trunc(x);
    return x;
  }
  Val EvalIntrinsic(const Expr& e, Val* fr, Run& r) {
    Val a[3], v;
    bool sc[3] = {false, false, false};
    int w = 1;
    for (size_t i = 0; i < e.a.size() && i < 3; ++i) {
      a[i] = Eval(*e.a[i], fr, r);
      sc[i] = e.a[i]->t.n == 1;
      w = std::max(w, e.a[i]->t.n);
    }
    auto at = [&](int k, int i) { return a[k].f[sc[k] ? 0 : i]; };
    const float pi = 3.14159265358979f;
    switch (e.o) {
      case iDot: case iDistance: case iLength: {
        float s = 0;
        for (int i = 0; i < w; ++i) {
          float q = e.o == iDistance ? at(0, i) - at(1, i) : at(0, i);
          s += e.o == iDot ? at(0, i) * at(1, i) : q * q;
        }
        v.f[0] = e.o == iDot ? s : std::sqrt(s);
        return v;
      }
      case iNormalize: {
        float s = 0;
        for (int i = 0; i < w; ++i) s += at(0, i) * at(0, i);
        s = std::sqrt(s);
        for (int i = 0; i < w; ++i) v.f[i] = at(0, i) / s;
        return v;
      }
      case iAny: case iAll: {
        bool any = false, all = true;
        for (int i = 0; i < w; ++i) { any |= at(0, i) != 0; all &= at(0, i) != 0; }
        v.f[0] = e.o == iAny ? any : all;
        return v;
      }
      case iDeterminant: v.f[0] = a[0].f[0] * a[0].f[3] - a[0].f[2] * a[0].f[1]; return v;
      case iTranspose: v = a[0]; std::swap(v.f[1], v.f[2]); return v;
      case iInverse: {
        float d = a[0].f[0] * a[0].f[3] - a[0].f[2] * a[0].f[1];
        v.f[0] = a[0].f[3] / d; v.f[1] = -a[0].f[1] / d; v.f[2] = -a[0].f[2] / d; v.f[3] = a[0].f[0] / d;
        return v;
      }
    }
    for (int i = 0; i < w; ++i) {
      float x = at(0, i), y = e.a.size() > 1 ? at(1, i) : 0, z = e.a.size() > 2 ? at(2, i) : 0, q = 0;
      switch (e.o) {
        case iAtan: q = e.a.size() == 2 ? std::atan2(x, y) : std::atan(x); break;
        case iSqrt: q = std::sqrt(x); break;
        case iRadians: q = x * (pi / 180); break;
        case iDegrees: q = x * (180 / pi); break;
        case iCos: q = std::cos(x); break;
        case iSin: q = std::sin(x); break;
        case iTan: q = std::tan(x); break;
        case iAbs: q = std::fabs(x); break;
        case iMax: q = x < y ? y : x; break;
        case iMin: q = y < x ? y : x; break;
        case iMix: q = e.a[2]->t.b == kBool ? (z != 0 ? y : x) : x * (1 - z) + y * z; break;
        case iSaturate: q = std::min(std::max(x, 0.f), 1.f); break;
        case iFloor: q = std::floor(x); break;
        case iCeil: q = std::ceil(x); break;
        case iTrunc: q = std::trunc(x); break;
        case iRound: q = std::round(x); break;
        case iFract: q = x - std::floor(x); break;
        case iSign: q = x > 0 ? 1 : x < 0 ? -1 : 0; break;
        case iStep: q = y < x ? 0 : 1; break;
        case iClamp: q = std::min(std::max(x, y), z); break;
        case iPow: q = std::pow(x, y); break;
        case iExp: q = std::exp(x); break;
        case iLog: q = std::log(x); break;
        case iExp2: q = std::exp2(x); break;
        case iLog2: q = std::log2(x); break;
        case iMod: q = x - y * std::floor(x / y); break;
        case iSmoothstep: {
          float t = std::min(std::max((z - x) / (y - x), 0.f), 1.f);
          q = t * t * (3 - 2 * t);
          break;
        }
        case iAsin: q = std::asin(x); break;
        case iAcos: q = std::acos(x); break;
        case iInvSqrt: q = 1 / std::sqrt(x); break;
        case iNot: q = x == 0; break;
        case iLess: q = x < y; break;
        case iLessEq: q = x <= y; break;
        case iGreater: q = x > y; break;
        case iGreaterEq: q = x >= y; break;
        case iEqual: q = x == y; break;
        case iNotEqual: q = x != y; break;
        default: throw Unsupported("intrinsic");
      }
      v.f[i] = q;
    }
    return v;
  }
};

}  // namespace sksl

#endif  // VERIF_SKSL_H_
