// S05 (query histories), S06 (redefinition and loop-building), S07 (handles): operation histories on the
// real scalar API next to a model.
#include "scalar_common.hpp"
#include "hist.hpp"
namespace sh {
using namespace sc; using ref::Env; using ref::bin; using ref::un; using ref::num; using ref::var; using ref::par; using ref::R;
template <class T> static Expression& EX(const T& t) { return *new Expression(t); }
static LD SL(int order) { return order == 0 ? 4 : order == 1 ? 20 : 200; }
// derivative of formula r with respect to the list dv
static R deriv(const P& r, const Env& e, const std::vector<int>& dv) {
  switch (dv.size()) { case 0: return ref::value(r, e); case 1: return ref::d1(r, e, dv[0]); case 2: return ref::d2(r, e, dv[0], dv[1]); default: return ref::d3(r, e, dv[0], dv[1], dv[2]); }
}
static bool member(const std::vector<C>& a, const C& v) { for (auto& c : a) if (c == v) return true; return false; }

// ================= S05 =================
// A world: variables x,y, parameter p, named expressions sharing sub-expressions.
struct NE { Expression* e; P r; std::vector<int> below; std::vector<int> dv; std::string nm; bool custom = false; };
struct QW : hist::WorldBase {
  int shape; Variable x{T_(q(0.7L))}, y{T_(q(1.3L))}; Parameter p{T_(q(0.6L))};
  int vx = 0, vy = 0, vp = 0; std::vector<NE> es; 
  struct Sweep { bool any = false; std::vector<Env> envs; }; std::vector<Sweep> sw;  // admissible sweep points per expression
  std::vector<C> X{q(0.7L), q(-1.1L)}, Y{q(1.3L), q(0.4L)}, PV{q(0.6L), q(2.0L)};
  struct O { int k, e, v; }; std::vector<O> ops;
  Env env() const { return Env{{X[vx], Y[vy]}, {PV[vp]}}; }
  void add(const char* n, Expression& e, P r, std::vector<int> below, std::vector<int> dv = {}, bool custom = false) { es.push_back({&e, r, below, dv, n, custom}); sw.push_back({}); }
  QW(int s) : shape(s) {
    using namespace ref; P rx = var(0), ry = var(1), rp = par(0);
    P ra = bin(ADD, bin(MUL, rx, ry), rp); 
    switch (shape) {
      case 0: { auto& a = EX(x * y + p); add("A", a, ra, {}); auto& b = EX(sin(a) * x + a * a); P rb = bin(ADD, bin(MUL, un(ref::SIN, ra), rx), bin(MUL, ra, ra)); add("B", b, rb, {0}); auto& c = EX(a * b - y); add("C", c, bin(SUB, bin(MUL, ra, rb), ry), {0, 1}); break; }
      case 1: { auto& a = EX(x * y); P r1 = bin(MUL, rx, ry); add("A", a, r1, {}); auto& b = EX(a + x); P r2 = bin(ADD, r1, rx); add("B", b, r2, {0}); auto& c = EX(b * p); P r3 = bin(MUL, r2, rp); add("C", c, r3, {0, 1}); auto& d = EX(c / y); add("D", d, bin(DIV, r3, ry), {0, 1, 2}); break; }
      case 2: { auto& a = EX(x * x); P r1 = bin(MUL, rx, rx); add("A", a, r1, {}); auto& b = EX(a * p); P r2 = bin(MUL, r1, rp); add("B", b, r2, {0}); auto& c = EX(a + y); P r3 = bin(ADD, r1, ry); add("C", c, r3, {0}); auto& d = EX(b * c + a); add("D", d, bin(ADD, bin(MUL, r2, r3), r1), {0, 1, 2}); break; }
      case 3: { // loop-built expression and one using it
        auto& a = *new Expression(); a = x * y; a = a + x; a = sin(a) * y; P r1 = bin(MUL, un(ref::SIN, bin(ADD, bin(MUL, rx, ry), rx)), ry); add("L", a, r1, {}); auto& b = EX(a * p + a); add("B", b, bin(ADD, bin(MUL, r1, rp), r1), {0}); break; }
      case 4: { // an expression, its symbolic derivatives and an expression built from one of them
        auto& a = EX(sin(x * y) * p); P r1 = bin(MUL, un(ref::SIN, bin(MUL, rx, ry)), rp); add("A", a, r1, {}); auto& b = EX(a * a + x); P r2 = bin(ADD, bin(MUL, r1, r1), rx); add("B", b, r2, {0}); add("dB", S1::SymDiff(b, x), r2, {0}, {0}); add("dA", S1::SymDiff(a, y), r1, {}, {1}); break; }
      case 5: { // copies and aliases of named expressions
        auto& a = EX(exp(x) - y * p); P r1 = bin(SUB, un(ref::EXP, rx), bin(MUL, ry, rp)); add("A", a, r1, {}); auto& b = *new Expression(a); add("copyA", b, r1, {0}); auto& c = *new Expression(); c = a; add("asgA", c, r1, {0}); auto& d = EX(b * c); add("D", d, bin(MUL, r1, r1), {0, 1, 2}); break; }
      case 6: { // custom functions, y unused in A, p only
        auto& a = EX(SinS(x) + p); P r1 = bin(ADD, un(ref::SINS, rx), rp); add("A", a, r1, {}, {}, true); auto& b = EX(ProductS(a, y)); P r2 = bin(PRODS, r1, ry); add("B", b, r2, {0}, {}, true); auto& c = EX(pow(b, Type(2)) - CosS(a)); add("C", c, bin(SUB, bin(POW, r2, num(C(2))), un(ref::COSS, r1)), {0, 1}, {}, true); break; }
      case 7: { // the same sub-expression reached through unnamed and named paths
        auto& a = EX(-x); P r1 = un(ref::NEG, rx); add("A", a, r1, {}); auto& b = EX(pow(a * y, Type(2))); P r2 = bin(POW, bin(MUL, r1, ry), num(C(2))); add("B", b, r2, {0}); auto& c = EX((a / (y + p)) * (a - b)); P r3 = bin(MUL, bin(DIV, r1, bin(ADD, ry, rp)), bin(SUB, r1, r2)); add("C", c, r3, {0, 1}); break; }
    }
    bool th = fw::thorough();
    ops.push_back({0, 0, 0}); ops.push_back({0, 0, 1}); ops.push_back({0, 0, 2});
    // quick tier: every kind of query on every expression, with respect to x; thorough tier: x and y
    for (int e = 0; e < (int)es.size(); ++e) { ops.push_back({1, e, 0}); for (int v = 0; v < (th || e == 0 ? 2 : 1); ++v) ops.push_back({2, e, v}); ops.push_back({3, e, 0}); ops.push_back({4, e, (e + shape) & 1}); if (th) ops.push_back({4, e, (e + shape + 1) & 1}); if (th || e == 0) ops.push_back({5, e, 0}); if (!es[e].custom && es[e].dv.size() < (th ? 2 : 1)) for (int v = 0; v < (th ? 2 : 1); ++v) ops.push_back({6, e, v}); }
    ops.push_back({7, 0, 0});
  }
  int nops() const override { return ops.size(); }
  std::string name(int i) const override { auto& o = ops[i]; std::string v = o.v ? "y" : "x"; switch (o.k) { case 0: return std::string("set ") + "xyp"[o.v]; case 1: return "Eval(" + es[o.e].nm + ")"; case 2: return "DevalF(" + es[o.e].nm + "," + v + ")"; case 3: return "PreComp(" + es[o.e].nm + ")"; case 4: return "DevalR(" + es[o.e].nm + "," + v + ")"; case 5: return "PreCompCache(" + es[o.e].nm + ")"; case 6: return "SymDiff(" + es[o.e].nm + "," + v + ")"; default: return "values"; } }
  int lastSet = -1;
  // consecutive assignments commute and cancel: only ascending runs of them are explored
  bool enabled(int i) const override { auto& o = ops[i]; if (o.k == 0 && o.v <= lastSet) return false; return o.k != 4 || sw[o.e].any; }
  bool counts(int i) const override { return ops[i].k != 0; }
  void swept(int e) { sw[e].any = true; sw[e].envs = {env()}; for (int b : es[e].below) if (sw[b].any) sw[b].envs.push_back(env()); }
  void apply(int i, bool chk, const std::string& h) override {
    auto& o = ops[i]; lastSet = o.k == 0 ? o.v : -1;
    switch (o.k) {
      case 0: if (o.v == 0) { vx ^= 1; x = T_(X[vx]); } else if (o.v == 1) { vy ^= 1; y = T_(Y[vy]); } else { vp ^= 1; p = T_(PV[vp]); } break;
      case 1: { Type g = S1::Eval(*es[o.e].e); if (chk) cmp(h, g, deriv(es[o.e].r, env(), es[o.e].dv), SL(es[o.e].dv.size())); break; }
      case 2: { Variable& v = o.v ? y : x; Type g = S1::DevalF(*es[o.e].e, v); if (chk) { auto dv = es[o.e].dv; dv.push_back(o.v); cmp(h, g, deriv(es[o.e].r, env(), dv), SL(dv.size())); } break; }
      case 3: S1::PreComp(*es[o.e].e); swept(o.e); if (chk) readAll(o.e, h); break;
      case 4: { Variable& v = o.v ? y : x; Type g = S1::DevalR(*es[o.e].e, v); if (chk) { auto dv = es[o.e].dv; dv.push_back(o.v); bool ok = false, us = true; std::string w; for (auto& en : sw[o.e].envs) { R r = deriv(es[o.e].r, en, dv); if (!usable(r)) { us = false; break; } w += " " + str(r.v); if (close(C_(g), r.v, r.scale * SL(dv.size()))) ok = true; } if (!us) fw::skip(); else { fw::check(); if (!ok) fw::fail(h, "got " + str(C_(g)) + " want one of" + w); } } break; }
      case 5: { OMPair t = S1::PreCompCache(*es[o.e].e); swept(o.e); if (chk) for (int v = 0; v < 2; ++v) { auto it = t.find((v ? y : x).m_nidx); auto dv = es[o.e].dv; dv.push_back(v); cmp(h + "/" + "xy"[v], it == t.end() ? Type(0) : it->second, deriv(es[o.e].r, env(), dv), SL(dv.size())); } break; }
      case 6: { Variable& v = o.v ? y : x; Expression& d = S1::SymDiff(*es[o.e].e, v); if (chk) { auto dv = es[o.e].dv; dv.push_back(o.v); cmp(h, S1::Eval(d), deriv(es[o.e].r, env(), dv), SL(dv.size())); } break; }
      case 7: if (chk) { auto c = [&](const char* n, Type g, C w) { fw::check(); if (C_(g) != w) fw::fail(h + "/" + n, "value changed: got " + str(C_(g)) + " want " + str(w)); }; c("x", S1::Eval(x), X[vx]); c("y", S1::Eval(y), Y[vy]); c("p", S1::Eval(p), PV[vp]); } break;
    }
  }
  void readAll(int e, const std::string& h) { for (int v = 0; v < 2; ++v) { auto dv = es[e].dv; dv.push_back(v); cmp(h + "/" + "xy"[v], S1::DevalR(*es[e].e, v ? y : x), deriv(es[e].r, env(), dv), SL(dv.size())); } }
  fw::u64 state() const override { fw::u64 s = shape * 8 + vx * 4 + vy * 2 + vp; for (auto& w : sw) { s = fw::hmix(s, w.any); for (auto& e : w.envs) for (auto& c : e.x) s = fw::hmix(s, hC(c)); } return s; }
};

// ================= S06 =================
// Two named expressions e and f (and x, y, p). Definitions are lists; a definition may mention its own
// previous meaning (SELF) or the other expression (OTHER, by reference: its meaning at query time).
enum { XX, YY, PP, SELF, OTHER };
struct Def { int form; };
struct RW : hist::WorldBase {
  int variant; Variable x{T_(q(0.7L))}, y{T_(q(1.3L))}; Parameter p{T_(q(0.6L))}; Expression e, f, g; int vx = 0; std::vector<C> X{q(0.7L), q(-1.1L)};
  std::vector<int> defs[2]; // forms applied, oldest first, for e and f
  RW(int v) : variant(v) { if (variant == 1) { e = x * y; defs[0] = {0}; f = e * y; defs[1] = {7}; } g = e * f + x; }
  // forms for target t (self = S, other = O)
  static constexpr int NF = 10;
  static const char* fname(int k) { static const char* n[] = {"x*y", "x+p", "S*x", "sin(S)", "S*S+y", "S", "S-O", "O*y", "O", "y/(S+3)"}; return n[k]; }
  static bool self(int k) { return k == 2 || k == 3 || k == 4 || k == 5 || k == 6 || k == 9; }
  static bool other(int k) { return k == 6 || k == 7 || k == 8; }
  bool depends(int t) const { for (int k : defs[t]) if (other(k)) return true; return false; } // on the other one
  P meaning(int t) const { using namespace ref; P cur = num(C(0)); for (int k : defs[t]) { P o = other(k) ? meaning(1 - t) : P(); P rx = var(0), ry = var(1);
    switch (k) { case 0: cur = bin(MUL, rx, ry); break; case 1: cur = bin(ADD, rx, par(0)); break; case 2: cur = bin(MUL, cur, rx); break; case 3: cur = un(ref::SIN, cur); break; case 4: cur = bin(ADD, bin(MUL, cur, cur), ry); break; case 5: break; case 6: cur = bin(SUB, cur, o); break; case 7: cur = bin(MUL, o, ry); break; case 8: cur = o; break; case 9: cur = bin(DIV, ry, bin(ADD, cur, num(C(3)))); break; } } return cur; }
  P gm() const { using namespace ref; return bin(ADD, bin(MUL, meaning(0), meaning(1)), var(0)); }
  Env env() const { return Env{{X[vx], q(1.3L)}, {q(0.6L)}}; }
  struct O { int k, t, v; }; 
  std::vector<O> ops() const { static std::vector<O> o = [] { std::vector<O> r; for (int t = 0; t < 2; ++t) for (int k = 0; k < NF; ++k) r.push_back({0, t, k}); r.push_back({1, 0, 0}); for (int t = 0; t < 3; ++t) { r.push_back({2, t, 0}); for (int v = 0; v < 2; ++v) r.push_back({3, t, v}); r.push_back({4, t, 0}); for (int v = 0; v < 2; ++v) r.push_back({5, t, v}); } return r; }(); return o; }
  int nops() const override { return ops().size(); }
  std::string name(int i) const override { auto o = ops()[i]; std::string t(1, "efg"[o.t]), v(1, "xy"[o.v & 1]); switch (o.k) { case 0: { std::string s = fname(o.v), r; for (char c : s) r += c == 'S' ? (o.t ? 'f' : 'e') : c == 'O' ? (o.t ? 'e' : 'f') : c; return t + "=" + r; } case 1: return "set x"; case 2: return "Eval(" + t + ")"; case 3: return "DevalF(" + t + "," + v + ")"; case 4: return "PreComp(" + t + ")"; default: return "SymDiff(" + t + "," + v + ")"; } }
  bool enabled(int i) const override { auto o = ops()[i]; if (o.k != 0) return true;
    if (other(o.v) && depends(1 - o.t)) return false;      // a cycle through the other expression has no meaning
    if (self(o.v) && defs[o.t].size() >= 5) return false; return true; }
  bool counts(int i) const override { return ops()[i].k > 1; }
  template <class S, class OT> void assign(S& s, OT& o, int k) {
    switch (k) { case 0: s = x * y; break; case 1: s = x + p; break; case 2: s = s * x; break; case 3: s = sin(s); break; case 4: s = s * s + y; break; case 5: { Expression& a = s; s = a; break; } case 6: s = s - o; break; case 7: s = o * y; break; case 8: s = o; break; case 9: s = y / (s + Type(3)); break; } }
  void apply(int i, bool chk, const std::string& h) override {
    auto o = ops()[i]; Expression* T[3] = {&e, &f, &g};
    auto m = [&](int t) { return t == 2 ? gm() : meaning(t); };
    switch (o.k) {
      case 0: if (o.t == 0) assign(e, f, o.v); else assign(f, e, o.v); if (!self(o.v)) defs[o.t].clear(); defs[o.t].push_back(o.v); break;
      case 1: vx ^= 1; x = T_(X[vx]); break;
      case 2: { Type gg = S1::Eval(*T[o.t]); if (chk) cmp(h, gg, ref::value(m(o.t), env()), 4); break; }
      case 3: { Type gg = S1::DevalF(*T[o.t], o.v ? y : x); if (chk) cmp(h, gg, ref::d1(m(o.t), env(), o.v), 20); break; }
      case 4: S1::PreComp(*T[o.t]); if (chk) for (int v = 0; v < 2; ++v) cmp(h + "/" + "xy"[v], S1::DevalR(*T[o.t], v ? y : x), ref::d1(m(o.t), env(), v), 20); break;
      case 5: { Expression& d = S1::SymDiff(*T[o.t], o.v ? y : x); if (chk) { P r = m(o.t); cmp(h, S1::Eval(d), ref::d1(r, env(), o.v), 20); cmp(h + "/F", S1::DevalF(d, x), ref::d2(r, env(), o.v, 0), 200); } break; }
    }
  }
  fw::u64 state() const override { fw::u64 s = variant * 2 + vx; for (auto& d : defs) { s = fw::hmix(s, 77); for (int k : d) s = fw::hmix(s, k); } return s; }
};
// Loops of n steps over a body, with queries at every step or only at the end.
static void loops(fw::Emit& emit) {
  using namespace ref; int N = fw::thorough() ? 60 : 40;
  for (int body = 0; body < 8; ++body) for (int every = 0; every < 3; ++every) for (int n = 1; n <= N; n += n < 6 ? 1 : 9)
    emit([=] { return "loop/body" + std::to_string(body) + (every == 0 ? "/end" : every == 1 ? "/each" : "/each+set") + "/" + std::to_string(n); }, [=] {
      Variable x(T_(q(0.7L))), y(T_(q(0.4L))); Parameter p(T_(q(0.5L))); Expression e, acc; LD xv = (Real)0.7L; const LD yv = (Real)0.4L, pv = (Real)0.5L;
      e = x * y; acc = x; 
      // hand-written recurrences with derivatives (v, dx, dy)
      struct D { LD v, x, y; };
      auto model = [&](int steps, D& ac) { D d{xv * yv, yv, xv}; ac = D{xv, 1, 0};
        for (int i = 0; i < steps; ++i) {
          switch (body) {
            case 0: d = D{d.v + xv, d.x + 1, d.y}; break;
            case 1: d = D{std::sin(d.v) + xv, std::cos(d.v) * d.x + 1, std::cos(d.v) * d.y}; break;
            case 2: { LD s = 0.25L; d = D{d.v * d.v * s + yv, 2 * d.v * d.x * s, 2 * d.v * d.y * s + 1}; break; }
            case 3: d = D{yv - d.v * pv, -d.x * pv, 1 - d.y * pv}; break;
            case 4: { ac = D{ac.v + d.v, ac.x + d.x, ac.y + d.y}; break; }
            case 5: { LD den = d.v + 2; d = D{xv / den, 1 / den - xv / (den * den) * d.x, -xv / (den * den) * d.y}; break; }
            case 6: { D t{std::cos(d.v), -std::sin(d.v) * d.x, -std::sin(d.v) * d.y}; d = t; ac = D{ac.v * d.v, ac.x * d.v + ac.v * d.x, ac.y * d.v + ac.v * d.y}; break; }
            case 7: { LD ev = std::exp(-d.v); d = D{ev, -ev * d.x, -ev * d.y}; break; }
          } } return d; };
      auto R_ = [](LD v) { ref::R r; r.ok = true; r.v = C(v); r.scale = 10 + 4 * std::fabs(v); return r; };
      auto look = [&](int i, bool all) { D ac, d = model(i, ac); std::string h = "step" + std::to_string(i); fw::trans(5); fw::state(fw::hmix(body, i));
        bool useAcc = body == 4; (void)useAcc;
        cmp(h + "/v", S1::Eval(e), R_(d.v)); cmp(h + "/Fx", S1::DevalF(e, x), R_(d.x)); cmp(h + "/Fy", S1::DevalF(e, y), R_(d.y)); S1::PreComp(e); cmp(h + "/Rx", S1::DevalR(e, x), R_(d.x)); cmp(h + "/Ry", S1::DevalR(e, y), R_(d.y));
        if (body == 4 || (body == 6 && i <= 1)) { LD v = ac.v, ax = ac.x, ay = ac.y; cmp(h + "/av", S1::Eval(acc), R_(v)); cmp(h + "/aFx", S1::DevalF(acc, x), R_(ax)); cmp(h + "/aFy", S1::DevalF(acc, y), R_(ay)); S1::PreComp(acc); cmp(h + "/aRx", S1::DevalR(acc, x), R_(ax)); cmp(h + "/aRy", S1::DevalR(acc, y), R_(ay)); }
        if (all && i <= 6) { cmp(h + "/Dx", S1::Eval(S1::SymDiff(e, x)), R_(d.x)); cmp(h + "/Dy", S1::Eval(S1::SymDiff(e, y)), R_(d.y)); } };
      for (int i = 1; i <= n; ++i) {
        switch (body) { case 0: e = e + x; break; case 1: e = sin(e) + x; break; case 2: e = e * e * Type(0.25) + y; break; case 3: e = y - e * p; break; case 4: acc = acc + e; break; case 5: e = x / (e + Type(2)); break; case 6: e = cos(e); if (i == 1) acc = acc * e; break; case 7: e = exp(-e); break; }
        if (every == 2 && (i % 3) == 0) { xv = (Real)(xv == (Real)0.7L ? 0.45L : 0.7L); x = (Type)(Real)xv; }
        if (every) look(i, true);
      }
      look(n, true); fw::trace();
    });
}

// ================= S07 =================
// Objects: variables x,y,z and parameters p,q used by live expressions E (and its derivatives taken at the start).
struct HW : hist::WorldBase {
  Variable x{T_(q(0.7L))}, y{T_(q(1.3L))}, z{T_(q(-0.4L))}; Parameter p{T_(q(0.6L))}, pq{T_(q(1.7L))};
  Variable &fx; Parameter& fp;      // factory-made
  Expression E, Fq; Expression *dEx, *dEy; P rE, rF;
  int id[4] = {0, 1, 2, 3}; C val[4] = {q(0.7L), q(1.3L), q(-0.4L), q(2)}; C pv[3] = {q(0.6L), q(1.7L), q(0.25L)}; bool aliasTouched = false; bool sym = true; int nset = 0;
  HW() : fx(Variable::VariableFactory::CreateVariable(T_(q(2)))), fp(Parameter::ParameterFactory::CreateParameter(T_(q(0.25L)))) {
    E = x * y * p + sin(x) * pq + z; Fq = E * x + pow(fx, p + Type(3)) * fp; using namespace ref; P a = var(0), b = var(1), c = var(2), d = var(3);
    rE = bin(ADD, bin(ADD, bin(MUL, bin(MUL, a, b), par(0)), bin(MUL, un(ref::SIN, a), par(1))), c); rF = bin(ADD, bin(MUL, rE, a), bin(MUL, bin(POW, d, bin(ADD, par(0), num(C(3)))), par(2)));
    dEx = &S1::SymDiff(E, x); dEy = &S1::SymDiff(Fq, y);
  }
  static constexpr int NO = 34;
  std::string name(int i) const override { static const char* n[NO] = {"x=2.5", "x=-1", "y=0.5", "x=y", "y=x", "x=x", "x=move(copy of y)", "z=x", "copy c(x);c=3", "c(x):use", "swap(x,y)", "p=2", "p=-0.5", "p=q", "q=p", "p=p", "p=move(copy of q)", "q=4", "fx=1.5", "fp=3", "Eval(E)", "Eval(F)", "DevalF(E,x)", "DevalF(F,y)", "DevalF(F,fx)", "PreComp(E)", "PreComp(F)", "Eval(dE/dx)", "Eval(dF/dy)", "SymDiff(E,x)", "SymDiff(F,y)", "values", "DevalF(F,copy of x)", "copies in an expression"}; return n[i]; }
  int nops() const override { return NO; }
  bool enabled(int i) const override { if (i == 27 || i == 28) return sym; if (i == 10 || (i >= 3 && i <= 7 && i != 5)) return nset < 2; return true; }
  bool counts(int i) const override { return i >= 20; }
  Env env() const { Env e; for (int k = 0; k < 4; ++k) e.x.push_back(val[id[k]]); e.p = {pv[0], pv[1], pv[2]}; return e; }
  // derivative with respect to the identity of object o: sum over the objects that denote it
  R dsum(const P& r, int o) const { R t; t.ok = true; t.v = C(0); t.scale = 1; for (int k = 0; k < 4; ++k) if (id[k] == id[o]) { R a = ref::d1(r, env(), k); t.ok = t.ok && a.ok; t.v += a.v; t.scale = std::max(t.scale, a.scale); } return t; }
  void alias(int o, int from) { id[o] = id[from]; ++nset; sym = sym && id[0] == 0 && id[1] == 1 && id[2] == 2; }
  void apply(int i, bool chk, const std::string& h) override {
    C v;
    switch (i) {
      case 0: x = T_(v = q(2.5L)); val[id[0]] = v; break; case 1: x = T_(v = q(-1)); val[id[0]] = v; break; case 2: y = T_(v = q(0.5L)); val[id[1]] = v; break;
      case 3: x = y; alias(0, 1); break; case 4: y = x; alias(1, 0); break; case 5: { Variable& r = x; x = r; break; } case 6: { Variable c(y); x = std::move(c); alias(0, 1); break; } case 7: z = x; alias(2, 0); break;
      case 8: { Variable c(x); c = T_(v = q(3)); val[id[0]] = v; break; }
      case 9: { Variable c(x); if (chk) { fw::check(2); if (C_(S1::Eval(c)) != val[id[0]]) fw::fail(h, "copy evaluates to " + str(C_(S1::Eval(c)))); cmp(h + "/d", S1::DevalF(E, c), dsum(rE, 0), 20); } break; }
      case 10: { std::swap(x, y); std::swap(id[0], id[1]); ++nset; sym = sym && id[0] == 0 && id[1] == 1; break; }
      case 11: p = T_(v = q(2)); pv[0] = v; break; case 12: p = T_(v = q(-0.5L)); pv[0] = v; break; case 13: p = pq; pv[0] = pv[1]; break; case 14: pq = p; pv[1] = pv[0]; break; case 15: { Parameter& r = p; p = r; break; }
      case 16: { Parameter& c = *new Parameter(pq); p = std::move(c); pv[0] = pv[1]; break; }
      case 17: pq = T_(v = q(4)); pv[1] = v; break; case 18: fx = T_(v = q(1.5L)); val[id[3]] = v; break; case 19: fp = T_(v = q(3)); pv[2] = v; break;
      case 20: { Type g = S1::Eval(E); if (chk) cmp(h, g, ref::value(rE, env()), 4); break; } case 21: { Type g = S1::Eval(Fq); if (chk) cmp(h, g, ref::value(rF, env()), 4); break; }
      case 22: { Type g = S1::DevalF(E, x); if (chk) cmp(h, g, dsum(rE, 0), 20); break; } case 23: { Type g = S1::DevalF(Fq, y); if (chk) cmp(h, g, dsum(rF, 1), 20); break; } case 24: { Type g = S1::DevalF(Fq, fx); if (chk) cmp(h, g, dsum(rF, 3), 20); break; }
      case 25: S1::PreComp(E); if (chk) { Variable* o[4] = {&x, &y, &z, &fx}; for (int k = 0; k < 4; ++k) cmp(h + "/" + std::to_string(k), S1::DevalR(E, *o[k]), dsum(rE, k), 20); } break;
      case 26: S1::PreComp(Fq); if (chk) { Variable* o[4] = {&x, &y, &z, &fx}; for (int k = 0; k < 4; ++k) cmp(h + "/" + std::to_string(k), S1::DevalR(Fq, *o[k]), dsum(rF, k), 20); } break;
      case 27: { Type g = S1::Eval(*dEx); if (chk) cmp(h, g, ref::d1(rE, env(), 0), 20); break; } case 28: { Type g = S1::Eval(*dEy); if (chk) cmp(h, g, ref::d1(rF, env(), 1), 20); break; }
      case 29: { Expression& d = S1::SymDiff(E, x); if (chk) cmp(h, S1::Eval(d), dsum(rE, 0), 20); break; } case 30: { Expression& d = S1::SymDiff(Fq, y); if (chk) cmp(h, S1::Eval(d), dsum(rF, 1), 20); break; }
      case 31: if (chk) { Variable* o[4] = {&x, &y, &z, &fx}; for (int k = 0; k < 4; ++k) { fw::check(); if (C_(S1::Eval(*o[k])) != val[id[k]]) fw::fail(h + "/v" + std::to_string(k), "got " + str(C_(S1::Eval(*o[k]))) + " want " + str(val[id[k]])); } Parameter* pp[3] = {&p, &pq, &fp}; for (int k = 0; k < 3; ++k) { fw::check(); if (C_(S1::Eval(*pp[k])) != pv[k]) fw::fail(h + "/p" + std::to_string(k), "got " + str(C_(S1::Eval(*pp[k]))) + " want " + str(pv[k])); } 
        fw::check(3); if (S1::DevalF(p, x) != Type(0)) fw::fail(h + "/dp", "a parameter has a derivative"); if (S1::DevalF(x, x) != Type(1)) fw::fail(h + "/dxx", "dx/dx is not 1"); if ((S1::DevalF(x, y) == Type(1)) != (id[0] == id[1])) fw::fail(h + "/dxy", "dx/dy"); } break;
      case 32: { Variable c(x); Type g = S1::DevalF(Fq, c); if (chk) cmp(h, g, dsum(rF, 0), 20); break; }
      case 33: { Variable& c = *new Variable(x); Parameter& r = *new Parameter(p); Expression& n = EX(c * r + y * c); Type g = S1::Eval(n), gd = S1::DevalF(n, x); if (chk) { using namespace ref; P rr = bin(ADD, bin(MUL, var(0), par(0)), bin(MUL, var(1), var(0))); cmp(h, g, ref::value(rr, env()), 4); cmp(h + "/d", gd, dsum(rr, 0), 20); } break; }
    }
  }
  fw::u64 state() const override { fw::u64 s = 5; for (int k = 0; k < 4; ++k) { s = fw::hmix(s, id[k]); s = fw::hmix(s, hC(val[k])); } for (auto& c : pv) s = fw::hmix(s, hC(c)); return s; }
};
} // namespace sh
void enumerate(fw::Emit& e) {
  bool th = fw::thorough(); int d = th ? 5 : fw::memQuick() ? 3 : 4;
  if (fw::isProp("S05")) for (int s = 0; s < 8; ++s) hist::emitAll(e, "w" + std::to_string(s), [s] { return new sh::QW(s); }, th ? 3 : 2, d);
  if (fw::isProp("S06")) { sh::loops(e); for (int v = 0; v < 2; ++v) hist::emitAll(e, "r" + std::to_string(v), [v] { return new sh::RW(v); }, 2, d); }
  if (fw::isProp("S07")) hist::emitAll(e, "h", [] { return new sh::HW(); }, 2, d);
  if (fw::memQuick()) return;
  if (fw::isProp("S05")) for (int k = 0; k < 8; ++k) hist::emitRepeats(e, "rep/w" + std::to_string(k), [k] { return new sh::QW(k); }, th ? 3 : 2, 40);
  if (fw::isProp("S06")) for (int v = 0; v < 2; ++v) hist::emitRepeats(e, "rep/r" + std::to_string(v), [v] { return new sh::RW(v); }, th ? 3 : 2, 40);
  if (fw::isProp("S07")) hist::emitRepeats(e, "rep/h", [] { return new sh::HW(); }, th ? 3 : 2, 40);
  int L = th ? 1000 : 300;    // a few long ones
  if (fw::isProp("S05")) for (int k = 0; k < 8; ++k) hist::emitRepeats(e, "long/w" + std::to_string(k), [k] { return new sh::QW(k); }, 1, L);
  if (fw::isProp("S06")) for (int v = 0; v < 2; ++v) hist::emitRepeats(e, "long/r" + std::to_string(v), [v] { return new sh::RW(v); }, 1, L);
  if (fw::isProp("S07")) hist::emitRepeats(e, "long/h", [] { return new sh::HW(); }, 1, L);
}
FW_MAIN
