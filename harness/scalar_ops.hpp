// Shared by the parts of the scalar-formula harness (S01-S04).
#pragma once
#include "scalar_common.hpp"
namespace so {
using namespace sc; using ref::Env; using ref::bin; using ref::un; using ref::num; using ref::var; using ref::par;

struct Point { C x, y, z, p, q; };
inline const std::vector<Point>& points() {
  static std::vector<Point> v = [] {
    std::vector<Point> r;
    auto a = [&](C x, C y, C z, C p, C qq) { r.push_back({x, y, z, p, qq}); };
    a(q(0.7L), q(1.3L), q(2.1L), q(0.6L), q(1.7L));
    a(q(-1.2L), q(0.4L), q(-0.3L), q(2), q(3));
    a(q(0), q(1), q(0.5L), q(2), q(1));
    a(q(2.5L), q(-3), q(1), q(-0.5L), q(0));
    a(q(1), q(0), q(-1), q(0), q(2));
    a(q(0.25L), q(2), q(9), q(1), q(-1));
#if defined(USE_COMPLEX_MATH)
    a(q(0.7L, 0.4L), q(1.3L, -0.2L), q(-0.5L, 1), q(0.6L, 0.3L), q(1, -1));
    a(q(-1.1L, 0.6L), q(0.2L, -0.9L), q(0, 1), q(2, 1), q(0.5L, 0.5L));
    a(q(0, -0.8L), q(-1.5L, -0.7L), q(1, 1), q(-0.4L, 0.9L), q(2));
#endif
    return r;
  }();
  return v;
}
inline const std::vector<C>& numbers() {
  static std::vector<C> v = {q(2), q(-1.5L), q(3), q(0.5L), q(1), q(0), q(-2), q(4), q(-1), q(7), q(-0.5L), q(12.25L)
#if defined(USE_COMPLEX_MATH)
    , q(0.5L, -1.25L)
#endif
  };
  return v;
}
struct World {
  Variable x{T_(q(0.7L))}, y{T_(q(1.3L))}, z{T_(q(2.1L))}; Parameter p{T_(q(0.6L))}, pq{T_(q(1.7L))}; Expression e, g; Type n{T_(q(2))}; C nc = q(2);
  P re, rg;
  World() { e = x * y + p; re = bin(ref::ADD, bin(ref::MUL, var(0), var(1)), par(0)); g = e - y; rg = bin(ref::SUB, re, var(1)); }
  void set(const Point& t) { x = T_(t.x); y = T_(t.y); z = T_(t.z); p = T_(t.p); pq = T_(t.q); }
  static Env env(const Point& t) { return Env{{t.x, t.y, t.z}, {t.p, t.q}}; }
};
enum LK { N, X, Y, Q, E_, M, S, LKN };
inline const char* lkname(int k) { static const char* n[] = {"N", "x", "y", "p", "e", "(x*y)", "sin(x)"}; return n[k]; }
template <int K> decltype(auto) leaf(World& w) {
  if constexpr (K == N) return (const Type&)(w.n); else if constexpr (K == X) return (const Variable&)(w.x); else if constexpr (K == Y) return (const Variable&)(w.y);
  else if constexpr (K == Q) return (const Parameter&)(w.p); else if constexpr (K == E_) return (const Expression&)(w.e); else if constexpr (K == M) return (w.x * w.y); else return sin(w.x);
}
template <int K> P rleaf(World& w) {
  if constexpr (K == N) return num(w.nc); else if constexpr (K == X) return var(0); else if constexpr (K == Y) return var(1); else if constexpr (K == Q) return par(0);
  else if constexpr (K == E_) return w.re; else if constexpr (K == M) return bin(ref::MUL, var(0), var(1)); else return un(ref::SIN, var(0));
}
template <int O, class A, class B> const auto& bop(const A& a, const B& b) {
  if constexpr (O == ref::ADD) return a + b; else if constexpr (O == ref::SUB) return a - b; else if constexpr (O == ref::MUL) return a * b;
  else if constexpr (O == ref::DIV) return a / b; else if constexpr (O == ref::POW) return pow(a, b);
  else { if constexpr (std::is_same_v<std::decay_t<B>, Type>) return ProductS(a, b); else return ProductS(a, b); }
}
template <int U, class A> const auto& uop(const A& a) {
  if constexpr (U == ref::SIN) return sin(a); else if constexpr (U == ref::COS) return cos(a); else if constexpr (U == ref::TAN) return tan(a);
  else if constexpr (U == ref::SINH) return sinh(a); else if constexpr (U == ref::COSH) return cosh(a); else if constexpr (U == ref::TANH) return tanh(a);
  else if constexpr (U == ref::ASIN) return asin(a); else if constexpr (U == ref::ACOS) return acos(a); else if constexpr (U == ref::ATAN) return atan(a);
  else if constexpr (U == ref::ASINH) return asinh(a); else if constexpr (U == ref::ACOSH) return acosh(a); else if constexpr (U == ref::ATANH) return atanh(a);
  else if constexpr (U == ref::SQRT) return sqrt(a); else if constexpr (U == ref::EXP) return exp(a); else if constexpr (U == ref::LOG) return log(a);
  else if constexpr (U == ref::NEG) return -a; else if constexpr (U == ref::SINS) return SinS(a); else return CosS(a);
}
constexpr int NU = ref::COSS + 1;
inline bool hasCustom(const P& p) { if (!p) return false; if (p->k == ref::BIN) return p->op == ref::PRODS || hasCustom(p->a) || hasCustom(p->b); if (p->k == ref::UN) return p->op == ref::SINS || p->op == ref::COSS || hasCustom(p->a); return false; }

// Observe one formula at every point, for the property selected on the command line.
inline void observe(World& w, Expression& en, const P& r, bool light = false) {
  auto& pts = points(); Variable* vs[3] = {&w.x, &w.y, &w.z};
  if (fw::isProp("S01")) {
    for (size_t k = 0; k < pts.size(); ++k) { w.set(pts[k]); auto want = ref::value(r, World::env(pts[k])); fw::state(fw::hmix(fw::hstr(ref::show(r)), k)); fw::trans(); cmp("pt" + std::to_string(k), S1::Eval(en), want); }
  } else if (fw::isProp("S02")) {
    for (size_t k = 0; k < pts.size(); ++k) { w.set(pts[k]); auto ev = World::env(pts[k]); fw::state(fw::hmix(fw::hstr(ref::show(r)), k));
      for (int i = 0; i < 3; ++i) { fw::trans(); cmp("pt" + std::to_string(k) + "/d" + "xyz"[i], S1::DevalF(en, *vs[i]), ref::d1(r, ev, i), 4); } }
  } else if (fw::isProp("S03")) {
    for (size_t k = 0; k < pts.size(); ++k) { w.set(pts[k]); auto ev = World::env(pts[k]); fw::state(fw::hmix(fw::hstr(ref::show(r)), k)); fw::trans();
      S1::PreComp(en);
      ref::R wd[3]; for (int i = 0; i < 3; ++i) { wd[i] = ref::d1(r, ev, i); cmp("pt" + std::to_string(k) + "/d" + "xyz"[i], S1::DevalR(en, *vs[i]), wd[i], 4); }
      if (!light) { OMPair t = S1::PreCompCache(en); fw::trans();
        for (int i = 0; i < 3; ++i) { auto it = t.find(vs[i]->m_nidx); cmp("pt" + std::to_string(k) + "/table/d" + "xyz"[i], it == t.end() ? Type(0) : it->second, wd[i], 4); } } }
  } else if (fw::isProp("S04")) {
    if (hasCustom(r)) return;
    
    int maxo = light ? 2 : 2;
    std::vector<std::pair<std::vector<int>, Expression*>> ds;
    for (int i = 0; i < 3; ++i) { Expression& d = S1::SymDiff(en, *vs[i]); ds.push_back({{i}, &d}); }
    if (maxo >= 2) for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { Expression& d = S1::SymDiff(*ds[i].second, *vs[j]); ds.push_back({{i, j}, &d}); }
    for (size_t k = 0; k < pts.size(); ++k) {
      w.set(pts[k]); auto ev = World::env(pts[k]); fw::state(fw::hmix(fw::hstr(ref::show(r)), k));
      for (auto& d : ds) {
        fw::trans(); std::string nm = "pt" + std::to_string(k) + "/D"; for (int i : d.first) nm += "xyz"[i];
        ref::R want = d.first.size() == 1 ? ref::d1(r, ev, d.first[0]) : ref::d2(r, ev, d.first[0], d.first[1]);
        cmp(nm, S1::Eval(*d.second), want, 20);
        if (d.first.size() == 1 && d.first[0] < 2) { // derivative of the derivative, by the two AD modes
          for (int j = 0; j < 2; ++j) { auto w2 = ref::d2(r, ev, d.first[0], j); cmp(nm + "/F" + "xyz"[j], S1::DevalF(*d.second, *vs[j]), w2, 50); }
          S1::PreComp(*d.second); for (int j = 0; j < 2; ++j) { auto w2 = ref::d2(r, ev, d.first[0], j); cmp(nm + "/R" + "xyz"[j], S1::DevalR(*d.second, *vs[j]), w2, 50); }
        }
      }
      // differentiating did not change what the original formula means
      cmp("pt" + std::to_string(k) + "/orig", S1::Eval(en), ref::value(r, ev));
    }
    
  }
  fw::trace();
}
template <class EX> void observeT(World& w, const EX& ex, const P& r, bool light = false) {
  // (a) bound to a named expression
  { Expression en{ex}; observe(w, en, r, light); }
  // (b) queried unnamed, where the API allows it
  if constexpr (!std::is_same_v<EX, Expression>) {
    auto& pts = points(); EX& m = const_cast<EX&>(ex);
    if (fw::isProp("S01")) { w.set(pts[0]); cmp("unnamed", S1::Eval(m), ref::value(r, World::env(pts[0]))); }
    if (fw::isProp("S02")) { w.set(pts[0]); cmp("unnamed/dx", S1::DevalF(m, w.x), ref::d1(r, World::env(pts[0]), 0), 4); }
    if (fw::isProp("S04") && !hasCustom(r)) { Expression& d = S1::SymDiff(m, w.x); w.set(pts[0]); cmp("unnamed/Dx", S1::Eval(d), ref::d1(r, World::env(pts[0]), 0), 20); }
  }
}
template <int... I> using IS = std::integer_sequence<int, I...>;
template <class F, int... I> void each(IS<I...>, F f) { (f(std::integral_constant<int, I>{}), ...); }
// ---- parts ----
void part0(fw::Emit&); void part1(fw::Emit&); void part2(fw::Emit&); void part3(fw::Emit&); void part4(fw::Emit&); void part5(fw::Emit&); void part6(fw::Emit&); void part7(fw::Emit&);
} // namespace so
