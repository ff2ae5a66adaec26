// Reference model for scalar formulas: plain syntax trees over long double, derivatives by nested dual numbers.
#pragma once
#include <complex>
#include <memory>
#include <vector>
#include <string>
#include <cmath>
#include <limits>
namespace ref {
using LD = long double;
#if defined(USE_COMPLEX_MATH)
using C = std::complex<LD>;
inline LD cabs_(const C& z) { return std::abs(z); }
inline bool fin(const C& z) { return std::isfinite(z.real()) && std::isfinite(z.imag()); }
inline bool isz(const C& z) { return z.real() == 0 && z.imag() == 0; }
#else
using C = LD;
inline LD cabs_(const C& z) { return std::fabs(z); }
inline bool fin(const C& z) { return std::isfinite(z); }
inline bool isz(const C& z) { return z == 0; }
#endif
// Evaluation context: notes whether the point is outside the domain on which the formula is defined /
// differentiable / well conditioned, and the largest magnitude met (for the rounding tolerance).
struct Cx { bool bad = false; LD mx = 1; };
inline Cx& cx() { static Cx c; return c; }
inline void note(const C& z) { if (!fin(z)) cx().bad = true; else { LD a = cabs_(z); if (a > cx().mx) cx().mx = a; } }

template <class T> struct Dual { T v{}, d{}; };
using D1 = Dual<C>; using D2 = Dual<D1>; using D3 = Dual<D2>;

inline C mk(const C& c, C*) { return c; }
template <class T> Dual<T> mk(const C& c, Dual<T>*) { Dual<T> r; r.v = mk(c, (T*)0); r.d = mk(C(0), (T*)0); return r; }
template <class T> T cst(const C& c) { return mk(c, (T*)0); }
inline const C& base(const C& c) { return c; }
template <class T> const C& base(const Dual<T>& d) { return base(d.v); }
inline bool zeroD(const C& c) { return isz(c); }
template <class T> bool zeroD(const Dual<T>& d) { return zeroD(d.v) && zeroD(d.d); }
inline bool isConst(const C&) { return true; }
template <class T> bool isConst(const Dual<T>& d) { return isConst(d.v) && zeroD(d.d); }

inline C add(const C& a, const C& b) { C r = a + b; note(r); return r; }
inline C sub(const C& a, const C& b) { C r = a - b; note(r); return r; }
inline C mul(const C& a, const C& b) { C r = a * b; note(r); return r; }
inline C dvd(const C& a, const C& b) { if (isz(b)) { cx().bad = true; return C(0); } if (cabs_(b) < 1e-4L) cx().bad = true; C r = a / b; note(r); return r; }
template <class T> Dual<T> add(const Dual<T>& a, const Dual<T>& b) { return {add(a.v, b.v), add(a.d, b.d)}; }
template <class T> Dual<T> sub(const Dual<T>& a, const Dual<T>& b) { return {sub(a.v, b.v), sub(a.d, b.d)}; }
template <class T> Dual<T> mul(const Dual<T>& a, const Dual<T>& b) { return {mul(a.v, b.v), add(mul(a.d, b.v), mul(a.v, b.d))}; }
template <class T> Dual<T> dvd(const Dual<T>& a, const Dual<T>& b) { T q = dvd(a.v, b.v); return {q, dvd(sub(a.d, mul(q, b.d)), b.v)}; }
template <class T> T neg(const T& a) { return sub(cst<T>(C(0)), a); }

enum U { SIN, COS, TAN, SINH, COSH, TANH, ASIN, ACOS, ATAN, ASINH, ACOSH, ATANH, SQRT, EXP, LOG, NEG, SINS, COSS, SIGM, RELU, LRELU, ABSV, UCOUNT };
inline const char* uname(int u) { static const char* n[] = {"sin","cos","tan","sinh","cosh","tanh","asin","acos","atan","asinh","acosh","atanh","sqrt","exp","log","neg","SinS","CosS","sigmoid","relu","lrelu","abs"}; return n[u]; }
inline C uf(int u, const C& z) {
  using namespace std;
  switch (u) {
    case SIN: case SINS: return sin(z); case COS: case COSS: return cos(z); case TAN: return tan(z); case SINH: return sinh(z); case COSH: return cosh(z); case TANH: return tanh(z);
    case ASIN: return asin(z); case ACOS: return acos(z); case ATAN: return atan(z); case ASINH: return asinh(z); case ACOSH: return acosh(z); case ATANH: return atanh(z);
    case SQRT: return sqrt(z); case EXP: return exp(z); case LOG: return log(z); case NEG: return -z; case SIGM: return C(1) / (C(1) + exp(-z));
#if !defined(USE_COMPLEX_MATH)
    case RELU: return z > 0 ? z : C(0); case LRELU: return z > 0 ? z : C(0.01L) * z; case ABSV: return fabsl(z);
#endif
  }
  return C(NAN);
}
inline bool cutty(int u) { return u == ASIN || u == ACOS || u == ATAN || u == ASINH || u == ACOSH || u == ATANH || u == SQRT || u == LOG; }
inline C ufc(int u, const C& z) {
  C r = uf(u, z); note(r);
  { C w = z * z; // next to a branch point rounding is amplified without bound
    if (((u == ASIN || u == ACOS || u == ACOSH || u == ATANH) && cabs_(w - C(1)) < 1e-5L) || ((u == ASINH || u == ATAN) && cabs_(w + C(1)) < 1e-5L) || ((u == SQRT || u == LOG) && cabs_(z) < 1e-5L)) cx().bad = true; }
#if defined(USE_COMPLEX_MATH)
  if (cutty(u)) { // a jump between neighbouring points means z lies on (or next to) a branch cut: not a point of the domain
    const LD e = 1e-8L; C a = uf(u, z + C(0, e)), b = uf(u, z - C(0, e)), c = uf(u, z + C(e, 0)), d = uf(u, z - C(e, 0));
    if (cabs_(a - b) > 1e-3L || cabs_(c - d) > 1e-3L || cabs_(a - c) > 1e-3L) cx().bad = true;
  }
#endif
  return r;
}
// Known finding (see known_findings.txt): the complex derivative of acosh has the wrong sign for Re z <= 0.
// The general cases leave that half plane out; the cases "known/acosh..." look at it.
inline bool& acoshAll() { static bool b = false; return b; }
inline void acoshDomain(const C& z) {
#if defined(USE_COMPLEX_MATH)
  if (z.real() < 1e-6L && !acoshAll()) cx().bad = true;
#else
  (void)z;
#endif
}
// Known finding: second and higher symbolic derivatives of x^p (p a parameter) are NaN at p's log-singular bases.
// set while p reaches pow() wrapped in a named expression (then the first derivative is affected as well)
inline bool& parIsExpr() { static bool b = false; return b; }
inline bool& powParAll() { static bool b = false; return b; }
template <class T> T un(int u, const T& a);
inline C un1(int u, const C& a) { return ufc(u, a); }
// derivative of the unary function, itself a formula over T (so that it can be differentiated again)
template <class T> T sq(const T& a) { return mul(a, a); }
template <class T> T du(int u, const T& a) {
  auto one = cst<T>(C(1));
  switch (u) {
    case SIN: case SINS: return un(COS, a); case COS: case COSS: return neg(un(SIN, a)); case TAN: return add(one, sq(un(TAN, a)));
    case SINH: return un(COSH, a); case COSH: return un(SINH, a); case TANH: return sub(one, sq(un(TANH, a)));
    case ASIN: return dvd(one, mul(un(SQRT, sub(one, a)), un(SQRT, add(one, a)))); case ACOS: return neg(dvd(one, mul(un(SQRT, sub(one, a)), un(SQRT, add(one, a)))));
    case ATAN: return dvd(one, add(one, sq(a))); case ASINH: return dvd(one, un(SQRT, add(one, sq(a)))); case ACOSH: acoshDomain(base(a)); return dvd(one, mul(un(SQRT, sub(a, one)), un(SQRT, add(a, one))));
    case ATANH: return dvd(one, sub(one, sq(a))); case SQRT: return dvd(one, mul(cst<T>(C(2)), un(SQRT, a))); case EXP: return un(EXP, a); case LOG: return dvd(one, a); case NEG: return cst<T>(C(-1));
    case SIGM: { T s = un(SIGM, a); return mul(s, sub(one, s)); }
#if !defined(USE_COMPLEX_MATH)
    case RELU: if (base(a) == 0) cx().bad = true; return cst<T>(base(a) > 0 ? C(1) : C(0));
    case LRELU: if (base(a) == 0) cx().bad = true; return cst<T>(base(a) > 0 ? C(1) : C(0.01L));
    case ABSV: if (base(a) == 0) cx().bad = true; return cst<T>(base(a) > 0 ? C(1) : C(-1));
#endif
  }
  return one;
}
template <class T> struct UnImpl { static T f(int u, const T& a) { return un1(u, a); } };
template <class T> struct UnImpl<Dual<T>> { static Dual<T> f(int u, const Dual<T>& a) { Dual<T> r; r.v = un<T>(u, a.v); r.d = mul(a.d, du<T>(u, a.v)); return r; } };
template <class T> T un(int u, const T& a) { return UnImpl<T>::f(u, a); }
// Power. A constant exponent n gives n*b^(n-1)*b'; otherwise b^e = exp(e log b).
inline C pw0(const C& b, const C& e) {
#if defined(USE_COMPLEX_MATH)
  bool intg = e.imag() == 0 && e.real() == std::floor(e.real());
  if (isz(b)) { if (isz(e)) { cx().bad = true; return C(1); } if (e.imag() == 0 && e.real() >= 0 && intg) return C(0); if (!(e.imag() == 0 && e.real() > 0)) cx().bad = true; else return C(0); return C(0); }
  if (intg && std::fabs(e.real()) <= 16) { C r = 1; for (int i = 0; i < (int)std::fabs(e.real()); ++i) r *= b; if (e.real() < 0) r = C(1) / r; note(r); return r; }
  ufc(LOG, b); C r = std::pow(b, e); note(r); return r;
#else
  if (b == 0 && e <= 0) { cx().bad = true; return 0; }
  C r = std::pow(b, e); note(r); return r;
#endif
}
template <class T> struct PwC { static T f(const T& b, const C& e) { return pw0(b, e); } };
template <class T> struct PwC<Dual<T>> { static Dual<T> f(const Dual<T>& b, const C& e) { Dual<T> r; r.v = PwC<T>::f(b.v, e);
    if (isz(e)) r.d = cst<T>(C(0));
    else if (isz(e - C(1))) r.d = b.d;   // x^1: the slope is 1 everywhere, 0 included
    else r.d = mul(mul(cst<T>(e), PwC<T>::f(b.v, e - C(1))), b.d); return r; } };
// General power: its value is claimed wherever it is finite, its derivatives only where log(base) is smooth.
inline C pw(const C& b, const C& e) { return pw0(b, e); }
template <class T> Dual<T> pw(const Dual<T>& b, const Dual<T>& e) { const C& z = base(b);
#if !defined(USE_COMPLEX_MATH)
  if (z <= 0) cx().bad = true;
#endif
  if (cabs_(z) < 1e-6L) cx().bad = true;
  return un(EXP, mul(e, un(LOG, b))); }
inline C pwc(const C& b, const C& e) { return pw0(b, e); }

template <class T> struct Ord { static constexpr int v = 0; }; template <class T> struct Ord<Dual<T>> { static constexpr int v = 1 + Ord<T>::v; };
template <class T> constexpr int order() { return Ord<T>::v; }
inline bool negReal(const C& z) {
#if defined(USE_COMPLEX_MATH)
  (void)z; return false;
#else
  return z < 0;
#endif
}
enum K { NUM, VAR, PAR, BIN, UN };
enum Op { ADD, SUB, MUL, DIV, POW, PRODS, OPCOUNT };
inline const char* oname(int o) { static const char* n[] = {"+", "-", "*", "/", "pow", "ProductS"}; return n[o]; }
struct Node; using P = std::shared_ptr<const Node>;
struct Node { K k; int op = 0; int leaf = 0; C num{}; P a, b; std::string nm; };
inline P num(const C& c) { auto n = std::make_shared<Node>(); n->k = NUM; n->num = c; return n; }
inline P var(int i) { auto n = std::make_shared<Node>(); n->k = VAR; n->leaf = i; return n; }
inline P par(int i) { auto n = std::make_shared<Node>(); n->k = PAR; n->leaf = i; return n; }
inline P bin(int o, P a, P b) { auto n = std::make_shared<Node>(); n->k = BIN; n->op = o; n->a = a; n->b = b; return n; }
inline P un(int u, P a) { auto n = std::make_shared<Node>(); n->k = UN; n->op = u; n->a = a; return n; }
inline std::string show(const P& p) {
  switch (p->k) {
    case NUM: {
#if defined(USE_COMPLEX_MATH)
      char b[64]; snprintf(b, 64, p->num.imag() == 0 ? "%Lg" : "(%Lg%+Lgi)", p->num.real(), p->num.imag()); return b;
#else
      char b[64]; snprintf(b, 64, "%Lg", p->num); return b;
#endif
    }
    case VAR: return std::string("x") + std::to_string(p->leaf);
    case PAR: return std::string("p") + std::to_string(p->leaf);
    case UN: return std::string(uname(p->op)) + "(" + show(p->a) + ")";
    case BIN: return std::string("(") + show(p->a) + oname(p->op) + show(p->b) + ")";
  }
  return "?";
}
struct Env { std::vector<C> x, p; };
template <class T> T ev(const Node* n, const std::vector<T>& x, const std::vector<C>& p) {
  switch (n->k) {
    case NUM: return cst<T>(n->num);
    case VAR: return x[n->leaf];
    case PAR: return cst<T>(p[n->leaf]);
    case UN: return un<T>(n->op, ev<T>(n->a.get(), x, p));
    case BIN: {
      T a = ev<T>(n->a.get(), x, p), b = ev<T>(n->b.get(), x, p);
      switch (n->op) { case ADD: return add(a, b); case SUB: return sub(a, b); case MUL: case PRODS: return mul(a, b); case DIV: return dvd(a, b); case POW:
        if (n->b->k == NUM) return PwC<T>::f(a, n->b->num);
        if (n->b->k == PAR) { if (order<T>() > (parIsExpr() ? 0 : 1) && !powParAll() && (cabs_(base(a)) < 1e-6L || negReal(base(a)))) cx().bad = true; return PwC<T>::f(a, p[n->b->leaf]); }
        return pw(a, b); }
    }
  }
  return cst<T>(C(0));
}
struct R { bool ok; C v; LD scale; };
inline void seed(C&, const C& v, const std::vector<int>&, int, int) {}
inline R value(const P& n, const Env& e) { cx() = Cx(); std::vector<C> x = e.x; for (auto& c : x) note(c); C r = ev<C>(n.get(), x, e.p); return {!cx().bad && fin(r), r, cx().mx}; }
inline R d1(const P& n, const Env& e, int i) {
  cx() = Cx(); std::vector<D1> x; for (size_t k = 0; k < e.x.size(); ++k) { D1 d; d.v = e.x[k]; d.d = C((int)k == i ? 1 : 0); note(d.v); x.push_back(d); }
  D1 r = ev<D1>(n.get(), x, e.p); return {!cx().bad && fin(r.d) && fin(r.v), r.d, cx().mx};
}
inline R d2(const P& n, const Env& e, int i, int j) {
  cx() = Cx(); std::vector<D2> x; for (size_t k = 0; k < e.x.size(); ++k) { D2 d; d.v.v = e.x[k]; d.v.d = C((int)k == i ? 1 : 0); d.d.v = C((int)k == j ? 1 : 0); d.d.d = C(0); x.push_back(d); }
  D2 r = ev<D2>(n.get(), x, e.p); return {!cx().bad && fin(r.d.d), r.d.d, cx().mx};
}
inline R d3(const P& n, const Env& e, int i, int j, int l) {
  cx() = Cx(); std::vector<D3> x; for (size_t k = 0; k < e.x.size(); ++k) { D3 d; d = cst<D3>(e.x[k]); d.v.v.d = C((int)k == i ? 1 : 0); d.v.d.v = C((int)k == j ? 1 : 0); d.d.v.v = C((int)k == l ? 1 : 0); x.push_back(d); }
  D3 r = ev<D3>(n.get(), x, e.p); return {!cx().bad && fin(r.d.d.d), r.d.d.d, cx().mx};
}
} // namespace ref
