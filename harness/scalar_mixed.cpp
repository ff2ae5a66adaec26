// Numbers of different types in one formula, and complex builds on real inputs (S08).
#include "scalar_ops.hpp"
#ifndef PART
#define PART -1
#endif
namespace mx {
using namespace so; using std::string;
void part0(fw::Emit&); void part1(fw::Emit&); void part2(fw::Emit&); void part3(fw::Emit&);
// literal kinds: their C++ type and the values enumerated
enum LT { I, U_, L_, F, D, T, NLT };
inline const char* ln(int k) { static const char* n[] = {"int", "unsigned", "long", "float", "double", "Type"}; return n[k]; }
template <int K> constexpr int nlit() { return K == U_ ? 3 : K == T ? 5 : 5; }
template <int K> auto lit(int i) {
  if constexpr (K == I || K == L_) { const int v[] = {2, -3, 1, 0, 7}; if constexpr (K == I) return v[i]; else return (long)v[i]; }
  else if constexpr (K == U_) { const unsigned v[] = {2, 3, 0}; return v[i]; }
  else if constexpr (K == T) { const C v[] = {q(2), q(-1.5L), q(0.25L), q(0), q(0.5L, -1.25L)}; return T_(v[i]); }
  else { const double v[] = {0.5, -1.25, 2, 0, 3}; if constexpr (K == F) return (float)v[i]; else return v[i]; }
}
template <class V> C val(const V& v) { if constexpr (std::is_same_v<V, Type>) return C_(v); else return q((LD)v); }
// value, both derivative modes and the symbolic derivative at every point
inline void all(World& w, Expression& en, const P& r) {
  auto& pts = points(); Variable* vs[2] = {&w.x, &w.y}; Expression* d[2] = {&S1::SymDiff(en, w.x), &S1::SymDiff(en, w.y)};
  for (size_t k = 0; k < pts.size(); ++k) {
    w.set(pts[k]); auto ev = World::env(pts[k]); fw::state(fw::hmix(fw::hstr(ref::show(r)), k)); fw::trans(8); string n = "pt" + std::to_string(k);
    cmp(n, S1::Eval(en), ref::value(r, ev)); ref::R wd[2]; for (int i = 0; i < 2; ++i) { wd[i] = ref::d1(r, ev, i); cmp(n + "/F" + "xy"[i], S1::DevalF(en, *vs[i]), wd[i], 4); ref::parIsExpr() = true; auto ws = ref::d1(r, ev, i); ref::parIsExpr() = false; cmp(n + "/D" + "xy"[i], S1::Eval(*d[i]), ws, 20); }
    S1::PreComp(en); for (int i = 0; i < 2; ++i) cmp(n + "/R" + "xy"[i], S1::DevalR(en, *vs[i]), wd[i], 4);
  }
  fw::trace();
}
template <int O, class A, class B> const auto& op(const A& a, const B& b) { return bop<O>(a, b); }
template <int O> void one(fw::Emit& emit) {
  each(IS<I, U_, L_, F, D, T>{}, [&](auto kl) { each(IS<X, Q, E_, M, S>{}, [&](auto ka) {
    constexpr int K = decltype(kl)::value, A = decltype(ka)::value;
    for (int i = 0; i < nlit<K>(); ++i) {
      emit([=] { return string("lit/") + ln(K) + std::to_string(i) + ref::oname(O) + lkname(A); }, [=] { World w; auto l = lit<K>(i); Expression en{op<O>(l, leaf<A>(w))}; all(w, en, bin(O, num(val(l)), rleaf<A>(w))); });
      emit([=] { return string("lit/") + lkname(A) + ref::oname(O) + ln(K) + std::to_string(i); }, [=] { World w; auto l = lit<K>(i); Expression en{op<O>(leaf<A>(w), l)}; all(w, en, bin(O, rleaf<A>(w), num(val(l)))); });
    }
  }); });
}
// two literals of different types around one operand
template <int O1, int O2> void two(fw::Emit& emit) {
  auto pair = [&](auto k1, auto k2) {
    constexpr int A = decltype(k1)::value, B = decltype(k2)::value;
    emit([=] { return string("lit2/(") + ln(A) + ref::oname(O1) + "x)" + ref::oname(O2) + ln(B); }, [=] { World w; auto l = lit<A>(0); auto m = lit<B>(B == T ? 4 : 1); Expression en{op<O2>(op<O1>(l, w.x), m)}; all(w, en, bin(O2, bin(O1, num(val(l)), var(0)), num(val(m)))); });
    emit([=] { return string("lit2/") + ln(B) + ref::oname(O2) + "(x" + ref::oname(O1) + ln(A) + ")"; }, [=] { World w; auto l = lit<A>(0); auto m = lit<B>(B == T ? 4 : 1); Expression en{op<O2>(m, op<O1>(w.x, l))}; all(w, en, bin(O2, num(val(m)), bin(O1, var(0), num(val(l))))); });
  };
  std::integral_constant<int, I> i; std::integral_constant<int, D> d; std::integral_constant<int, T> t;
  pair(i, d); pair(d, t); pair(t, i);
}
// assigning and constructing from literals of every type
template <int K> void assign(fw::Emit& emit) {
  for (int i = 0; i < nlit<K>(); ++i) emit([=] { return string("assign/") + ln(K) + std::to_string(i); }, [=] {
    auto l = lit<K>(i); C v = val(l); World w; w.set(points()[0]); P r = bin(ref::ADD, bin(ref::MUL, var(0), par(0)), un(ref::SIN, var(0))); Expression en{w.x * w.p + sin(w.x)}; Expression& d = S1::SymDiff(en, w.x);
    auto look = [&](const string& n, C x, C p) { auto ev = World::env(points()[0]); ev.x[0] = x; ev.p[0] = p; cmp(n, S1::Eval(en), ref::value(r, ev)); auto wd = ref::d1(r, ev, 0); cmp(n + "/F", S1::DevalF(en, w.x), wd, 4); cmp(n + "/D", S1::Eval(d), wd, 4); S1::PreComp(en); cmp(n + "/R", S1::DevalR(en, w.x), wd, 4); fw::trans(4); fw::trace(); };
    C p0 = points()[0].p; w.x = l; look("var", v, p0); w.p = l; look("par", v, v); Variable a(l); Parameter b(l); Expression e2{a * b + a}; P r2 = bin(ref::ADD, bin(ref::MUL, var(0), par(0)), var(0)); auto ev = World::env(points()[0]); ev.x[0] = v; ev.p[0] = v; cmp("ctor", S1::Eval(e2), ref::value(r2, ev)); cmp("ctor/F", S1::DevalF(e2, a), ref::d1(r2, ev, 0), 4);
    Matrix<Variable> MV(1, 2); Matrix<Parameter> MP(1, 2); Matrix<Type> MT(1, 2); MV(0, 1) = l; MP(0, 1) = l; if constexpr (std::is_same_v<decltype(l), Type> || std::is_floating_point_v<decltype(l)>) MT(0, 1) = (Real)1 * l; else MT(0, 1) = (Real)l;
    fw::check(); if (!close(C_(S1::Eval(MV(0, 1))), v, 1) || !close(C_(S1::Eval(MP(0, 1))), v, 1) || !close(C_(MT(0, 1)), v, 1)) fw::fail("matrix entry", "not the number assigned"); });
}
// literals with matrices
template <int K> void mats(fw::Emit& emit) {
  for (int i = 0; i < nlit<K>(); ++i) for (int o = 0; o < 7; ++o) emit([=] { static const char* n[] = {"l+A", "A+l", "l-A", "A-l", "l*A", "A*l", "A/l"}; return string("mat/") + n[o] + " " + ln(K) + std::to_string(i); }, [=] {
    auto l = lit<K>(i); C v = val(l); if (o == 6 && ref::cabs_(v) == 0) { fw::skip(); return; } Matrix<Variable> A(2, 2); C a[4]; for (int k = 0; k < 4; ++k) { a[k] = q(0.5L + k * 0.75L, k * 0.25L - 0.5L); A[k] = T_(a[k]); }
    Matrix<Expression>* e; switch (o) { case 0: e = new Matrix<Expression>(l + A); break; case 1: e = new Matrix<Expression>(A + l); break; case 2: e = new Matrix<Expression>(l - A); break; case 3: e = new Matrix<Expression>(A - l); break; case 4: e = new Matrix<Expression>(l * A); break; case 5: e = new Matrix<Expression>(A * l); break; default: e = new Matrix<Expression>(A / l); }
    auto f = [&](C x) { switch (o) { case 0: case 1: return v + x; case 2: return v - x; case 3: return x - v; case 6: return x / v; default: return v * x; } }; C dv = o < 2 || o == 3 ? C(1) : o == 2 ? C(-1) : o == 6 ? C(1) / v : v;
    auto& g = CoolDiff::TensorR2::Eval(*e); fw::check(); for (int k = 0; k < 4; ++k) if (!close(C_(g[k]), f(a[k]), 10)) { fw::fail("value", "entry " + std::to_string(k) + " got " + str(C_(g[k])) + " want " + str(f(a[k]))); break; }
    auto& h = CoolDiff::TensorR2::DevalF(*e, A); fw::check(); for (int x = 0; x < 16; ++x) { int I_ = x / 4, J = x % 4, r = (I_ / 2) * 2 + J / 2, s = (I_ % 2) * 2 + J % 2; C wv = r == s ? dv : C(0); if (!close(C_(h[x]), wv, 10)) { fw::fail("derivative", "entry " + std::to_string(x) + " got " + str(C_(h[x])) + " want " + str(wv)); break; } }
    fw::trans(2); fw::trace(); delete e; });
}
#if PART == 0
// the operators themselves: every pair of a real and a complex number, either side
void arith(fw::Emit& emit) {
#if defined(USE_COMPLEX_MATH)
  static std::vector<Real> rs; if (rs.empty()) { for (double b : {0.0, 1.0, 2.0, 0.5, 3.25, 1e-3, 1e-8, 1e8, 7.0, 1e-30, 1e30}) { rs.push_back((Real)b); if (b != 0) rs.push_back((Real)-b); } rs.push_back((Real)-0.0); rs.push_back(std::numeric_limits<Real>::epsilon()); rs.push_back((Real)1 + std::numeric_limits<Real>::epsilon()); }
  for (size_t a = 0; a < rs.size(); ++a) emit([=] { return "arith/" + std::to_string(a); }, [=] {
    Real r = rs[a]; for (Real re : rs) for (Real im : rs) {
      Type z(re, im); C R((LD)r), Z((LD)re, (LD)im); auto chk = [&](const char* n, Type g, C wnt, LD mag) { fw::trans(); LD top = (LD)std::numeric_limits<Real>::max() / 8; if (!ref::fin(wnt) || ref::cabs_(wnt) > top || mag > top) { fw::skip(); return; } fw::check(); LD tol = 8 * (LD)std::numeric_limits<Real>::epsilon() * (ref::cabs_(wnt) + mag) + (LD)std::numeric_limits<Real>::min() * 8; if (!ref::fin(C_(g)) || ref::cabs_(C_(g) - wnt) > tol) fw::fail(string(n) + " r=" + std::to_string(r) + " z=" + str(Z), "got " + str(C_(g)) + " want " + str(wnt)); };
      LD m = std::max(ref::cabs_(R), ref::cabs_(Z)); chk("r+z", r + z, R + Z, m); chk("z+r", z + r, Z + R, m); chk("r-z", r - z, R - Z, m); chk("z-r", z - r, Z - R, m); chk("r*z", r * z, R * Z, 0); chk("z*r", z * r, Z * R, 0);
      LD lo = (LD)std::numeric_limits<Real>::min() * 1e6L; bool ok = ref::cabs_(Z) > 1e-25L && ref::cabs_(Z) < 1e25L; if (ok) chk("r/z", r / z, R / Z, 0); else fw::skip(); if (std::fabs((LD)r) > lo) chk("z/r", z / r, Z / R, 0); else fw::skip();
      bool same = re == r && im == 0; fw::check(); if ((r == z) != same || (z == r) != same || (r != z) == same || (z != r) == same) fw::fail("compare r=" + std::to_string(r) + " z=" + str(Z), "equality"); fw::trans(4);
    } fw::trace(); });
#else
  (void)emit;
#endif
}
void part0(fw::Emit& e) { arith(e); one<ref::ADD>(e); one<ref::SUB>(e); each(IS<I, U_, L_, F, D, T>{}, [&](auto k) { assign<decltype(k)::value>(e); }); }
#elif PART == 1
void part1(fw::Emit& e) { one<ref::MUL>(e); one<ref::DIV>(e); one<ref::POW>(e); each(IS<I, U_, L_, F, D, T>{}, [&](auto k) { mats<decltype(k)::value>(e); }); }
#elif PART == 2
void part2(fw::Emit& e) { each(IS<0, 1, 2, 3, 4>{}, [&](auto a) { each(IS<0, 1, 2, 3, 4>{}, [&](auto b) { two<decltype(a)::value, decltype(b)::value>(e); }); }); }
#elif PART == 3
// ---- real inputs: what a formula of real functions gives ----
struct RD { LD v, d[2]; bool ok = true; LD mx = 1; };
RD rc(LD v) { RD r; r.v = v; r.d[0] = r.d[1] = 0; return r; }
RD fin(RD r, const RD& a, const RD& b) { r.ok = a.ok && b.ok && std::isfinite(r.v); r.mx = std::max({a.mx, b.mx, std::fabs(r.v)}); for (LD d : r.d) { if (!std::isfinite(d)) r.ok = false; r.mx = std::max(r.mx, std::fabs(d)); } return r; }
RD rl(const RD& a, LD ka, const RD& b, LD kb, LD v) { RD r; r.v = v; for (int i = 0; i < 2; ++i) r.d[i] = ka * a.d[i] + kb * b.d[i]; return fin(r, a, b); }
RD rbin(int o, const RD& a, const RD& b) {
  switch (o) { case ref::ADD: return rl(a, 1, b, 1, a.v + b.v); case ref::SUB: return rl(a, 1, b, -1, a.v - b.v); case ref::MUL: return rl(a, b.v, b, a.v, a.v * b.v);
    case ref::DIV: { RD r = rl(a, 1 / b.v, b, -a.v / (b.v * b.v), a.v / b.v); if (std::fabs(b.v) < 1e-3L) r.ok = false; return r; }
    default: { bool cst = b.d[0] == 0 && b.d[1] == 0; LD v = std::pow(a.v, b.v); RD r; if (cst) r = rl(a, b.v == 0 ? 0 : b.v * std::pow(a.v, b.v - 1), b, 0, v); else r = rl(a, b.v * std::pow(a.v, b.v - 1), b, v * std::log(a.v), v); if (std::fabs(a.v) < 1e-3L) r.ok = false; return r; } }
}
RD run_(int u, const RD& a) {
  LD x = a.v, v, d, edge = 1; switch (u) {
    case ref::SIN: v = std::sin(x); d = std::cos(x); break; case ref::COS: v = std::cos(x); d = -std::sin(x); break; case ref::TAN: v = std::tan(x); d = 1 + v * v; edge = std::fabs(std::cos(x)); break;
    case ref::SINH: v = std::sinh(x); d = std::cosh(x); break; case ref::COSH: v = std::cosh(x); d = std::sinh(x); break; case ref::TANH: v = std::tanh(x); d = 1 - v * v; break;
    case ref::ASIN: v = std::asin(x); d = 1 / std::sqrt(1 - x * x); edge = 1 - x * x; break; case ref::ACOS: v = std::acos(x); d = -1 / std::sqrt(1 - x * x); edge = 1 - x * x; break; case ref::ATAN: v = std::atan(x); d = 1 / (1 + x * x); break;
    case ref::ASINH: v = std::asinh(x); d = 1 / std::sqrt(1 + x * x); break; case ref::ACOSH: v = std::acosh(x); d = 1 / std::sqrt(x * x - 1); edge = x - 1; break; case ref::ATANH: v = std::atanh(x); d = 1 / (1 - x * x); edge = 1 - x * x; break;
    case ref::SQRT: v = std::sqrt(x); d = 0.5L / v; edge = x; break; case ref::EXP: v = std::exp(x); d = v; break; case ref::LOG: v = std::log(x); d = 1 / x; edge = x; break; default: v = -x; d = -1; break; }
  RD r = rl(a, d, a, 0, v); if (edge < 1e-3L) r.ok = false; return r;
}
const LD RX[][2] = {{0.7L, 1.3L}, {-1.2L, 0.4L}, {0.5L, -0.25L}, {2.5L, -3}, {1.75L, 1}, {-0.6L, 2}, {3, 0.125L}, {0.25L, 1.5L}};
void look(World& w, Expression& en, const std::function<RD(RD, RD)>& f, const string& nm) {
  Expression* ds[2] = {&S1::SymDiff(en, w.x), &S1::SymDiff(en, w.y)}; Variable* vs[2] = {&w.x, &w.y};
  int k = 0; for (auto& pt : RX) {
    C X_ = q(pt[0]), Y_ = q(pt[1]); w.x = T_(X_); w.y = T_(Y_);
    RD a = rc((LD)(Real)pt[0]), b = rc((LD)(Real)pt[1]); a.d[0] = 1; b.d[1] = 1; RD r = f(a, b); string n = "pt" + std::to_string(k); fw::state(fw::hmix(fw::hstr(nm), k)); ++k; fw::trans(7);
    Type v = S1::Eval(en), F[2], R_[2], D[2]; for (int i = 0; i < 2; ++i) { F[i] = S1::DevalF(en, *vs[i]); D[i] = S1::Eval(*ds[i]); } S1::PreComp(en); for (int i = 0; i < 2; ++i) R_[i] = S1::DevalR(en, *vs[i]);
    if (!r.ok || r.mx > MAXSCALE) { fw::skip(); continue; }
    auto chk = [&](const string& m, Type g, LD wnt) { fw::check(); if (!close(C_(g), C(wnt), r.mx * r.mx * 4)) fw::fail(n + m, "got " + str(C_(g)) + ", the real formula gives " + str(C(wnt))); };
    chk("", v, r.v); for (int i = 0; i < 2; ++i) { string x(1, "xy"[i]); chk("/F" + x, F[i], r.d[i]); chk("/R" + x, R_[i], r.d[i]); chk("/D" + x, D[i], r.d[i]); }
  }
  fw::trace();
}
// A formula with its real counterpart. The literals stay of their own C++ type.
#define FORM(NM, EX, RF) emit([=] { return string("real/") + NM; }, [=] { World w; auto& x = w.x; auto& y = w.y; Expression en{EX}; look(w, en, [=](RD x, RD y) { (void)x; (void)y; return RF; }, NM); })
template <int O> void rbins(fw::Emit& emit) {
  string o = ref::oname(O);
  FORM("x" + o + "y", (op<O>(x, y)), rbin(O, x, y));
  each(IS<I, U_, F, D>{}, [&](auto kl) { constexpr int K = decltype(kl)::value; for (int i = 0; i < nlit<K>(); ++i) {
    auto l = lit<K>(i); string n = string(ln(K)) + std::to_string(i);
    FORM("x" + o + n, (op<O>(x, l)), rbin(O, x, rc(l))); FORM(n + o + "x", (op<O>(l, x)), rbin(O, rc(l), x));
    FORM("x*(y" + o + n + ")", (x * op<O>(y, l)), rbin(ref::MUL, x, rbin(O, y, rc(l)))); FORM("(" + n + o + "y)-x", (op<O>(l, y) - x), rbin(ref::SUB, rbin(O, rc(l), y), x));
  } });
}
template <int U> void runs(fw::Emit& emit) {
  string u = ref::uname(U);
  FORM(u + "(x)", (uop<U>(x)), run_(U, x)); FORM(u + "(x*y)", (uop<U>(x * y)), run_(U, rbin(ref::MUL, x, y))); FORM(u + "(x+2)", (uop<U>(x + 2)), run_(U, rbin(ref::ADD, x, rc(2))));
  FORM(u + "(x/4)", (uop<U>(x / 4)), run_(U, rbin(ref::DIV, x, rc(4)))); FORM(u + "(x)*y", (uop<U>(x) * y), rbin(ref::MUL, run_(U, x), y)); FORM("3-" + u + "(x)", (3 - uop<U>(x)), rbin(ref::SUB, rc(3), run_(U, x)));
  FORM("pow(" + u + "(x),2)", (pow(uop<U>(x), 2)), rbin(ref::POW, run_(U, x), rc(2))); FORM("y/" + u + "(0.5*x)", (y / uop<U>(0.5 * x)), rbin(ref::DIV, y, run_(U, rbin(ref::MUL, rc(0.5L), x))));
}
constexpr int NR = ref::NEG + 1;
void part3(fw::Emit& e) { each(IS<0, 1, 2, 3, 4>{}, [&](auto o) { rbins<decltype(o)::value>(e); }); each(std::make_integer_sequence<int, NR>{}, [&](auto u) { runs<decltype(u)::value>(e); }); }
#elif PART == 4
void enumAll(fw::Emit& e) { part0(e); part1(e); part2(e); part3(e); }
#endif
} // namespace mx
#if PART == 4
void enumerate(fw::Emit& e) { mx::enumAll(e); }
FW_MAIN
#endif
