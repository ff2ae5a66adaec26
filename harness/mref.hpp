// Reference model for matrix formulas: plain loops over dual numbers with one partial per seed.
// A seed is one entry of one matrix (or one scalar, or one entry of a named intermediate).
#pragma once
#include "ref_scalar.hpp"
#include <functional>
namespace mr {
using ref::C; using ref::LD; using ref::cx; using ref::note;
inline int& NS() { static int n = 0; return n; }
struct Du { C v{}; std::vector<C> d; Du() : d(NS(), C(0)) {} explicit Du(C c) : v(c), d(NS(), C(0)) {} };
inline Du cst(C c) { return Du(c); }
inline Du lin(const Du& a, C ka, const Du& b, C kb, C v) { Du r(v); for (int i = 0; i < NS(); ++i) { r.d[i] = a.d[i] * ka + b.d[i] * kb; note(r.d[i]); } note(v); return r; }
inline Du lin(const Du& a, C ka, C v) { Du r(v); for (int i = 0; i < NS(); ++i) { r.d[i] = a.d[i] * ka; note(r.d[i]); } note(v); return r; }
inline Du operator+(const Du& a, const Du& b) { return lin(a, C(1), b, C(1), a.v + b.v); }
inline Du operator-(const Du& a, const Du& b) { return lin(a, C(1), b, C(-1), a.v - b.v); }
inline Du operator*(const Du& a, const Du& b) { return lin(a, b.v, b, a.v, a.v * b.v); }
inline Du operator/(const Du& a, const Du& b) { if (ref::cabs_(b.v) < 1e-3L) { cx().bad = true; return cst(C(0)); } C q = a.v / b.v; return lin(a, C(1) / b.v, b, -q / b.v, q); }
inline Du fn(int u, const Du& a) { C dv = ref::du<C>(u, a.v); C v = ref::ufc(u, a.v); return lin(a, dv, v); }
struct RM { size_t r = 0, c = 0; std::vector<Du> e; RM() {} RM(size_t r_, size_t c_) : r(r_), c(c_), e(r_ * c_) {} Du& at(size_t i, size_t j) { return e[i * c + j]; } const Du& at(size_t i, size_t j) const { return e[i * c + j]; } };
template <class F> RM zip(const RM& a, const RM& b, F f) { RM r(a.r, a.c); for (size_t k = 0; k < r.e.size(); ++k) r.e[k] = f(a.e[k], b.e[k]); return r; }
template <class F> RM map(const RM& a, F f) { RM r(a.r, a.c); for (size_t k = 0; k < r.e.size(); ++k) r.e[k] = f(a.e[k]); return r; }
inline RM mul(const RM& a, const RM& b) { RM r(a.r, b.c); for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < b.c; ++j) { Du s; for (size_t k = 0; k < a.c; ++k) s = s + a.at(i, k) * b.at(k, j); r.at(i, j) = s; } return r; }
inline RM tr(const RM& a) { RM r(a.c, a.r); for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) r.at(j, i) = a.at(i, j); return r; }
inline RM kron(const RM& a, const RM& b) { RM r(a.r * b.r, a.c * b.c); for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) for (size_t k = 0; k < b.r; ++k) for (size_t l = 0; l < b.c; ++l) r.at(i * b.r + k, j * b.c + l) = a.at(i, j) * b.at(k, l); return r; }
inline Du det(const RM& a) { if (a.r == 1) return a.e[0]; Du s; for (size_t j = 0; j < a.c; ++j) { RM m(a.r - 1, a.c - 1); for (size_t i = 1; i < a.r; ++i) for (size_t k = 0, kk = 0; k < a.c; ++k) if (k != j) m.at(i - 1, kk++) = a.at(i, k); Du t = a.at(0, j) * det(m); s = (j % 2) ? s - t : s + t; } return s; }
inline RM inv(const RM& a) { Du d = det(a); if (ref::cabs_(d.v) < 0.05L) { cx().bad = true; } RM r(a.r, a.c); if (a.r == 1) { r.e[0] = cst(C(1)) / d; return r; }
  for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) { RM m(a.r - 1, a.c - 1); for (size_t k = 0, kk = 0; k < a.r; ++k) if (k != i) { for (size_t l = 0, ll = 0; l < a.c; ++l) if (l != j) m.at(kk, ll++) = a.at(k, l); ++kk; } Du t = det(m) / d; r.at(j, i) = ((i + j) % 2) ? cst(C(0)) - t : t; } return r; }
inline RM ident(size_t n) { RM r(n, n); for (size_t i = 0; i < n; ++i) r.at(i, i).v = C(1); return r; }
inline RM fill(size_t n, size_t m, C v) { RM r(n, m); for (auto& e : r.e) e.v = v; return r; }
inline RM conv(const RM& a, const RM& k, size_t sx, size_t sy, size_t px, size_t py) { size_t R = (a.r + 2 * px - k.r) / sx + 1, Cc = (a.c + 2 * py - k.c) / sy + 1; RM o(R, Cc);
  for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < Cc; ++j) { Du s; for (size_t p = 0; p < k.r; ++p) for (size_t q = 0; q < k.c; ++q) { long x = (long)(i * sx + p) - (long)px, y = (long)(j * sy + q) - (long)py; if (x >= 0 && y >= 0 && x < (long)a.r && y < (long)a.c) s = s + a.at(x, y) * k.at(p, q); } o.at(i, j) = s; } return o; }
} // namespace mr
