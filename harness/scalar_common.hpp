// Glue between the reference model and the real CoolDiff scalar API.
#pragma once
#include <utility>
#include "CoolDiff.hpp"
#include "fw.hpp"
#include "ref_scalar.hpp"
namespace S1 = CoolDiff::TensorR1;
namespace sc {
using ref::C; using ref::LD; using ref::P;
#if COOLDIFF_SCALAR_TYPE == 2
constexpr LD TOL = 2e-10L, MAXSCALE = 1e6L;
#else
constexpr LD TOL = 4e-5L, MAXSCALE = 60.L;
#endif
#if defined(USE_COMPLEX_MATH)
inline Type T_(const C& c) { return Type((Real)c.real(), (Real)c.imag()); }
inline C C_(const Type& t) { return C(t.real(), t.imag()); }
inline std::string str(const C& c) { char b[96]; snprintf(b, 96, "(%.12Lg,%.12Lg)", c.real(), c.imag()); return b; }
#else
inline Type T_(const C& c) { return (Type)c; }
inline C C_(const Type& t) { return (C)t; }
inline std::string str(const C& c) { char b[96]; snprintf(b, 96, "%.12Lg", c); return b; }
#endif
inline bool close(const C& got, const C& want, LD scale) { if (!ref::fin(got)) return false; return ref::cabs_(got - want) <= TOL * scale; }
inline bool usable(const ref::R& r) { return r.ok && r.scale <= MAXSCALE; }
// Compare one observation with the model; outside the formula's domain nothing is claimed.
inline bool cmp(const std::string& sub, const Type& got, const ref::R& want, LD slack = 1) {
  if (!usable(want)) { fw::skip(); return true; }
  fw::check();
  if (!close(C_(got), want.v, want.scale * slack)) { fw::fail(sub, "got " + str(C_(got)) + " want " + str(want.v)); return false; }
  return true;
}
inline fw::u64 hC(const C& c) {
#if defined(USE_COMPLEX_MATH)
  double a = (double)c.real(), b = (double)c.imag();
#else
  double a = (double)c, b = 0;
#endif
  fw::u64 x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return fw::hmix(x, y);
}
// quantise reference values to the build's precision, so that model and code start from the same numbers
inline C q(LD a, LD b = 0) {
#if defined(USE_COMPLEX_MATH)
  return C((Real)a, (Real)b);
#else
  (void)b; return (Real)a;
#endif
}
} // namespace sc
