// What the matrix harnesses compare: the model of a formula, whole-matrix comparison, operands of every kind.
#pragma once
#include "mat_any.hpp"
namespace ma {
using BK = CoolDiff::GlobalParameters::CPUHandlerType;
#if COOLDIFF_SCALAR_TYPE == 2
constexpr LD EPS = 4e-12L;
#else
constexpr LD EPS = 1e-4L;
#endif
inline std::string S(size_t i) { return std::to_string(i); }
inline bool eq(const Type& g, C w, LD mx) { if (!ref::fin(C_(g))) return false; return ref::cabs_(C_(g) - w) <= EPS * (1 + mx); }
// one comparison of a whole matrix; `at(i,j)` gives the expected entry
template <class F> void cmpM(const std::string& sub, const Matrix<Type>& g, size_t r, size_t c, F at, LD mx) {
  fw::check();
  if (g.getNumRows() != r || g.getNumColumns() != c) { fw::fail(sub, "shape " + S(g.getNumRows()) + "x" + S(g.getNumColumns()) + " want " + S(r) + "x" + S(c)); return; }
  for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) { C w = at(i, j); Type v = g.getMatrixPtr()[i * c + j]; if (!eq(v, w, mx)) { fw::fail(sub, "(" + S(i) + "," + S(j) + ") got " + sc::str(C_(v)) + " want " + sc::str(w)); return; } }
}
const LD MAXM = 1e5L;
struct Model { bool ok; RM m; LD mx; };
inline Model model(World& w, const Val& v, Mode mode, bool partials) {
  w.mode = mode; int n = 0; w.sseed[0] = w.sseed[1] = -1;
  if (partials) { for (auto* l : w.leaves) { bool seeded = mode == REV || l->kind == 'V'; l->seed = seeded ? n : -1; if (seeded) n += (int)(l->r * l->c); } w.sseed[0] = n++; w.sseed[1] = n++; for (auto& m : w.mid) m.second = n++; }
  else for (auto* l : w.leaves) l->seed = -1;
  mr::NS() = n; ref::cx() = ref::Cx(); Model r; r.m = v.f(w); for (auto& e : r.m.e) { ref::note(e.v); for (auto& d : e.d) ref::note(d); }
  r.mx = ref::cx().mx; r.ok = !ref::cx().bad && r.mx < MAXM; return r;
}
// operand kinds of the tests: leaves, a named formula M, an unnamed node N
inline const char* const KINDS = "TVPEAMN";
inline Val K(World& w, char k, size_t r, size_t c, int idx) {
  if (k == 'M' || k == 'N') { Val v = bin(w, HAD, V(w, 'V', r, c, 0), V(w, 'V', r, c, 2)); if (k == 'N') return v; Val n = named(w, v); if (r * c == 1) w.mid.push_back({n.p, -1}); return n; }
  if (k == 'A' || k == 'E') idx = 0;
  return V(w, k, r, c, idx);
}
} // namespace ma
