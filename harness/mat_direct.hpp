// The matrix operations of the numeric layer, their inputs, and plain loops that say what they return.
#pragma once
#include "scalar_common.hpp"
#include <functional>
#include <array>
#include <numeric>
namespace M2 = CoolDiff::TensorR2; namespace MO = CoolDiff::TensorR2::MatOperators; namespace MB = CoolDiff::TensorR2::MatrixBasics;
using BK = CoolDiff::GlobalParameters::CPUHandlerType;
using ref::C; using ref::LD; using sc::C_; using sc::T_; using sc::q;
using MT = Matrix<Type>; using Emit = fw::Emit;
namespace {
const char* SP = "CPUMemoryStrategy";
std::string S(size_t i) { return std::to_string(i); }
void bk(int b) { CoolDiff::GlobalParameters::setCPUHandler(b ? BK::NAIVE : BK::EIGEN); }
const char* bkn(int b) { return b ? "n" : "e"; }
#if COOLDIFF_SCALAR_TYPE == 2
constexpr LD EPS = 1e-12L;
#else
constexpr LD EPS = 2e-5L;
#endif
struct N { size_t r, c; std::vector<C> e; N(size_t r = 0, size_t c = 0) : r(r), c(c), e(r * c, C(0)) {} C& at(size_t i, size_t j) { return e[i * c + j]; } C at(size_t i, size_t j) const { return e[i * c + j]; } };
C gen(size_t i, int salt) { unsigned h = (unsigned)(i * 37 + salt * 59 + 7); h = h * 2654435761u; h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; return q(((h & 1) ? -1 : 1) * (0.25L + ((h >> 1) & 1023) / 512.0L), ((int)((h >> 12) & 255) - 128) / 200.0L); }
// value patterns
enum { G0, GZ, ZR, ID, PM, NG, G1, NPAT };
N mk(size_t r, size_t c, int pat, int salt) {
  N m(r, c); for (size_t k = 0; k < m.e.size(); ++k) { C g = gen(k, salt); switch (pat) { case G0: case G1: m.e[k] = gen(k, salt + (pat == G1 ? 1000 : 0)); break; case GZ: m.e[k] = (k + salt) % 2 ? C(0) : g; break; case ZR: break; case ID: m.e[k] = k / c == k % c ? C(1) : C(0); break; case PM: m.e[k] = (k + salt) % 3 == 0 ? C(1) : (k + salt) % 3 == 1 ? C(-1) : C(0); break; case NG: m.e[k] = -q(std::abs((LD)
#if defined(USE_COMPLEX_MATH)
    g.real()
#else
    g
#endif
    )); break; } } return m;
}
// well conditioned, with every pivot pattern: row-permuted diagonally dominant matrices
N mkInv(size_t n, int perm, int salt) { N m(n, n); std::vector<size_t> p(n); std::iota(p.begin(), p.end(), 0); for (int i = 0; i < perm; ++i) std::next_permutation(p.begin(), p.end()); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) m.at(p[i], j) = (i == j ? q(2.5L + 0.5L * (LD)i) : C(0)) + (salt % 3 == 2 ? C(0) : gen(i * n + j, salt) * C(0.25L)); for (auto& x : m.e) x = C_(T_(x)); return m; }
MT* real(const N& m) { MT* p = new MT(m.r, m.c); for (size_t k = 0; k < m.e.size(); ++k) (*p)[k] = T_(m.e[k]); return p; }
// ---- operations ----
enum Op { ADD, SUB, MUL, KRON, HAD, SCADD, SCMUL, TRANS, DTRANS, CONV, DCONV, UNARY, INVERSE, DETER, TRACE, NOP };
const char* on(int o) { static const char* n[] = {"add", "sub", "mul", "kron", "hadamard", "scalaradd", "scalarmul", "transpose", "dervtranspose", "conv", "dervconv", "unary", "inverse", "det", "trace"}; return n[o]; }
bool eigenOnly(int o) { return o == INVERSE || o == DETER; }
struct In { int op; std::vector<N> m; C s{}; size_t g[6] = {}; };   // g: dtrans nrf ncf nrx ncx; conv sx sy px py; dconv nrx ncx sx sy px py
Type uf(Type x) { return x * x + (Type)2; }
C ufr(C x) { return x * x + C(2); }
N refConv(const N& a, const N& k, size_t sx, size_t sy, size_t px, size_t py) { N r((a.r + 2 * px - k.r) / sx + 1, (a.c + 2 * py - k.c) / sy + 1); for (size_t i = 0; i < r.r; ++i) for (size_t j = 0; j < r.c; ++j) { C s = 0; for (size_t u = 0; u < k.r; ++u) for (size_t v = 0; v < k.c; ++v) { long y = (long)(i * sx + u) - (long)px, x = (long)(j * sy + v) - (long)py; if (y < 0 || x < 0 || y >= (long)a.r || x >= (long)a.c) continue; s += a.at(y, x) * k.at(u, v); } r.at(i, j) = s; } return r; }
C refDet(N m) { C d = 1; size_t n = m.r; for (size_t i = 0; i < n; ++i) { size_t p = i; for (size_t r = i; r < n; ++r) if (ref::cabs_(m.at(r, i)) > ref::cabs_(m.at(p, i))) p = r; if (ref::cabs_(m.at(p, i)) == 0) return 0; if (p != i) { d = -d; for (size_t j = 0; j < n; ++j) std::swap(m.at(p, j), m.at(i, j)); } d *= m.at(i, i); for (size_t r = i + 1; r < n; ++r) { C f = m.at(r, i) / m.at(i, i); for (size_t j = i; j < n; ++j) m.at(r, j) -= f * m.at(i, j); } } return d; }
N refInv(N m) { size_t n = m.r; N r(n, n); for (size_t i = 0; i < n; ++i) r.at(i, i) = 1; for (size_t i = 0; i < n; ++i) { size_t p = i; for (size_t k = i; k < n; ++k) if (ref::cabs_(m.at(k, i)) > ref::cabs_(m.at(p, i))) p = k; for (size_t j = 0; j < n; ++j) { std::swap(m.at(p, j), m.at(i, j)); std::swap(r.at(p, j), r.at(i, j)); } C d = m.at(i, i); for (size_t j = 0; j < n; ++j) { m.at(i, j) /= d; r.at(i, j) /= d; } for (size_t k = 0; k < n; ++k) if (k != i) { C f = m.at(k, i); for (size_t j = 0; j < n; ++j) { m.at(k, j) -= f * m.at(i, j); r.at(k, j) -= f * r.at(i, j); } } } return r; }
N want(const In& x) {
  const N& a = x.m[0]; auto zip = [&](auto f) { N r(a.r, a.c); for (size_t k = 0; k < r.e.size(); ++k) r.e[k] = f(a.e[k], x.m[1].e[k]); return r; }; auto map = [&](auto f) { N r(a.r, a.c); for (size_t k = 0; k < r.e.size(); ++k) r.e[k] = f(a.e[k]); return r; };
  switch (x.op) {
    case ADD: return zip([](C a, C b) { return a + b; }); case SUB: return zip([](C a, C b) { return a - b; }); case HAD: return zip([](C a, C b) { return a * b; });
    case MUL: { const N& b = x.m[1]; N r(a.r, b.c); for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < b.c; ++j) for (size_t k = 0; k < a.c; ++k) r.at(i, j) += a.at(i, k) * b.at(k, j); return r; }
    case KRON: { const N& b = x.m[1]; N r(a.r * b.r, a.c * b.c); for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) for (size_t k = 0; k < b.r; ++k) for (size_t l = 0; l < b.c; ++l) r.at(i * b.r + k, j * b.c + l) = a.at(i, j) * b.at(k, l); return r; }
    case SCADD: return map([&](C v) { return x.s + v; }); case SCMUL: return map([&](C v) { return x.s * v; }); case UNARY: return map(ufr);
    case TRANS: { N r(a.c, a.r); for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) r.at(j, i) = a.at(i, j); return r; }
    case DTRANS: { size_t nrf = x.g[0], ncf = x.g[1], nrx = x.g[2], ncx = x.g[3]; N r(ncf * nrx, nrf * ncx); for (size_t i = 0; i < nrf; ++i) for (size_t j = 0; j < ncf; ++j) for (size_t l = 0; l < nrx; ++l) for (size_t m = 0; m < ncx; ++m) r.at(l + j * nrx, m + i * ncx) = a.at(l + i * nrx, m + j * ncx); return r; }
    case CONV: return refConv(a, x.m[1], x.g[0], x.g[1], x.g[2], x.g[3]);
    case DCONV: { size_t nrx = x.g[0], ncx = x.g[1]; const N &L = x.m[0], &dL = x.m[1], &R = x.m[2], &dR = x.m[3]; N r; for (size_t p = 0; p < nrx; ++p) for (size_t qq = 0; qq < ncx; ++qq) { N l(L.r, L.c), k(R.r, R.c); for (size_t i = 0; i < L.r; ++i) for (size_t j = 0; j < L.c; ++j) l.at(i, j) = dL.at(i * nrx + p, j * ncx + qq); for (size_t i = 0; i < R.r; ++i) for (size_t j = 0; j < R.c; ++j) k.at(i, j) = dR.at(i * nrx + p, j * ncx + qq);
        N u = refConv(l, R, x.g[2], x.g[3], x.g[4], x.g[5]), v = refConv(L, k, x.g[2], x.g[3], x.g[4], x.g[5]); if (!r.r) r = N(u.r * nrx, u.c * ncx); for (size_t i = 0; i < u.r; ++i) for (size_t j = 0; j < u.c; ++j) r.at(i * nrx + p, j * ncx + qq) = u.at(i, j) + v.at(i, j); } return r; }
    case INVERSE: return refInv(a); case DETER: { N r(1, 1); r.e[0] = refDet(a); return r; } default: { N r(1, 1); for (size_t i = 0; i < a.r; ++i) r.e[0] += a.at(i, i); return r; }
  }
}
void run(const In& x, const std::vector<MT*>& m, MT*& res) {
  switch (x.op) { case ADD: MO::MatrixAdd(m[0], m[1], res); break; case SUB: MO::MatrixSub(m[0], m[1], res); break; case MUL: MO::MatrixMul(m[0], m[1], res); break; case KRON: MO::MatrixKron(m[0], m[1], res); break; case HAD: MO::MatrixHadamard(m[0], m[1], res); break;
    case SCADD: MO::MatrixScalarAdd(T_(x.s), m[0], res); break; case SCMUL: MO::MatrixScalarMul(T_(x.s), m[0], res); break; case TRANS: MO::MatrixTranspose(m[0], res); break; case DTRANS: MO::MatrixDervTranspose(x.g[0], x.g[1], x.g[2], x.g[3], m[0], res); break;
    case CONV: MO::MatrixConv(x.g[0], x.g[1], x.g[2], x.g[3], m[0], m[1], res); break; case DCONV: MO::MatrixDervConv(x.g[0], x.g[1], x.g[2], x.g[3], x.g[4], x.g[5], m[0], m[1], m[2], m[3], res); break;
    case UNARY: MO::MatrixUnary(m[0], FunctionType(uf), res); break; case INVERSE: MO::MatrixInverse(m[0], res); break; case DETER: MO::MatrixDet(m[0], res); break; default: MO::MatrixTrace(m[0], res); }
}
LD scale(const In& x, const N& w) { LD s = 1, p = 1; for (auto& m : x.m) { LD t = 1; for (auto& v : m.e) t = std::max(t, ref::cabs_(v)); p *= t; s = std::max(s, (LD)m.e.size()); } for (auto& v : w.e) p = std::max(p, ref::cabs_(v)); return p * s; }
bool same(const std::string& sub, const MT& g, const N& w, LD sc) {
  fw::check(); if (g.getNumRows() != w.r || g.getNumColumns() != w.c) { fw::fail(sub, "shape " + S(g.getNumRows()) + "x" + S(g.getNumColumns()) + " want " + S(w.r) + "x" + S(w.c)); return false; }
  for (size_t k = 0; k < w.e.size(); ++k) { C v = C_(g.getMatrixPtr()[k]); if (!ref::fin(v) || ref::cabs_(v - w.e[k]) > EPS * sc) { fw::fail(sub, "entry " + S(k) + " got " + sc::str(v) + " want " + sc::str(w.e[k])); return false; } } return true;
}
std::string describe(const In& x) { std::string s = on(x.op); for (auto& m : x.m) s += " " + S(m.r) + "x" + S(m.c); for (size_t g : x.g) s += (&g == x.g ? " g" : ",") + S(g); return s; }
// result-buffer states before the call
enum { R_NULL, R_SAME, R_SHAPE, R_FEWER, R_MORE, R_TWICE, NRS };
MT* buffer(int st, const N& w) {
  size_t n = w.r * w.c; size_t r = w.r, c = w.c; switch (st) { case R_NULL: return nullptr; case R_SHAPE: r = n; c = 1; break; case R_FEWER: r = 1; c = n > 1 ? n - 1 : 2; break; case R_MORE: r = w.r + 1; c = w.c + 1; break; }
  MT* p = new MT(r, c); for (size_t k = 0; k < r * c; ++k) (*p)[k] = T_(q(-77.5L - (LD)k, 3)); return p;
}
// run one operation in every buffer state and back end; inputs must survive
void all(const In& x, const std::string& nm, bool states = true) {
  N w = want(x); LD s = scale(x, w); std::vector<MT*> m; for (auto& a : x.m) m.push_back(real(a)); fw::trace(); fw::state(fw::hstr(nm));
  for (int b = 0; b < (eigenOnly(x.op) ? 1 : 2); ++b) { bk(b); for (int st = 0; st < (states ? NRS : 1); ++st) { MT* res = buffer(st == R_TWICE ? R_SAME : st, w); run(x, m, res); fw::trans(); std::string tg = nm + "/" + bkn(b) + S(st); if (!res) { fw::fail(tg, "no result"); continue; } same(tg, *res, w, s); if (st == R_TWICE) { run(x, m, res); fw::trans(); same(tg + "again", *res, w, s); } }
    if (x.op == ADD) for (int side = 0; side < 3; ++side) { MT* res = real(x.m[side == 1]); std::vector<MT*> mm = m; if (side != 1) mm[0] = res; if (side >= 1) mm[1] = res; N ww = w; if (side == 2) for (size_t k = 0; k < ww.e.size(); ++k) ww.e[k] = x.m[0].e[k] + x.m[0].e[k]; MT* r0 = res; run(x, mm, res); fw::trans(); same(nm + "/" + bkn(b) + "inplace" + S(side), *res, ww, s); if (res != r0) fw::fail(nm + "/inplace", "another matrix came back"); delete r0; } }
  for (size_t i = 0; i < m.size(); ++i) { same(nm + "/operand" + S(i), *m[i], x.m[i], 0); delete m[i]; }
}
// every shape of an operation up to dimension d
void shapesOf(int op, size_t d, const std::function<void(const std::vector<std::pair<size_t, size_t>>&, const std::array<size_t, 6>&)>& f) {
  switch (op) {
    case ADD: case SUB: case HAD: for (size_t r = 1; r <= d; ++r) for (size_t c = 1; c <= d; ++c) f({{r, c}, {r, c}}, {}); break;
    case MUL: for (size_t r = 1; r <= d; ++r) for (size_t c = 1; c <= d; ++c) for (size_t k = 1; k <= d; ++k) f({{r, c}, {c, k}}, {}); break;
    case KRON: for (size_t r = 1; r <= d; ++r) for (size_t c = 1; c <= d; ++c) for (size_t k = 1; k <= d; ++k) for (size_t l = 1; l <= d; ++l) f({{r, c}, {k, l}}, {}); break;
    case SCADD: case SCMUL: case TRANS: case UNARY: for (size_t r = 1; r <= d; ++r) for (size_t c = 1; c <= d; ++c) f({{r, c}}, {}); break;
    case INVERSE: case DETER: case TRACE: for (size_t r = 1; r <= d; ++r) f({{r, r}}, {}); break;
    case DTRANS: for (size_t a = 1; a <= d; ++a) for (size_t b = 1; b <= d; ++b) for (size_t c = 1; c <= d; ++c) for (size_t e = 1; e <= d; ++e) f({{a * c, b * e}}, {a, b, c, e}); break;
    case CONV: for (size_t r = 1; r <= d + 1; ++r) for (size_t c = 1; c <= d + 1; ++c) for (size_t k = 1; k <= d; ++k) for (size_t l = 1; l <= d; ++l) for (size_t sx = 1; sx <= 3; ++sx) for (size_t sy = 1; sy <= 3; ++sy) for (size_t px = 0; px <= 2; ++px) for (size_t py = 0; py <= 2; ++py) if (r + 2 * px >= k && c + 2 * py >= l) f({{r, c}, {k, l}}, {sx, sy, px, py, 0, 0}); break;
    case DCONV: for (size_t r = 1; r <= d; ++r) for (size_t c = 1; c <= d; ++c) for (size_t k = 1; k <= d; ++k) for (size_t l = 1; l <= d; ++l) for (size_t sx = 1; sx <= 2; ++sx) for (size_t sy = 1; sy <= 2; ++sy) for (size_t px = 0; px <= 1; ++px) for (size_t py = 0; py <= 1; ++py) for (size_t nx = 1; nx <= 2; ++nx) for (size_t ny = 1; ny <= 2; ++ny) if (r + 2 * px >= k && c + 2 * py >= l) f({{r, c}, {r * nx, c * ny}, {k, l}, {k * nx, l * ny}}, {nx, ny, sx, sy, px, py}); break;
  }
}
In input(int op, const std::vector<std::pair<size_t, size_t>>& sh, const std::array<size_t, 6>& g, const std::vector<int>& pat, int salt) { In x; x.op = op; for (size_t i = 0; i < sh.size(); ++i) x.m.push_back(eigenOnly(op) ? mkInv(sh[i].first, pat[i], salt) : mk(sh[i].first, sh[i].second, pat[i], salt * 7 + (int)i * 31)); std::copy(g.begin(), g.end(), x.g); x.s = q(1.25L, -0.5L); return x; }
} // namespace
