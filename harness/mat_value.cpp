// Value semantics of the matrix classes (M08): every sequence of construct / copy / move / assign / self-assign /
// swap / destroy / write / query over three slots, for every element kind, against a store model.
#include "scalar_common.hpp"
#include "hist.hpp"
#include <functional>
#include <memory>
namespace M2 = CoolDiff::TensorR2; namespace M1 = CoolDiff::TensorR1;
using ref::C; using ref::LD; using sc::C_; using sc::T_; using sc::q; using Emit = fw::Emit;
namespace {
#if COOLDIFF_SCALAR_TYPE == 2
constexpr LD EPS = 1e-11L;
#else
constexpr LD EPS = 1e-4L;
#endif
std::string S(size_t i) { return std::to_string(i); }
C gen(size_t i) { unsigned h = (unsigned)(i * 2654435761u + 977u); h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; return q(0.3L + (h & 255) / 200.0L, ((int)((h >> 8) & 63) - 32) / 64.0L); }
bool near(C a, C b) { return ref::fin(a) && ref::cabs_(a - b) <= EPS * (1 + ref::cabs_(b)); }
inline LD re(C x) {
#if defined(USE_COMPLEX_MATH)
  return x.real();
#else
  return x;
#endif
}
using Cell = std::shared_ptr<C>; using Cells = std::vector<Cell>;
struct Mat { size_t r = 0, c = 0; std::vector<C> v; };
void cmp(const std::string& h, const Matrix<Type>& g, const Mat& w) {
  fw::check(); if (g.getNumRows() != w.r || g.getNumColumns() != w.c) { fw::fail(h, "shape " + S(g.getNumRows()) + "x" + S(g.getNumColumns()) + " want " + S(w.r) + "x" + S(w.c)); return; }
  for (size_t k = 0; k < w.v.size(); ++k) { C x = C_(g.getMatrixPtr()[k]); if (!near(x, w.v[k])) { fw::fail(h, "entry " + S(k) + " got " + sc::str(x) + " want " + sc::str(w.v[k])); return; } }
}
// ---- matrices of numbers, variables, parameters ----
enum { CC, MC, CA, MA, SWAP, DEL, NEW, WR, EVF, DF, DF2, RG, RG2A, RG2B, EVL, EVL2 };
struct Op { int k, i, j; };
const char* const KN[] = {"copy", "move", "=", "=move ", "swap", "del", "new", "write", "Eval(F)", "dF", "dG2", "DevalR(G)", "DevalR(G2,a)", "DevalR(G2,b)", "Eval", "shape"};
std::string slot(int i) { return std::string(1, "abc"[i]); }
std::string opn(const Op& o) {
  switch (o.k) { case CC: return slot(o.i) + "=new copy of " + slot(o.j); case MC: return slot(o.i) + "=new from move " + slot(o.j); case CA: return slot(o.i) + "=" + slot(o.j); case MA: return slot(o.i) + "=move(" + slot(o.j) + ")"; case SWAP: return "swap(" + slot(o.i) + "," + slot(o.j) + ")";
    case DEL: case NEW: case WR: case EVL: case EVL2: return std::string(KN[o.k]) + " " + slot(o.i) + (o.k == NEW ? S(o.j) : ""); default: return KN[o.k]; }
}
template <class K> struct Leafs : hist::WorldBase {
  using M = Matrix<K>; static constexpr bool isV = std::is_same_v<K, Variable>, isT = std::is_same_v<K, Type>;
  struct Slot { std::unique_ptr<M> p; char st = '-'; size_t r = 0, c = 0; Cells x; };
  Slot s[3]; int next = 50; size_t bc; std::vector<Op> ops; bool ext; Type buf[6]; Cells bufx;
  Matrix<Expression>*F = nullptr, *G = nullptr, *G2 = nullptr; Matrix<Variable> Z{1, 2};
  static C val(const K& k) { if constexpr (isT) return C_(k); else return C_(M1::Eval(const_cast<K&>(k))); }
  Cells cells(size_t n, int salt) { Cells r; for (size_t k = 0; k < n; ++k) r.push_back(std::make_shared<C>(gen(salt * 10 + k))); return r; }
  void fresh(int i, size_t r, size_t c, int salt) { s[i].p.reset(new M(r, c)); s[i].st = 'L'; s[i].r = r; s[i].c = c; s[i].x = cells(r * c, salt); for (size_t k = 0; k < r * c; ++k) (*s[i].p)[k] = T_(*s[i].x[k]); }
  Leafs(int variant) {                           // 0: same shapes, 1: different shapes, 2: the second slot sees a buffer of the caller (numbers)
    ext = variant == 2; fresh(0, 2, 2, 1); Z[0] = T_(C(1)); Z[1] = T_(C(2));
    if (ext) { if constexpr (isT) { bufx = cells(6, 2); for (int k = 0; k < 6; ++k) buf[k] = T_(*bufx[k]); s[1].p.reset(new M(2, 3, buf)); s[1].st = 'L'; s[1].r = 2; s[1].c = 3; s[1].x = bufx; } }
    else fresh(1, variant == 1 ? 2 : 2, variant == 1 ? 3 : 2, 2);
    bc = s[1].c; F = new Matrix<Expression>(SinM(*s[0].p) + *s[0].p); G = new Matrix<Expression>(Sigma(*s[0].p ^ *s[0].p)); G2 = new Matrix<Expression>(Sigma(SinM(*s[0].p)) * Sigma(*s[1].p));
    for (int j = 0; j < 2; ++j) { ops.push_back({CC, 2, j}); ops.push_back({MC, 2, j}); }
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { ops.push_back({CA, i, j}); ops.push_back({MA, i, j}); if (i < j) ops.push_back({SWAP, i, j}); }
    ops.push_back({DEL, 2, 0}); ops.push_back({NEW, 2, 0}); ops.push_back({NEW, 2, 1}); for (int i = 0; i < 3; ++i) ops.push_back({WR, i, 0});
    for (int k = EVF; k <= RG2B; ++k) if (isV || (k != DF2)) ops.push_back({k, 0, 0}); ops.push_back({EVL, 0, 0}); ops.push_back({EVL, 2, 0});
  }
  ~Leafs() override { delete F; delete G; delete G2; }
  int nops() const override { return (int)ops.size(); }
  std::string name(int o) const override { return opn(ops[o]); }
  bool L(int i) const { return s[i].st == 'L'; }
  bool fits(int i) const { return L(i) && s[i].r == 2 && s[i].c == (i == 0 ? 2 : bc); }   // formulas are over the shapes they were written for
  bool enabled(int o) const override { const Op& p = ops[o]; switch (p.k) { case CC: return s[2].st == '-' && s[p.j].st != '-'; case MC: return s[2].st == '-' && L(p.j); case CA: return s[p.i].st != '-' && s[p.j].st != '-' && (L(p.i) || L(p.j)) && !(ext && p.i == p.j && s[p.i].x == bufx); case MA: return s[p.i].st != '-' && L(p.j) && !(ext && p.i == p.j && s[p.i].x == bufx); case SWAP: return s[p.i].st != '-' && s[p.j].st != '-' && (L(p.i) || L(p.j)); case DEL: return s[2].st != '-'; case NEW: return s[2].st == '-'; case WR: case EVL: return L(p.i); case DF2: case RG2A: case RG2B: return fits(0) && fits(1); default: return fits(0); } }
  Cells dup(const Cells& x) { if (isV) return x; Cells r; for (auto& c : x) r.push_back(std::make_shared<C>(*c)); return r; }
  void meta(int i, int j) { s[i].st = s[j].st; s[i].r = s[j].r; s[i].c = s[j].c; s[i].x = s[j].x; }
  // partial derivative of a sum over cells of a: sum over positions k of w[k] * [cell k is the cell asked for]
  Mat grad(const Slot& of, std::vector<std::pair<const Slot*, std::vector<C>>> terms) { Mat m; m.r = of.r; m.c = of.c; for (auto& cell : of.x) { C t = 0; for (auto& tm : terms) for (size_t k = 0; k < tm.second.size(); ++k) if (tm.first->x[k] == cell) t += tm.second[k]; m.v.push_back(t); } return m; }
  void contents(const std::string& h) {
    for (int i = 0; i < 3; ++i) if (L(i)) { auto& m = *s[i].p; fw::check(); if (m.getNumRows() != s[i].r || m.getNumColumns() != s[i].c || m.getNumElem() != s[i].r * s[i].c) { fw::fail(h + "/" + slot(i), "shape " + S(m.getNumRows()) + "x" + S(m.getNumColumns())); continue; } for (size_t k = 0; k < s[i].x.size(); ++k) { C g = val(m[k]); if (!near(g, *s[i].x[k])) { fw::fail(h + "/" + slot(i), "entry " + S(k) + " holds " + sc::str(g) + " want " + sc::str(*s[i].x[k])); break; } } }
    if (ext) { fw::check(); for (int k = 0; k < 6; ++k) if (!near(C_(buf[k]), *bufx[k])) { fw::fail(h + "/buffer", "entry " + S(k) + " holds " + sc::str(C_(buf[k]))); break; } }
  }
  void apply(int o, bool check, const std::string& h) override {
    const Op& p = ops[o]; Slot &a = s[p.i], &b = s[p.j];
    switch (p.k) {
      case CC: a.p.reset(new M(*b.p)); meta(p.i, p.j); a.x = dup(b.x); break;
      case MC: a.p.reset(new M(std::move(*b.p))); meta(p.i, p.j); b.st = 'm'; break;
      case CA: *a.p = *b.p; if (p.i != p.j) { meta(p.i, p.j); a.x = dup(b.x); } break;
      case MA: *a.p = std::move(*b.p); if (p.i != p.j) meta(p.i, p.j); b.st = 'm'; break;
      case SWAP: std::swap(*a.p, *b.p); std::swap(a.st, b.st); std::swap(a.r, b.r); std::swap(a.c, b.c); std::swap(a.x, b.x); break;
      case DEL: a.p.reset(); a.st = '-'; break;
      case NEW: fresh(p.i, p.j ? 3 : 2, 2, next++); break;
      case WR: { C x = gen(next++); size_t k = a.x.size() - 1; *a.x[k] = x; (*a.p)[k] = T_(x); break; }
      case EVF: { auto& g = M2::Eval(*F); if (check) { Mat m{a.r, a.c, {}}; for (auto& x : a.x) m.v.push_back(std::sin(*x) + *x); cmp(h, g, m); } break; }
      case DF: if constexpr (isV) { auto& g = M2::DevalF(*F, *s[0].p); if (check) { size_t r = a.r, c = a.c; Mat m{r * r, c * c, std::vector<C>(r * r * c * c, C(0))}; for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) for (size_t x = 0; x < r; ++x) for (size_t y = 0; y < c; ++y) if (a.x[i * c + j] == a.x[x * c + y]) m.v[(i * r + x) * (c * c) + j * c + y] = std::cos(*a.x[i * c + j]) + C(1); cmp(h, g, m); } }
        else { auto& g = M2::DevalF(*F, Z); if (check) cmp(h, g, Mat{a.r, a.c * 2, std::vector<C>(a.r * a.c * 2, C(0))}); } break;
      case RG: { M2::PreComp(*G); auto& g = M2::DevalR(*G, *s[0].p); if (check) { std::vector<C> w; for (auto& x : a.x) w.push_back(C(2) * *x); cmp(h, g, grad(s[0], {{&s[0], w}})); } break; }
      case DF2: case RG2A: case RG2B: { int of = p.k == RG2A ? 0 : 1; const Matrix<Type>* g; if (p.k != DF2) M2::PreComp(*G2); if constexpr (isV) g = p.k == DF2 ? &M2::DevalF(*G2, *s[1].p) : &M2::DevalR(*G2, *s[of].p); else g = &M2::DevalR(*G2, *s[of].p);
        if (check) { C sa = 0, sb = 0; for (auto& x : s[0].x) sa += std::sin(*x); for (auto& x : s[1].x) sb += *x; std::vector<C> wa, wb(s[1].x.size(), sa); for (auto& x : s[0].x) wa.push_back(std::cos(*x) * sb); cmp(h, *g, grad(s[of], {{&s[0], wa}, {&s[1], wb}})); } break; }
      case EVL: { auto& g = M2::Eval(*a.p); if (check) { Mat m{a.r, a.c, {}}; for (auto& x : a.x) m.v.push_back(*x); cmp(h, g, m); } break; }
    }
    if (check) contents(h);
  }
  fw::u64 state() const override { fw::u64 h = 7; std::map<const C*, int> id; for (auto& t : s) { h = fw::hmix(h, t.st * 64 + t.r * 8 + t.c); if (t.st == 'L') for (auto& x : t.x) { auto it = id.emplace(x.get(), (int)id.size()).first; h = fw::hmix(h, it->second * 1000003 + (fw::u64)(re(*x) * 1e6)); } } return h; }
};
// ---- matrix expressions: each slot has a meaning; a copy stands for its source, which has to stay as it is ----
enum { DEF = 40, EVG, DXG, RXG, REG, EVE, DXE, RXE, SHP, ERASE };
struct Exprs : hist::WorldBase {
  using M = Matrix<Expression>; int var; bool one; size_t R, Cn; Matrix<Variable> X, Y; Matrix<Expression> entry; std::vector<C> x, y;
  // a meaning: a list of definitions composed in order (only plain ones here): formula id 0..
  struct Slot { std::unique_ptr<M> p; char st = '-'; int f = -1; std::vector<int> src; };
  Slot s[3]; std::vector<Op> ops; M* G = nullptr; int nf; Expression e0, e1, e2, e3;
  Exprs(int v, bool few) : var(v), one(v == 1), R(one ? 1 : 2), Cn(one ? 1 : 2), X(2, 2), Y(2, 2), entry(2, 2) {
    for (int k = 0; k < 4; ++k) { x.push_back(gen(k + 3)); y.push_back(gen(k + 33)); X[k] = T_(x[k]); Y[k] = T_(y[k]); }
    entry(0, 0) = X[0] * Y[1]; entry(0, 1) = X[1] + Y[0]; entry(1, 0) = X[2] * X[3]; entry(1, 1) = Y[3] + Y[2];
    nf = one ? 3 : 5; for (int i = 0; i < 2; ++i) def(i, i); G = one ? new M(*s[0].p * SinM(*s[0].p) + *s[1].p) : new M(SinM(*s[0].p) + *s[0].p);
    if (few) {   // fewer operations, one step deeper
      ops = {{CC, 2, 0}, {CA, 0, 1}, {CA, 1, 0}, {CA, 0, 0}, {MA, 0, 1}, {SWAP, 0, 1}, {DEF, 0, 2}, {DEF, 2, 0}, {DEF, 1, nf - 1}, {CA, 2, 1}, {EVG, 0, 0}, {DXG, 0, 0}, {EVE, 0, 0}, {EVE, 1, 0}, {EVE, 2, 0}, {DXE, 2, 0}};
      if (one) for (Op q : {Op{RXG, 0, 0}, Op{REG, 0, 0}, Op{RXE, 2, 0}}) ops.push_back(q);
      return;
    }
    for (int j = 0; j < 2; ++j) { ops.push_back({CC, 2, j}); ops.push_back({MC, 2, j}); }
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { ops.push_back({CA, i, j}); ops.push_back({MA, i, j}); if (i < j) ops.push_back({SWAP, i, j}); }
    ops.push_back({DEL, 2, 0}); for (int i = 0; i < 3; ++i) for (int f = 0; f < nf; ++f) if (i == 0 || f != 1) ops.push_back({DEF, i, f});
    for (int k : {EVG, DXG, RXG, REG}) if (one || (k != RXG && k != REG)) ops.push_back({k, 0, 0});
    for (int i = 0; i < 3; ++i) { ops.push_back({EVE, i, 0}); ops.push_back({DXE, i, 0}); if (one) ops.push_back({RXE, i, 0}); ops.push_back({SHP, i, 0}); }
  }
  ~Exprs() override { delete G; }
  void def(int i, int f) {
    auto put = [&](auto& n) { if (s[i].st == '-') s[i].p.reset(new M(n)); else *s[i].p = n; };
    if (one) switch (f) { case 0: put(Sigma(X ^ Y)); break; case 1: put(Sigma(X * X)); break; case 2: put(Sigma(SinM(X))); break; }
    else switch (f) { case 0: put(X ^ Y); break; case 1: put(X * X + Y); break; case 2: put(Sigma<Axis::ROW>(X)); break; case 3: if (s[i].st == '-') { s[i].p.reset(new M(entry)); } else *s[i].p = entry; break; case 4: put(transpose(SinM(X))); break; }
    s[i].st = 'L'; s[i].f = f; s[i].src.clear();
  }
  int nops() const override { return (int)ops.size(); }
  std::string name(int o) const override { const Op& p = ops[o]; switch (p.k) { case DEF: return slot(p.i) + ":=f" + S(p.j); case EVG: return "Eval(G)"; case DXG: return "dG/dX"; case RXG: return "DevalR(G,X)"; case REG: return "DevalR(G,a)"; case EVE: return "Eval(" + slot(p.i) + ")"; case DXE: return "d" + slot(p.i) + "/dX"; case RXE: return "DevalR(" + slot(p.i) + ",X)"; case SHP: return "shape " + slot(p.i); } return opn(p); }
  bool L(int i) const { return s[i].st == 'L'; } bool R_(int i) const { return s[i].st == 'L' || s[i].st == 'm'; }
  bool enabled(int o) const override { const Op& p = ops[o]; switch (p.k) { case CC: return s[2].st == '-' && R_(p.j); case MC: return s[2].st == '-' && L(p.j); case CA: return s[p.i].st != '-' && R_(p.j) && (L(p.i) || L(p.j)); case MA: return s[p.i].st != '-' && L(p.j); case SWAP: return R_(p.i) && R_(p.j) && (L(p.i) || L(p.j)); case DEL: return s[2].st != '-'; case DEF: return s[p.i].st != '-' || p.i == 2; case EVG: case DXG: case RXG: case REG: return L(0) && (!one || L(1)); default: return L(p.i); } }
  // slot i changed its meaning, moved away or died: slots that stand for it are no longer anything in particular
  void changed(int i) { for (int k = 0; k < 3; ++k) if (k != i && s[k].st == 'L') for (int d : s[k].src) if (d == i) { s[k].st = 'x'; s[k].src.clear(); changed(k); break; } }   // x: refers to something that is gone; may only be assigned to or destroyed
  // partials with respect to x[0..3] then y[0..3]
  struct Dv { C v; C d[8]; }; using DM = std::vector<Dv>;
  static Dv cst(C v) { Dv r; r.v = v; for (auto& z : r.d) z = 0; return r; }
  static Dv lin(const Dv& a, C ka, const Dv& b, C kb, C v) { Dv r; r.v = v; for (int i = 0; i < 8; ++i) r.d[i] = a.d[i] * ka + b.d[i] * kb; return r; }
  static Dv add(const Dv& a, const Dv& b) { return lin(a, 1, b, 1, a.v + b.v); } static Dv mul(const Dv& a, const Dv& b) { return lin(a, b.v, b, a.v, a.v * b.v); } static Dv sn(const Dv& a) { return lin(a, std::cos(a.v), a, 0, std::sin(a.v)); }
  DM mean(int f, size_t& r, size_t& c) const {
    DM X_, Y_; for (int k = 0; k < 4; ++k) { Dv d = cst(x[k]); d.d[k] = 1; X_.push_back(d); d = cst(y[k]); d.d[4 + k] = 1; Y_.push_back(d); }
    DM o; r = c = 2; auto mm = [&] { DM z; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) z.push_back(add(mul(X_[i * 2], X_[j]), mul(X_[i * 2 + 1], X_[2 + j]))); return z; }; auto sum = [&](const DM& z) { Dv t = cst(0); for (auto& q : z) t = add(t, q); return DM{t}; }; auto had = [&] { DM z; for (int k = 0; k < 4; ++k) z.push_back(mul(X_[k], Y_[k])); return z; };
    if (one) { r = c = 1; if (f == 0) return sum(had()); if (f == 1) return sum(mm()); DM z; for (auto& q : X_) z.push_back(sn(q)); return sum(z); }
    switch (f) { case 0: return had(); case 1: { DM z = mm(); for (int k = 0; k < 4; ++k) z[k] = add(z[k], Y_[k]); return z; } case 2: r = 1; return {add(X_[0], X_[2]), add(X_[1], X_[3])}; case 3: return {mul(X_[0], Y_[1]), add(X_[1], Y_[0]), mul(X_[2], X_[3]), add(Y_[3], Y_[2])}; default: return {sn(X_[0]), sn(X_[2]), sn(X_[1]), sn(X_[3])}; }
  }
  DM gmean(size_t& r, size_t& c) const { DM m = mean(s[0].f, r, c), o; if (one) { size_t a, b; DM n = mean(s[1].f, a, b); return {add(mul(m[0], sn(m[0])), n[0])}; } for (auto& e : m) o.push_back(add(sn(e), e)); return o; }
  Mat val(const DM& m, size_t r, size_t c) const { Mat o{r, c, {}}; for (auto& e : m) o.v.push_back(e.v); return o; }
  Mat der(const DM& m, size_t r, size_t c) const { Mat o{r * 2, c * 2, std::vector<C>(r * c * 4)}; for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) for (size_t a = 0; a < 2; ++a) for (size_t b = 0; b < 2; ++b) o.v[(i * 2 + a) * (c * 2) + j * 2 + b] = m[i * c + j].d[a * 2 + b]; return o; }
  Mat grd(const DM& m) const { Mat o{2, 2, {}}; for (int k = 0; k < 4; ++k) o.v.push_back(m[0].d[k]); return o; }
  bool chain(int i, int j) const { for (int n = 0; n < 4; ++n) { if (i == j) return true; if (s[i].src.empty()) return false; i = s[i].src[0]; } return false; }   // does i stand for j
  bool stands(int i, int j) const { return i != j && chain(i, j); }
  void apply(int o, bool check, const std::string& h) override {
    const Op& p = ops[o]; Slot& a = s[p.i]; size_t r, c;
    switch (p.k) {
      case CC: a.p.reset(new M(*s[p.j].p)); if (!L(p.j)) { a.st = 'm'; a.src.clear(); break; } a.st = 'L'; a.f = s[p.j].f; a.src = {p.j}; break;
      case MC: a.p.reset(new M(std::move(*s[p.j].p))); a.st = 'L'; a.f = s[p.j].f; a.src = s[p.j].src; s[p.j].st = 'm'; changed(p.j); break;
      case CA: { *a.p = *s[p.j].p; if (p.i == p.j) break; if (!L(p.j)) { changed(p.i); a.st = 'm'; a.src.clear(); break; } if (chain(p.j, p.i)) break; changed(p.i); a.st = 'L'; a.f = s[p.j].f; a.src = {p.j}; break; }
      case MA: { *a.p = std::move(*s[p.j].p); if (p.i == p.j) { a.st = 'm'; changed(p.i); break; } if (chain(p.j, p.i)) { s[p.j].st = 'm'; s[p.j].src.clear(); changed(p.j); break; } bool bad = false; int f = s[p.j].f; auto src = s[p.j].src; changed(p.i); s[p.j].st = 'm'; changed(p.j); a.src = src; a.f = f; a.st = bad ? 'm' : 'L'; if (bad) a.src.clear(); break; }
      case SWAP: { bool bad = chain(p.i, p.j) || chain(p.j, p.i); std::swap(*a.p, *s[p.j].p); char st[2] = {a.st, s[p.j].st}; a.st = s[p.j].st = '?'; changed(p.i); changed(p.j); a.st = bad ? 'x' : st[1]; s[p.j].st = bad ? 'x' : st[0]; std::swap(a.f, s[p.j].f); std::swap(a.src, s[p.j].src); for (int k : {p.i, p.j}) if (s[k].st != 'L') s[k].src.clear(); break; }
      case DEL: a.p.reset(); a.st = '-'; a.src.clear(); changed(p.i); break;
      case DEF: changed(p.i); def(p.i, p.j); break;
      case EVG: { auto& g = M2::Eval(*G); if (check) { auto m = gmean(r, c); cmp(h, g, val(m, r, c)); } break; }
      case DXG: { auto& g = M2::DevalF(*G, X); if (check) { auto m = gmean(r, c); cmp(h, g, der(m, r, c)); } break; }
      case RXG: { M2::PreComp(*G); auto& g = M2::DevalR(*G, X); if (check) cmp(h, g, grd(gmean(r, c))); break; }
      case REG: { M2::PreComp(*G); auto& g = M2::DevalR(*G, *s[0].p); if (check) { bool link = stands(0, 1) || stands(1, 0) || stands(0, 2); if (!link) { C v = mean(s[0].f, r, c)[0].v; cmp(h, g, Mat{1, 1, {std::sin(v) + v * std::cos(v)}}); } else fw::skip(); } break; }
      case EVE: { auto& g = M2::Eval(*a.p); if (check) { auto m = mean(a.f, r, c); cmp(h, g, val(m, r, c)); } break; }
      case DXE: { auto& g = M2::DevalF(*a.p, X); if (check) { auto m = mean(a.f, r, c); cmp(h, g, der(m, r, c)); } break; }
      case RXE: { M2::PreComp(*a.p); auto& g = M2::DevalR(*a.p, X); if (check) cmp(h, g, grd(mean(a.f, r, c))); break; }
      case SHP: if (check) { mean(a.f, r, c); fw::check(); if (a.p->getNumRows() != r || a.p->getNumColumns() != c || a.p->getFinalNumRows() != r || a.p->getFinalNumColumns() != c) fw::fail(h, "shape " + S(a.p->getNumRows()) + "x" + S(a.p->getNumColumns()) + " want " + S(r) + "x" + S(c)); } break;
    }
    if (check) for (int k = 0; k < 4; ++k) if (!near(C_(M1::Eval(X[k])), x[k])) fw::fail(h + "/X", "operand changed");
  }
  fw::u64 state() const override { fw::u64 h = 11; for (auto& t : s) { h = fw::hmix(h, t.st * 16 + t.f); for (int d : t.src) h = fw::hmix(h, d + 1); } return h; }
};
// ---- matrices held by a container: growing, inserting, erasing and reordering is moving ----
template <class K> struct Vec : hist::WorldBase {
  using M = Matrix<K>; std::vector<M> v; struct Mod { size_t r, c; Cells x; }; std::vector<Mod> m; int next = 90; static constexpr bool isV = std::is_same_v<K, Variable>;
  static M mk(const Mod& w) { M a(w.r, w.c); for (size_t k = 0; k < w.x.size(); ++k) a[k] = T_(*w.x[k]); return a; }
  Mod fresh(size_t r, size_t c) { Mod w{r, c, {}}; for (size_t k = 0; k < r * c; ++k) w.x.push_back(std::make_shared<C>(gen(next++))); return w; }
  int nops() const override { return 11; }
  std::string name(int o) const override { static const char* n[] = {"push(move)", "push(copy of front)", "insert at front", "erase front", "erase back", "reverse", "write back", "assign vector", "Eval each", "sort by first entry", "clear+push"}; return n[o]; }
  bool enabled(int o) const override { return o == 0 || o == 2 || o == 10 || !v.empty(); }
  Mod dup(const Mod& w) { Mod r = w; if (!isV) for (auto& c : r.x) c = std::make_shared<C>(*c); return r; }
  void apply(int o, bool check, const std::string& h) override {
    switch (o) {
      case 0: { Mod w = fresh(1 + m.size() % 2, 2); v.push_back(mk(w)); m.push_back(w); break; }
      case 1: { v.push_back(v.front()); m.push_back(dup(m.front())); break; }
      case 2: { Mod w = fresh(2, 1 + m.size() % 3); v.insert(v.begin(), mk(w)); m.insert(m.begin(), w); break; }
      case 3: v.erase(v.begin()); m.erase(m.begin()); break; case 4: v.pop_back(); m.pop_back(); break;
      case 5: std::reverse(v.begin(), v.end()); std::reverse(m.begin(), m.end()); break;
      case 6: { C t = gen(next++); *m.back().x[0] = t; v.back()[0] = T_(t); break; }
      case 7: { auto u = v; v = u; if (!isV) for (auto& w : m) w = dup(w); break; }
      case 8: for (size_t i = 0; i < v.size(); ++i) { auto& g = M2::Eval(v[i]); if (check) { Mat w{m[i].r, m[i].c, {}}; for (auto& t : m[i].x) w.v.push_back(*t); cmp(h + "/" + S(i), g, w); } } break;
      case 9: { auto key = [](auto& a) { return re(*a.x[0]); }; std::vector<size_t> ix; for (size_t i = 0; i < m.size(); ++i) ix.push_back(i); std::stable_sort(m.begin(), m.end(), [&](auto& a, auto& b) { return key(a) < key(b); }); std::stable_sort(v.begin(), v.end(), [](const M& a, const M& b) { auto f = [](const M& z) { if constexpr (std::is_same_v<K, Type>) return re(C_(z[0])); else return re(C_(M1::Eval(const_cast<M&>(z)[0]))); }; return f(a) < f(b); }); break; }
      case 10: { v.clear(); m.clear(); Mod w = fresh(2, 2); v.push_back(mk(w)); m.push_back(w); break; }
    }
    if (!check) return;
    fw::check(); if (v.size() != m.size()) { fw::fail(h, "size"); return; }
    for (size_t i = 0; i < v.size(); ++i) { if (v[i].getNumRows() != m[i].r || v[i].getNumColumns() != m[i].c) { fw::fail(h + "/" + S(i), "shape"); continue; } for (size_t k = 0; k < m[i].x.size(); ++k) { C g; if constexpr (std::is_same_v<K, Type>) g = C_(v[i][k]); else g = C_(M1::Eval(v[i][k])); if (!near(g, *m[i].x[k])) { fw::fail(h + "/" + S(i), "entry " + S(k) + " holds " + sc::str(g)); break; } } }
  }
  fw::u64 state() const override { fw::u64 h = 13; for (auto& w : m) for (auto& c : w.x) h = fw::hmix(h, (fw::u64)(re(*c) * 1e6)); return h; }
};
#if defined(__SANITIZE_ADDRESS__)
bool deep() { return false; }
#else
bool deep() { return fw::thorough(); }
#endif
template <class K> void kind(Emit& e, const char* n) {
  int d = deep() ? 4 : 3;
  for (int v = 0; v < (std::is_same_v<K, Type> ? 3 : 2); ++v) hist::emitAll(e, std::string(n) + S(v), [v] { return (hist::WorldBase*)new Leafs<K>(v); }, 2, d);
  hist::emitAll(e, std::string("vec-") + n, [] { return (hist::WorldBase*)new Vec<K>(); }, 2, deep() ? 5 : 4);
  if (fw::memQuick()) return;
  for (int v = 0; v < 2; ++v) hist::emitRepeats(e, std::string("rep/") + n + S(v), [v] { return (hist::WorldBase*)new Leafs<K>(v); }, deep() ? 3 : 2, 24);
  hist::emitRepeats(e, std::string("rep/vec-") + n, [] { return (hist::WorldBase*)new Vec<K>(); }, 2, 40);
}
} // namespace
void enumerate(fw::Emit& e) {
  kind<Type>(e, "number"); kind<Variable>(e, "variable"); kind<Parameter>(e, "parameter");
  for (int v = 0; v < 2; ++v) for (int few = 0; few < 2; ++few) hist::emitAll(e, std::string(v ? "scalar-expression" : "expression") + (few ? "-deep" : ""), [v, few] { return (hist::WorldBase*)new Exprs(v, few); }, 2, (deep() ? 4 : 3) + few);
  if (!fw::memQuick()) for (int v = 0; v < 2; ++v) hist::emitRepeats(e, v ? "rep/scalar-expression" : "rep/expression", [v] { return (hist::WorldBase*)new Exprs(v, 0); }, 2, 24);
}
FW_MAIN
