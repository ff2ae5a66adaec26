// Assembly of gradients, Jacobians and Hessians (S09): every assembly function x formula x list (or matrix) of variables,
// including lists with unused, repeated and aliased variables, at several points and in sequence.
#include "scalar_ops.hpp"
#include <functional>
namespace so {
namespace M2 = CoolDiff::TensorR2; using MV = Matrix<Variable>; using MT = Matrix<Type>; using ME = Matrix<Expression>;
// entries of X are variables 0..n-1; u (n) is unused by every formula; p is a parameter
struct AW { size_t r, c, n; MV& X; Variable u{(Type)0.3}; Parameter p{(Type)0.6}; Expression e; P re; std::vector<C> v; C pv; bool rec = false, smooth2 = true;
  AW(size_t r, size_t c) : r(r), c(c), n(r * c), X(*new MV(r, c)), v(r * c + 1) { set(0); }
  void set(int k) { for (size_t i = 0; i <= n; ++i) { v[i] = k == 0 ? q(0.55L + 0.35L * (LD)i, 0.1L * (LD)i) : k == 1 ? q(1.9L - 0.3L * (LD)i, -0.25L) : q((i % 2 ? -1 : 1) * (0.7L + 0.2L * (LD)i), 0.4L); if (i < n) X[i] = T_(v[i]); else u = T_(v[i]); } pv = q(0.6L + k, 0.2L * k); p = T_(pv); }
  Env env() const { return Env{v, {pv}}; }
  Variable& at(int i) { return i == (int)n ? u : X[i]; } };
using F3 = std::function<void(AW&, Variable&, Variable&, Variable&, P, P, P)>;
struct Form { const char* nm; int k; F3 f; };
static const std::vector<Form>& forms() {
  auto B = [](int o, P a, P b) { return bin(o, a, b); };
  static std::vector<Form> v = {
    {"a", 1, [](AW& w, Variable& a, Variable&, Variable&, P x, P, P) { w.e = a; w.re = x; }},
    {"p", 0, [](AW& w, Variable&, Variable&, Variable&, P, P, P) { w.e = w.p; w.re = par(0); }},
    {"a*p", 1, [B](AW& w, Variable& a, Variable&, Variable&, P x, P, P) { w.e = a * w.p; w.re = B(ref::MUL, x, par(0)); }},
    {"a^3", 1, [B](AW& w, Variable& a, Variable&, Variable&, P x, P, P) { w.e = pow(a, (Type)3); w.re = B(ref::POW, x, num(C(3))); }},
    {"a^p", 1, [B](AW& w, Variable& a, Variable&, Variable&, P x, P, P) { w.e = pow(a, w.p); w.re = B(ref::POW, x, par(0)); }},
    {"2^a", 1, [B](AW& w, Variable& a, Variable&, Variable&, P x, P, P) { w.e = pow((Type)2, a); w.re = B(ref::POW, num(C(2)), x); }},
    {"a+b", 2, [B](AW& w, Variable& a, Variable& b, Variable&, P x, P y, P) { w.e = a + b; w.re = B(ref::ADD, x, y); }},
    {"a-b", 2, [B](AW& w, Variable& a, Variable& b, Variable&, P x, P y, P) { w.e = a - b; w.re = B(ref::SUB, x, y); }},
    {"a*b", 2, [B](AW& w, Variable& a, Variable& b, Variable&, P x, P y, P) { w.e = a * b; w.re = B(ref::MUL, x, y); }},
    {"a/b", 2, [B](AW& w, Variable& a, Variable& b, Variable&, P x, P y, P) { w.e = a / b; w.re = B(ref::DIV, x, y); }},
    {"a^b", 2, [B](AW& w, Variable& a, Variable& b, Variable&, P x, P y, P) { w.e = pow(a, b); w.re = B(ref::POW, x, y); }},
    {"sin(ab)", 2, [B](AW& w, Variable& a, Variable& b, Variable&, P x, P y, P) { w.e = sin(a * b); w.re = un(ref::SIN, B(ref::MUL, x, y)); }},
    {"aab", 2, [B](AW& w, Variable& a, Variable& b, Variable&, P x, P y, P) { w.e = a * a * b; w.re = B(ref::MUL, B(ref::MUL, x, x), y); }},
    {"exp(a)sin(b)", 2, [B](AW& w, Variable& a, Variable& b, Variable&, P x, P y, P) { w.e = exp(a) * sin(b); w.re = B(ref::MUL, un(ref::EXP, x), un(ref::SIN, y)); }},
    {"abc", 3, [B](AW& w, Variable& a, Variable& b, Variable& c, P x, P y, P z) { w.e = a * b * c; w.re = B(ref::MUL, B(ref::MUL, x, y), z); }},
    {"(a+b)/(b*c)", 3, [B](AW& w, Variable& a, Variable& b, Variable& c, P x, P y, P z) { w.e = (a + b) / (b * c); w.re = B(ref::DIV, B(ref::ADD, x, y), B(ref::MUL, y, z)); }},
    {"s*s+c", 3, [B](AW& w, Variable& a, Variable& b, Variable& c, P x, P y, P z) { auto& s = *new Expression; s = a * b + w.p; w.e = s * s + c; P rs = B(ref::ADD, B(ref::MUL, x, y), par(0)); w.re = B(ref::ADD, B(ref::MUL, rs, rs), z); }},
    {"loop", 3, [B](AW& w, Variable& a, Variable& b, Variable& c, P x, P y, P z) { w.rec = true; w.e = a * b; w.re = B(ref::MUL, x, y); w.e = w.e * c + a; w.re = B(ref::ADD, B(ref::MUL, w.re, z), x); w.e = sin(w.e) * w.e; w.re = B(ref::MUL, un(ref::SIN, w.re), w.re); }},
  }; return v;
}
enum AF { DF, DFP, DR, JV, JM, HV, HM, SGV, SGM, SHV, SHM, SMD, NAF };
static const char* afn(int k) { static const char* n[] = {"DevalF", "DevalF parallel", "DevalR", "JacobianR(list)", "JacobianR(matrix)", "HessianR(list)", "HessianR(matrix)", "SymGradient(list)", "SymGradient(matrix)", "SymHessian(list)", "SymHessian(matrix)", "SymMatDiff"}; return n[k]; }
static bool listy(int f) { return f == JV || f == HV || f == SGV || f == SHV; }
static bool hess(int f) { return f == HV || f == HM || f == SHV || f == SHM; }
static bool symb(int f) { return f >= SGV; }
static bool finite_(const MT& g) { return true; }
// call one function for the variables `ids` (as a list, or as a matrix of shape lr x lc)
struct Held { ME* m; int f; std::vector<int> ids; size_t r, c; };
static void shape(const std::string& h, size_t gr, size_t gc, size_t r, size_t c) { fw::check(); if (gr != r || gc != c) fw::fail(h, "shape " + std::to_string(gr) + "x" + std::to_string(gc) + " want " + std::to_string(r) + "x" + std::to_string(c)); }
static void entries(const std::string& h, AW& w, bool hs, const std::vector<int>& ids, const std::function<Type(size_t)>& at, LD slack) {
  size_t n = ids.size(); if (!hs) { for (size_t i = 0; i < n; ++i) cmp(h + "/" + std::to_string(i), at(i), ref::d1(w.re, w.env(), ids[i]), slack); return; }
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) cmp(h + "/" + std::to_string(i) + "," + std::to_string(j), at(i * n + j), ref::d2(w.re, w.env(), ids[i], ids[j]), slack * 10);
}
static void heldCheck(const std::string& h, AW& w, Held& d) { entries(h, w, hess(d.f), d.ids, [&](size_t k) { return S1::Eval((*d.m)[k]); }, 40); }
static void call(AW& w, int f, const std::vector<int>& ids, size_t lr, size_t lc, const std::string& h, std::vector<Held>* keep) {
  fw::trans(); Vector<Variable> vec; for (int i : ids) vec.push_back(w.at(i)); bool own = true; for (size_t i = 0; i < ids.size(); ++i) if (ids[i] != (int)i) own = false; MV* M = nullptr; if (!listy(f)) { if (own && lr == w.r && lc == w.c) M = &w.X; else { M = new MV(lr, lc); for (size_t i = 0; i < ids.size(); ++i) (*M)[i] = w.at(ids[i]); } }
  size_t n = ids.size();
  auto numr = [&](MT& g, size_t r, size_t c) { shape(h, g.getNumRows(), g.getNumColumns(), r, c); if (g.getNumElem() == r * c) entries(h, w, hess(f), ids, [&](size_t k) { return g[k]; }, 30); };
  auto symr = [&](ME& g, size_t r, size_t c) { shape(h, g.getNumRows(), g.getNumColumns(), r, c); Held d{&g, f, ids, r, c}; if (g.getNumElem() == r * c) { heldCheck(h, w, d); if (keep) keep->push_back(d); } };
  switch (f) {
    case DF: numr(M2::DevalF(w.e, *M), lr, lc); break; case DFP: numr(M2::DevalF(w.e, *M, false), lr, lc); break; case DR: numr(M2::DevalR(w.e, *M), lr, lc); break;
    case JV: numr(M2::JacobianR(w.e, vec), n, 1); break; case JM: numr(M2::JacobianR(w.e, *M), n, 1); break;
    case HV: numr(M2::HessianR(w.e, vec), n, n); break; case HM: numr(M2::HessianR(w.e, *M), n, n); break;
    case SGV: symr(M2::SymGradient(w.e, vec), n, 1); break; case SGM: symr(M2::SymGradient(w.e, *M), n, 1); break;
    case SHV: symr(M2::SymHessian(w.e, vec), n, n); break; case SHM: symr(M2::SymHessian(w.e, *M), n, n); break;
    default: symr(M2::SymMatDiff(w.e, *M), lr, lc); }
}
static std::vector<std::vector<int>> lists(int n, int len) { std::vector<std::vector<int>> r{{}}; for (int l = 0; l < len; ++l) { std::vector<std::vector<int>> s; for (auto& a : r) for (int i = 0; i <= n; ++i) { auto b = a; b.push_back(i); s.push_back(b); } r = s; } return r; }
static std::string ln(const std::vector<int>& l) { std::string s; for (int i : l) s += std::to_string(i); return s; }
static void build(AW& w, const Form& F, int a, int b, int c) { F.f(w, w.at(a), w.at(b), w.at(c), var(a), var(b), var(c)); }
static void all(fw::Emit& emit) {
  bool th = fw::thorough(); auto& fs = forms();
  std::vector<std::pair<size_t, size_t>> shs = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}}; if (th) { shs.push_back({2, 3}); shs.push_back({3, 2}); }
  for (auto [r, c] : shs) for (size_t fi = 0; fi < fs.size(); ++fi) { int n = (int)(r * c); auto& F = fs[fi];
    for (int a = 0; a < (F.k > 0 ? n : 1); ++a) for (int b = 0; b < (F.k > 1 ? n : 1); ++b) for (int d = 0; d < (F.k > 2 ? n : 1); ++d) {
      auto nm = [&, r = r, c = c] { return std::to_string(r) + "x" + std::to_string(c) + "/" + F.nm + "/" + std::to_string(a) + std::to_string(b) + std::to_string(d); };
      // every function, for the matrix itself and for every list and matrix of chosen variables
      emit([&] { return "asm/" + nm(); }, [&, r = r, c = c] {
        for (int f = 0; f < NAF; ++f) { AW w(r, c); build(w, F, a, b, d); std::vector<Held> keep; std::vector<int> id; for (int i = 0; i < n; ++i) id.push_back(i); for (int k = 0; k < 3; ++k) { w.set(k); fw::state(fw::hmix(fw::hstr(ref::show(w.re)), f * 8 + k)); call(w, f, id, r, c, std::string(afn(f)) + "/pt" + std::to_string(k), &keep); for (size_t z = 0; z < keep.size(); ++z) heldCheck(std::string(afn(f)) + "/held" + std::to_string(z) + "/pt" + std::to_string(k), w, keep[z]); } }
        fw::trace(); });
      if (a > 1 && !th) continue;
      emit([&] { return "lists/" + nm(); }, [&, r = r, c = c] {
        for (int len = 1; len <= (n <= 2 || th ? 3 : 2); ++len) for (auto& l : lists(n, len)) { AW w(r, c); build(w, F, a, b, d); w.set(0); for (int f = 0; f < NAF; ++f) { if (listy(f)) call(w, f, l, 0, 0, std::string(afn(f)) + "/" + ln(l), nullptr); else { call(w, f, l, 1, len, std::string(afn(f)) + "/1x" + ln(l), nullptr); if (len > 1) call(w, f, l, len, 1, std::string(afn(f)) + "/" + ln(l) + "x1", nullptr); } fw::state(fw::hmix(fw::hstr(ln(l)), f)); } }
        fw::trace(); }); } }
  // sequences of functions on one expression with changes in between
  for (size_t fi = 0; fi < fs.size(); ++fi) for (int f = 0; f < NAF; ++f) for (int g = 0; g < NAF; ++g) emit([&, f, g] { return std::string("seq/") + fs[fi].nm + "/" + afn(f) + ";" + afn(g); }, [&, f, g, fi] {
    for (int m = 0; m < 3; ++m) for (int h2 = 0; h2 < (th ? (int)NAF : 1); ++h2) { AW w(2, 1); build(w, fs[fi], 0, 1, 0); std::vector<Held> keep; std::vector<int> id = {0, 1}; std::string h = "m" + std::to_string(m); call(w, f, id, 2, 1, h + "/first", &keep); if (m == 1) w.set(1); if (m == 2) { w.set(2); w.set(1); } call(w, g, id, 2, 1, h + "/second", &keep); if (th) { w.set(2); call(w, h2, id, 2, 1, h + "/third " + afn(h2), &keep); } for (auto& k : keep) heldCheck(h + "/held", w, k); cmp(h + "/value", S1::Eval(w.e), ref::value(w.re, w.env())); fw::state(fw::hmix(f * 100 + g, fi * 10 + m)); }
    fw::trace(); });
  // a plain variable in place of the expression (forward mode only, as the interface offers)
  emit([] { return std::string("kinds"); }, [] { AW w(2, 2); for (int k = 0; k < 3; ++k) for (int s = 0; s < 2; ++s) { w.set(k); auto ck = [&](const std::string& h, auto& ex, P r) { w.re = r; fw::trans(); auto& g = M2::DevalF(ex, w.X, s == 0); shape(h, g.getNumRows(), g.getNumColumns(), 2, 2); entries(h + "/" + std::to_string(k) + std::to_string(s), w, false, {0, 1, 2, 3}, [&](size_t i) { return g[i]; }, 10); };
      ck("var", w.X[2], var(2)); ck("unused", w.u, var(4)); } fw::trace(); });
  // large variable sets
  std::vector<std::pair<size_t, size_t>> big; for (size_t n = 4; n <= (th ? 40u : 24u); n += (th ? 1 : 2)) big.push_back({1, n}); for (size_t n : {6, 13, 19, 33, 40}) { big.push_back({n, 1}); if (n > 24 && !th) big.push_back({1, n}); }
  for (auto p : {std::pair<size_t, size_t>{2, 3}, {3, 2}, {3, 3}, {2, 5}, {4, 3}, {4, 4}, {3, 6}, {5, 7}}) big.push_back(p);
  for (auto [r, c] : big) emit([=, r = r, c = c] { return "size/" + std::to_string(r) + "x" + std::to_string(c); }, [=, r = r, c = c] { size_t n = r * c; AW w(r, c); w.e = w.X[0] * w.p; w.re = bin(ref::MUL, var(0), par(0)); for (size_t i = 1; i < n; ++i) { w.e = w.e + w.X[i - 1] * w.X[i]; w.re = bin(ref::ADD, w.re, bin(ref::MUL, var((int)i - 1), var((int)i))); } std::vector<int> id; for (size_t i = 0; i < n; ++i) id.push_back((int)i);
    for (int f = 0; f < NAF; ++f) { if (hess(f) && n > (th ? 24 : 16)) continue; if (symb(f) && n > (th ? 36 : 20)) continue; call(w, f, id, r, c, afn(f), nullptr); fw::state(n * 100 + f); } fw::trace(); });
}
} // namespace so
void enumerate(fw::Emit& e) { so::all(e); }
FW_MAIN
