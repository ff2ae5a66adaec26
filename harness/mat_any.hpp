// Real-side values of matrix formulas: every operand kind the API distinguishes, behind one run-time type.
#pragma once
#include "scalar_common.hpp"
#include "mref.hpp"
namespace M2 = CoolDiff::TensorR2;
// An unnamed node of any type. Forwards everything to the node it stands for, so that operands of
// run-time chosen formulas are still unnamed nodes (cloned by operators, sharing only leaves).
class AnyMat : public IMatrix<AnyMat> {
  MetaMatrix* in; std::function<bool(void*)> fm; std::function<const AnyMat&()> cl; std::string al;
 public:
  const size_t m_nidx; OMMatPair& m_cache;
  template <class N> explicit AnyMat(const N& n, int) : in(const_cast<N*>(&n)), fm([&n](void* v) { return n.findMe(v); }), cl([&n]() -> const AnyMat& { return *new AnyMat(n.cloneExp(), 0); }), al(n.allocatorType()), m_nidx(n.m_nidx), m_cache(const_cast<N&>(n).m_cache) {}
  V_OVERRIDE(size_t getNumRows() const) { return in->getNumRows(); }
  V_OVERRIDE(size_t getNumColumns() const) { return in->getNumColumns(); }
  bool findMe(void* v) const { return static_cast<void*>(in) == v || fm(v); }
  constexpr std::string_view allocatorType() const { return al; }
  constexpr const auto& cloneExp() const { return self(); }
  const AnyMat& self() const { return cl(); }
  V_OVERRIDE(Matrix<Type>* eval()) { return in->eval(); }
  V_OVERRIDE(Matrix<Type>* devalF(Matrix<Variable>& X)) { return in->devalF(X); }
  V_OVERRIDE(void traverse(OMMatPair* c = nullptr)) { in->traverse(c); }
  V_OVERRIDE(OMMatPair& getCache()) { return in->getCache(); }
  V_OVERRIDE(void reset()) { in->reset(); }
  V_OVERRIDE(std::string_view getType() const) { return in->getType(); }
};
namespace ma {
using mr::RM; using mr::Du; using ref::C; using ref::LD; using sc::T_; using sc::C_;
struct World;
using RF = std::function<RM(World&)>;                       // the formula, on the model
enum CK { KT, KV, KP, KE, KN };                             // C++ operand types: number, Variable, Parameter, Expression matrices, unnamed node
struct Val { int ck = -1; void* p = nullptr; RF f; std::string nm; bool noNaive = false, fwdOnly = false; size_t r = 0, c = 0; };
enum SK { SN, SV, SP, SE, SU };                             // number, Variable, Parameter, Expression, unnamed scalar node
struct SVal { int sk; int which; };
enum BO { ADD, SUB, MUL, HAD, MOD, EDV, CNV, CATV, CATH, NBO };
inline const char* bname(int o) { static const char* n[] = {"+", "-", "*", "^", "%", "/", "conv", "vcat", "hcat"}; return n[o]; }
enum UO { TR, VEC, INV, DET, TRC, SIGR, SIGC, SIGA, FRO, SMR, SMC, SMA, POW0, POW1, POW2, POW3, MEXP3, MLOG3, USIN, UCOS, UEXP, ULOG, USQRT, UTANH, USIGM, URELU, ULRELU, UABS, BCC, BCR, BCA, NEGM, NUO };
inline const char* uoname(int o) { static const char* n[] = {"transpose", "vec", "inv", "det", "trace", "Sigma<ROW>", "Sigma<COLUMN>", "Sigma", "Frobenius", "SoftMax<ROW>", "SoftMax<COLUMN>", "SoftMax", "pow<0>", "pow<1>", "pow<2>", "pow<3>", "MatrixExp<3>", "MatrixLog<3>", "SinM", "CosM", "ExpM", "LogM", "SqrtM", "TanhM", "SigmoidM", "ReLUM", "LeakyReLUM", "AbsM", "broadcast<COLUMN>", "broadcast<ROW>", "broadcast", "-1*"}; return n[o]; }
inline int uref(int o) { switch (o) { case USIN: return ref::SIN; case UCOS: return ref::COS; case UEXP: return ref::EXP; case ULOG: return ref::LOG; case USQRT: return ref::SQRT; case UTANH: return ref::TANH; case USIGM: return ref::SIGM; case URELU: return ref::RELU; case ULRELU: return ref::LRELU; default: return ref::ABSV; } }
enum SO { SADD, ADDS, SSUB, SUBS, SMUL, MULS, DIVS, NSO };
inline const char* soname(int o) { static const char* n[] = {"s+M", "M+s", "s-M", "M-s", "s*M", "M*s", "M/s"}; return n[o]; }
constexpr bool realOnly(int o) { return o == URELU || o == ULRELU || o == UABS; }
struct ConvP { size_t sx = 1, sy = 1, px = 0, py = 0; };
inline ConvP& convp() { static ConvP c; return c; }          // geometry of the next conv built
inline size_t& bcn() { static size_t n = 2; return n; }      // size of the next broadcast built
// built by mat_build.cpp (one translation unit per PART)
void* rbin(int op, const Val& a, const Val& b);
void* runa(int op, const Val& a);
void* rsca(int op, const SVal& s, World& w, const Val& a);
template <class F> auto vis(const Val& v, F&& f) {
  switch (v.ck) { case KT: return f(*(Matrix<Type>*)v.p); case KV: return f(*(Matrix<Variable>*)v.p); case KP: return f(*(Matrix<Parameter>*)v.p); case KE: return f(*(Matrix<Expression>*)v.p); default: return f(*(AnyMat*)v.p); }
}
template <class N> inline void* wrap(const N& n) { return new AnyMat(n, 0); }
// ---- the world: operands with their current values, on both sides ----
enum Mode { FWD, REV };
struct Leaf { char kind; size_t r, c; int idx; void* p; std::vector<C> v; int seed = -1; std::vector<int> alias; Val val; };
struct Seed { std::string nm; size_t r, c; int ck; void* p; int base; };
struct World {
  Variable s{(Type)1}, t{(Type)1}; Parameter q{(Type)1}; Expression e; C sv, tv, qv;
  decltype(&(std::declval<Variable&>() * std::declval<Variable&>())) u;
  std::vector<Leaf*> leaves; Mode mode = FWD; int ns = 0; int point = 0; int salt = 0;
  std::vector<std::pair<void*, int>> mid; // named 1x1 intermediates and their seed (REV)
  World() { e = sin(s) * t + q; u = &(s * t); set(0); }
  static C gen(int kind, int i, int k, int salt) {        // deterministic, generic values
    unsigned h = (unsigned)(kind * 131 + i * 37 + k * 17 + salt * 59 + 7); h = h * 2654435761u; h ^= h >> 15; h *= 2246822519u; h ^= h >> 13;
    LD a = (LD)((h & 1023) / 1024.0L), b = (LD)(((h >> 10) & 1023) / 1024.0L);
    if (k == 0) return sc::q(0.4L + 1.2L * a, 0.6L * b - 0.3L);                      // positive real part
    if (k == 1) return sc::q((a < 0.5L ? -1 : 1) * (0.3L + 1.1L * b), 0.8L * a - 0.4L); // mixed signs
    return ((h >> 21) & 3) == 0 ? sc::q(0) : sc::q((b < 0.5L ? -1 : 1) * (0.3L + a), (h & 1) ? 0 : 0.5L * b); // with zeros
  }
  void write(Leaf& l) {
    for (size_t k = 0; k < l.v.size(); ++k) switch (l.kind) {
      case 'T': (*(Matrix<Type>*)l.p)[k] = T_(l.v[k]); break;
      case 'V': (*(Matrix<Variable>*)l.p)[k] = T_(l.v[k]); break;
      case 'P': (*(Matrix<Parameter>*)l.p)[k] = T_(l.v[k]); break; }
  }
  void set(int k) {
    point = k; sv = gen(90, 0, k == 2 ? 1 : k, salt); tv = gen(91, 1, k == 2 ? 1 : k, salt); qv = gen(92, 2, k == 2 ? 1 : k, salt); s = T_(sv); t = T_(tv); q = T_(qv);
    for (auto* l : leaves) if (l->kind == 'T' || l->kind == 'V' || l->kind == 'P') { fillv(*l); write(*l); }
  }
  void fillv(Leaf& l) { l.v.resize(l.r * l.c); for (size_t i = 0; i < l.v.size(); ++i) l.v[i] = l.idx == 77 ? C(i < l.c ? 0 : 1) : l.idx == 88 ? gen(l.kind, (int)i, point, salt) * (LD)(4 / l.c) : gen(l.kind + 8 * l.idx, (int)i, point, salt); }   // 77: first row zero, 88: large
  // operand kinds: T numbers, V variables, P parameters, A matrix of handles of V's variables (reversed order),
  // E entries are scalar expressions of s, t, q and of V(idx 0)'s variables
  Leaf& leaf(char kind, size_t r, size_t c, int idx = 0) {
    for (auto* l : leaves) if (l->kind == kind && l->r == r && l->c == c && l->idx == idx) return *l;
    if (kind == 'A' || kind == 'E') leaf('V', r, c, 0);
    Leaf* l = new Leaf{kind, r, c, idx, nullptr, {}}; leaves.push_back(l); size_t n = r * c;
    switch (kind) {
      case 'T': l->p = new Matrix<Type>(r, c); break; case 'V': l->p = new Matrix<Variable>(r, c); break; case 'P': l->p = new Matrix<Parameter>(r, c); break;
      case 'A': { auto& v = *(Matrix<Variable>*)leaf('V', r, c, 0).p; auto* a = new Matrix<Variable>(r, c); for (size_t k = 0; k < n; ++k) (*a)[k] = v[n - 1 - k]; l->p = a; break; }
      case 'E': { auto& v = *(Matrix<Variable>*)leaf('V', r, c, 0).p; auto* a = new Matrix<Expression>(r, c); for (size_t k = 0; k < n; ++k) { auto& x = v[k]; auto& y = v[n - 1 - k]; switch (k % 3) { case 0: (*a)[k] = x * y + s; break; case 1: (*a)[k] = sin(x) * t; break; default: (*a)[k] = x + q * y; } } l->p = a; break; }
    }
    if (kind == 'T' || kind == 'V' || kind == 'P') { fillv(*l); write(*l); }
    return *l;
  }
  // --- model side ---
  Du seeded(C v, int sd) { Du d(v); ref::note(v); if (sd >= 0) d.d[sd] = C(1); return d; }
  RM leafRef(Leaf& l) {
    RM m(l.r, l.c); size_t n = l.r * l.c;
    auto V = [&](size_t k) { Leaf& v = leaf('V', l.r, l.c, 0); return seeded(v.v[k], mode == FWD && v.seed >= 0 ? v.seed + (int)k : -1); };
    auto S = [&](C v, int which) { return seeded(v, mode == FWD ? sseed[which] : -1); };   // scalar handles inside entries flow in forward mode only
    switch (l.kind) {
      case 'A': for (size_t k = 0; k < n; ++k) m.e[k] = V(n - 1 - k); break;
      case 'E': for (size_t k = 0; k < n; ++k) { Du x = V(k), y = V(n - 1 - k); m.e[k] = k % 3 == 0 ? x * y + S(sv, 0) : k % 3 == 1 ? mr::fn(ref::SIN, x) * S(tv, 1) : x + seeded(qv, -1) * y; } break;
      default: for (size_t k = 0; k < n; ++k) m.e[k] = seeded(l.v[k], l.seed >= 0 && (mode == REV || l.kind == 'V') ? l.seed + (int)k : -1);
    }
    if (mode == REV && (l.kind == 'A' || l.kind == 'E') && l.seed >= 0) for (size_t k = 0; k < n; ++k) m.e[k].d[l.seed + k] = C(1);
    return m;
  }
  int sseed[2] = {-1, -1};
  Du scal(int sk) { // value of a scalar operand in the current mode
    switch (sk) { case SN: return mr::cst(sc::q(1.375L, 0.25L)); case SV: return seeded(sv, sseed[0]); case SP: return seeded(qv, -1);
      case SE: return mr::fn(ref::SIN, seeded(sv, sseed[0])) * seeded(tv, sseed[1]) + seeded(qv, -1); default: return seeded(sv, sseed[0]) * seeded(tv, sseed[1]); }
  }
  int midseed(void* p) { if (mode == REV) for (auto& m : mid) if (m.first == p) return m.second; return -1; }
};
inline Type numScalar() { return T_(sc::q(1.375L, 0.25L)); }
// ---- combinators building both sides ----
inline Val V(World& w, char kind, size_t r, size_t c, int idx = 0) {
  Leaf& l = w.leaf(kind, r, c, idx); Val v; v.p = l.p; v.r = r; v.c = c; v.ck = kind == 'T' ? KT : kind == 'V' || kind == 'A' ? KV : kind == 'P' ? KP : KE; v.fwdOnly = false;
  Leaf* lp = &l; v.f = [lp](World& w) { return w.leafRef(*lp); }; char b[32]; snprintf(b, 32, "%c%d(%zux%zu)", kind, idx, r, c); v.nm = b; return v;
}
// a named expression / an unnamed node for the same formula
inline Val named(World& w, const Val& a) {
  Val v = a; v.ck = KE; vis(a, [&](auto& x) { v.p = new Matrix<Expression>(x); return 0; }); void* p = v.p; RF f = a.f; v.fwdOnly = a.fwdOnly || a.r * a.c != 1; v.nm = "M{" + a.nm + "}";
  v.f = [p, f](World& w) { RM m = f(w); int sd = w.midseed(p); if (sd >= 0) m.e[0].d[sd] += C(1); return m; }; return v;
}
inline Val bin(World&, int op, const Val& a, const Val& b) {
  Val v; v.ck = KN; v.p = rbin(op, a, b); RF f = a.f, g = b.f; ConvP cp = convp(); v.noNaive = a.noNaive || b.noNaive || op == MOD; v.nm = "(" + a.nm + bname(op) + b.nm + ")";
  switch (op) { case MUL: v.r = a.r; v.c = b.c; break; case MOD: v.r = a.r; v.c = b.c; break; case CNV: v.r = (a.r + 2 * cp.px - b.r) / cp.sx + 1; v.c = (a.c + 2 * cp.py - b.c) / cp.sy + 1; { char t[48]; snprintf(t, 48, "[s%zu,%zu p%zu,%zu]", cp.sx, cp.sy, cp.px, cp.py); v.nm += t; } break; case CATV: v.r = a.r + b.r; v.c = a.c; break; case CATH: v.r = a.r; v.c = a.c + b.c; break; default: v.r = a.r; v.c = a.c; }
  v.fwdOnly = a.fwdOnly || b.fwdOnly; v.f = [op, f, g, cp](World& w) { RM x = f(w), y = g(w); switch (op) { case ADD: return mr::zip(x, y, [](auto& a, auto& b) { return a + b; }); case SUB: return mr::zip(x, y, [](auto& a, auto& b) { return a - b; }); case MUL: return mr::mul(x, y); case HAD: return mr::zip(x, y, [](auto& a, auto& b) { return a * b; }); case MOD: return mr::mul(x, mr::inv(y)); case EDV: return mr::zip(x, y, [](auto& a, auto& b) { return a / b; }); case CATV: case CATH: { RM r(op == CATV ? x.r + y.r : x.r, op == CATV ? x.c : x.c + y.c); for (size_t i = 0; i < r.r; ++i) for (size_t j = 0; j < r.c; ++j) r.at(i, j) = op == CATV ? (i < x.r ? x.at(i, j) : y.at(i - x.r, j)) : (j < x.c ? x.at(i, j) : y.at(i, j - x.c)); return r; }
    default: return mr::conv(x, y, cp.sx, cp.sy, cp.px, cp.py); } };
  return v;
}
inline bool& allowSingular() { static bool b = false; return b; }   // derivatives of det at singular matrices (a known finding) are asked for only in their own cases
inline RM refUn(int op, const RM& x, size_t n) {
  auto sum = [](const RM& m) { Du s; for (auto& e : m.e) s = s + e; return s; }; auto one = [](Du d) { RM r(1, 1); r.e[0] = d; return r; };
  auto colsum = [](const RM& m) { RM r(1, m.c); for (size_t j = 0; j < m.c; ++j) for (size_t i = 0; i < m.r; ++i) r.at(0, j) = r.at(0, j) + m.at(i, j); return r; };
  auto rowsum = [](const RM& m) { RM r(m.r, 1); for (size_t j = 0; j < m.c; ++j) for (size_t i = 0; i < m.r; ++i) r.at(i, 0) = r.at(i, 0) + m.at(i, j); return r; };
  auto addm = [](const RM& a, const RM& b) { return mr::zip(a, b, [](auto& a, auto& b) { return a + b; }); }; auto sc = [](const RM& a, C k) { return mr::map(a, [&](auto& e) { return e * mr::cst(k); }); };
  auto powm = [](const RM& a, int k) { RM r = mr::ident(a.r); for (int i = 0; i < k; ++i) r = mr::mul(a, r); return r; };
  switch (op) {
    case TR: return mr::tr(x); case VEC: { RM r = x; r.r = x.r * x.c; r.c = 1; return r; } // row after row
    case INV: return mr::inv(x); case DET: { Du d = mr::det(x); if (mr::NS() > 0 && !allowSingular() && ref::cabs_(d.v) < 1e-3L) ref::cx().bad = true; return one(d); } case TRC: { Du s; for (size_t i = 0; i < x.r; ++i) s = s + x.at(i, i); return one(s); }
    case SIGR: return colsum(x); case SIGC: return rowsum(x); case SIGA: return one(sum(x)); case FRO: { RM s = one(sum(mr::map(x, [](auto& e) { return e * e; }))); return mr::map(s, [](auto& e) { return mr::fn(ref::SQRT, e); }); }
    case SMR: case SMC: case SMA: { RM ex = mr::map(x, [](auto& e) { return mr::fn(ref::EXP, e); }); RM r(x.r, x.c); RM cs = colsum(ex), rs = rowsum(ex); Du all = sum(ex); for (size_t i = 0; i < x.r; ++i) for (size_t j = 0; j < x.c; ++j) r.at(i, j) = ex.at(i, j) / (op == SMR ? cs.at(0, j) : op == SMC ? rs.at(i, 0) : all); return r; }
    case POW0: case POW1: case POW2: case POW3: return powm(x, op - POW0);
    case MEXP3: { RM r = powm(x, 0); C f = 1; for (int k = 1; k <= 3; ++k) { f = f * C(k); r = addm(r, sc(powm(x, k), C(1) / f)); } return r; }
    case MLOG3: { RM d = mr::zip(mr::ident(x.r), x, [](auto& a, auto& b) { return a - b; }); RM r = mr::fill(x.r, x.r, C(0)); for (int k = 1; k <= 3; ++k) r = addm(r, sc(powm(d, k), C(-1) / C(k))); return r; }
    case BCC: return mr::mul(x, mr::fill(1, n, C(1))); case BCR: return mr::mul(mr::fill(n, 1, C(1)), x); case BCA: return mr::mul(mr::mul(mr::fill(n, 1, C(1)), x), mr::fill(1, n, C(1)));
    case NEGM: return sc(x, C(-1));
    default: { int u = uref(op); return mr::map(x, [&](auto& e) { return mr::fn(u, e); }); }
  }
}
inline bool applicable(int op, size_t r, size_t c) {
  switch (op) { case INV: case DET: case TRC: case POW0: case POW1: case POW2: case POW3: case MEXP3: case MLOG3: return r == c; case BCC: return c == 1; case BCR: return r == 1; case BCA: return r == 1 && c == 1;
#if defined(USE_COMPLEX_MATH)
    case URELU: case ULRELU: case UABS: return false;
#endif
    default: return true; }
}
inline Val un(World&, int op, const Val& a) {
  Val v; v.ck = KN; v.p = runa(op, a); RF f = a.f; size_t n = bcn(); v.noNaive = a.noNaive || op == INV || op == DET; v.fwdOnly = a.fwdOnly; v.nm = std::string(uoname(op)) + "(" + a.nm + ")";
  v.r = a.r; v.c = a.c; switch (op) { case TR: v.r = a.c; v.c = a.r; break; case VEC: v.r = a.r * a.c; v.c = 1; break; case DET: case TRC: case SIGA: case FRO: v.r = v.c = 1; break; case SIGR: v.r = 1; break; case SIGC: v.c = 1; break; case BCC: v.c = n; break; case BCR: v.r = n; break; case BCA: v.r = v.c = n; break; }
  v.f = [op, f, n](World& w) { return refUn(op, f(w), n); }; return v;
}
inline Val sca(World& w, int op, int sk, const Val& a) {
  Val v; v.ck = KN; v.p = rsca(op, SVal{sk, 0}, w, a); RF f = a.f; v.noNaive = a.noNaive; v.fwdOnly = a.fwdOnly; v.r = a.r; v.c = a.c; v.nm = std::string(soname(op)) + "[" + "nvpeu"[sk] + "](" + a.nm + ")";
  v.f = [op, f, sk](World& w) { RM m = f(w); Du s = w.scal(sk); return mr::map(m, [&](auto& e) -> Du { switch (op) { case SADD: case ADDS: return s + e; case SSUB: return s - e; case SUBS: return e - s; case SMUL: case MULS: return s * e; default: return e / s; } }); };
  return v;
}
} // namespace ma
