// Instantiates every matrix operator for every combination of operand types; one slice per PART.
#include "mat_any.hpp"
// A harness links the slices its property needs; the others stay undefined (weak) and are never called.
namespace ma {
__attribute__((weak)) void* rb0(const Val&, const Val&); __attribute__((weak)) void* rb1(const Val&, const Val&); __attribute__((weak)) void* rb2(const Val&, const Val&); __attribute__((weak)) void* rb3(const Val&, const Val&); __attribute__((weak)) void* rb4(const Val&, const Val&); __attribute__((weak)) void* rb5(const Val&, const Val&); __attribute__((weak)) void* rb6(const Val&, const Val&); __attribute__((weak)) void* rb7(const Val&, const Val&); __attribute__((weak)) void* rb8(const Val&, const Val&);
__attribute__((weak)) void* ru0(int, const Val&); __attribute__((weak)) void* ru1(int, const Val&); __attribute__((weak)) void* ru2(int, const Val&); __attribute__((weak)) void* ru3(int, const Val&); __attribute__((weak)) void* ru4(int, const Val&);
__attribute__((weak)) void* rs0(int, const SVal&, World&, const Val&); __attribute__((weak)) void* rs1(int, const SVal&, World&, const Val&); __attribute__((weak)) void* rs2(int, const SVal&, World&, const Val&);
#define BIN(N, EXPR) void* N(const Val& a, const Val& b) { return vis(a, [&](auto& x) { return vis(b, [&](auto& y) { return wrap(EXPR); }); }); }
#if PART == 0
BIN(rb0, x + y)
#elif PART == 1
BIN(rb1, x - y)
#elif PART == 2
BIN(rb2, x * y)
#elif PART == 3
BIN(rb3, x ^ y)
#elif PART == 4
BIN(rb4, x % y)
#elif PART == 5
BIN(rb5, x / y)
#elif PART == 6
BIN(rb6, (conv(x, y, convp().sx, convp().sy, convp().px, convp().py)))
#elif PART == 13
BIN(rb7, concat<ConcatAxis::VERTICAL>(x, y))
BIN(rb8, concat<ConcatAxis::HORIZONTAL>(x, y))
#elif PART == 7
void* ru0(int op, const Val& a) { return vis(a, [&](auto& x) -> void* { switch (op) { case TR: return wrap(transpose(x)); case VEC: return wrap(vec(x)); case INV: return wrap(inv(x)); case DET: return wrap(det(x)); case TRC: return wrap(trace(x)); case SIGR: return wrap(Sigma<Axis::ROW>(x)); case SIGC: return wrap(Sigma<Axis::COLUMN>(x)); case SIGA: return wrap(Sigma(x)); case FRO: return wrap(MatrixFrobeniusNorm(x)); case BCC: return wrap(broadcast<Axis::COLUMN>(x, bcn())); case BCR: return wrap(broadcast<Axis::ROW>(x, bcn())); case BCA: return wrap(broadcast(x, bcn())); case NEGM: return wrap((Type)(-1) * x); } abort(); }); }
#elif PART == 8
void* ru1(int op, const Val& a) { return vis(a, [&](auto& x) -> void* { switch (op) { case SMR: return wrap(SoftMax<Axis::ROW>(x)); case SMC: return wrap(SoftMax<Axis::COLUMN>(x)); case SMA: return wrap(SoftMax(x)); case POW0: return wrap(pow<0>(x)); case POW1: return wrap(pow<1>(x)); case POW2: return wrap(pow<2>(x)); case POW3: return wrap(pow<3>(x)); } return op == MEXP3 ? ru3(op, a) : ru4(op, a); }); }
#elif PART == 9
void* ru2(int op, const Val& a) { return vis(a, [&](auto& x) -> void* { switch (op) { case USIN: return wrap(SinM(x)); case UCOS: return wrap(CosM(x)); case UEXP: return wrap(ExpM(x)); case ULOG: return wrap(LogM(x)); case USQRT: return wrap(SqrtM(x)); case UTANH: return wrap(TanhM(x)); case USIGM: return wrap(SigmoidM(x));
#if !defined(USE_COMPLEX_MATH)
  case URELU: return wrap(ReLUM(x)); case ULRELU: return wrap(LeakyReLUM(x)); case UABS: return wrap(AbsM(x));
#endif
  } abort(); }); }
#elif PART == 14
void* ru3(int, const Val& a) { return vis(a, [&](auto& x) -> void* { return wrap(MatrixExp<3>(x)); }); }
#elif PART == 15
void* ru4(int, const Val& a) { return vis(a, [&](auto& x) -> void* { return wrap(MatrixLog<3>(x)); }); }
#else
template <class F> static void* visS(const SVal& s, World& w, F&& f) { switch (s.sk) { case SN: { const Type n = numScalar(); return f(n); } case SV: return f(w.s); case SP: return f(w.q); case SE: return f(w.e); default: return f(*const_cast<std::remove_const_t<std::remove_pointer_t<decltype(w.u)>>*>(w.u)); } }
#if PART == 10
void* rs0(int op, const SVal& s, World& w, const Val& a) { return vis(a, [&](auto& x) { return visS(s, w, [&](auto& k) -> void* { switch (op) { case SADD: return wrap(k + x); case ADDS: return wrap(x + k); } abort(); }); }); }
#elif PART == 11
void* rs1(int op, const SVal& s, World& w, const Val& a) { return vis(a, [&](auto& x) { return visS(s, w, [&](auto& k) -> void* { switch (op) { case SSUB: return wrap(k - x); case SUBS: return wrap(x - k); } abort(); }); }); }
#else
void* rs2(int op, const SVal& s, World& w, const Val& a) { return vis(a, [&](auto& x) { return visS(s, w, [&](auto& k) -> void* { switch (op) { case SMUL: return wrap(k * x); case MULS: return wrap(x * k); case DIVS: return wrap(x / k); } abort(); }); }); }
#endif
#endif
#if PART == 0
void* rbin(int op, const Val& a, const Val& b) { switch (op) { case ADD: return rb0(a, b); case SUB: return rb1(a, b); case MUL: return rb2(a, b); case HAD: return rb3(a, b); case MOD: return rb4(a, b); case EDV: return rb5(a, b); case CATV: return rb7(a, b); case CATH: return rb8(a, b); default: return rb6(a, b); } }
void* runa(int op, const Val& a) { if (op >= USIN && op <= UABS) return ru2(op, a); if (op >= SMR && op <= MLOG3) return ru1(op, a); return ru0(op, a); }
void* rsca(int op, const SVal& s, World& w, const Val& a) { if (op <= ADDS) return rs0(op, s, w, a); if (op <= SUBS) return rs1(op, s, w, a); return rs2(op, s, w, a); }
#endif
} // namespace ma
