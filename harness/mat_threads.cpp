// Matrix operations run from different threads on disjoint results (T01): every pair (and triple) of operations, every
// order of their synchronisation operations, every access checked for an unsynchronised conflict.
#include "mat_direct.hpp"
#include "sched.hpp"
#include <cxxabi.h>
namespace {
using std::string;
// what a thread can run: the operations, the zero reset, in-place accumulation and the gradient step of the neural network
enum { ACC = NOP, RESET, STEP, SUBIN, GETB, SETB, PADM, COPY, NACT };
string an(int o) { return o < NOP ? on(o) : o == ACC ? "accumulate" : o == RESET ? "resetzero" : o == STEP ? "step" : o == SUBIN ? "subtractinto" : o == GETB ? "getblock" : o == SETB ? "setblock" : o == PADM ? "pad" : "copydata"; }
struct Task { In x; int act; int b; N w; std::vector<MT*> m; MT* res = nullptr; N before; LD s = 1; };
bool inplace(int a) { return a == ACC || a == STEP || a == SUBIN || a == RESET || a == SETB; }
void load(MT& d, const N& s) { for (size_t k = 0; k < s.e.size(); ++k) d.getMatrixPtr()[k] = T_(s.e[k]); }
void act(Task& t) {
  switch (t.act) {
    case ACC: MO::MatrixAdd(t.res, t.m[1], t.res); break; case SUBIN: MO::MatrixSub(t.res, t.m[1], t.res); break; case RESET: M2::Details::ResetZero(t.res); break;
    case STEP: { MT* d = t.m[1]; MT* r = t.res; MO::MatrixScalarMul(T_(t.x.s), d, d); MO::MatrixAdd(r, d, r); break; }
    case GETB: t.m[0]->getBlockMat({t.x.m[0].r / 2, t.x.m[0].r - 1}, {t.x.m[0].c / 2, t.x.m[0].c - 1}, t.res); break; case SETB: t.res->setBlockMat({1, t.x.m[1].r}, {1, t.x.m[1].c}, t.m[1]); break; case PADM: t.m[0]->pad(1, 2, t.res); break; case COPY: t.res->copyData(*t.m[0]); break;
    default: run(t.x, t.m, t.res);
  }
}
// shared: 0 own operands; 1 all threads read the same operands
struct Run { std::vector<Task> t; std::vector<MT*> sharedOps; string bad; bool warm; };
Task task(int a, int size, int salt, int b) {
  Task t; t.act = a; t.b = b; int op = a < NOP ? a : ADD; std::vector<std::pair<std::vector<std::pair<size_t, size_t>>, std::array<size_t, 6>>> sh; size_t d = op == KRON || op == DTRANS || op == CONV || op == DCONV ? 2 : 3;
  shapesOf(op, d, [&](auto& s, auto& g) { sh.push_back({s, g}); }); size_t want_ = size == 0 ? sh.size() - 1 : size == 1 ? sh.size() / 2 : 0; t.x = input(op, sh[want_].first, sh[want_].second, std::vector<int>(sh[want_].first.size(), 0), salt); t.w = want(t.x);
  if (a == SUBIN) for (size_t k = 0; k < t.w.e.size(); ++k) t.w.e[k] = t.x.m[0].e[k] - t.x.m[1].e[k]; if (a == RESET) for (auto& e : t.w.e) e = C(0); if (a == STEP) for (size_t k = 0; k < t.w.e.size(); ++k) t.w.e[k] = t.x.m[0].e[k] + t.x.s * t.x.m[1].e[k];
  const N a0 = t.x.m[0]; t.before = a0;
  if (a == GETB) { size_t r0 = a0.r / 2, c0 = a0.c / 2; N n(a0.r - r0, a0.c - c0); for (size_t i = 0; i < n.r; ++i) for (size_t k = 0; k < n.c; ++k) n.at(i, k) = a0.at(i + r0, k + c0); t.w = n; }
  if (a == PADM) { N n(a0.r + 2, a0.c + 4); for (size_t i = 0; i < a0.r; ++i) for (size_t k = 0; k < a0.c; ++k) n.at(i + 1, k + 2) = a0.at(i, k); t.w = n; } if (a == COPY) t.w = a0;
  if (a == SETB) { N n(a0.r + 2, a0.c + 1); for (size_t k = 0; k < n.e.size(); ++k) n.e[k] = gen(k, 77); t.before = n; for (size_t i = 0; i < a0.r; ++i) for (size_t k = 0; k < a0.c; ++k) n.at(i + 1, k + 1) = t.x.m[1].at(i, k); t.w = n; }
  t.s = scale(t.x, t.w); for (auto& m : t.x.m) t.m.push_back(real(m)); t.res = new MT(t.w.r, t.w.c); return t;
}
void before(void* c) { Run& r = *(Run*)c; for (auto& t : r.t) { if (inplace(t.act)) load(*t.res, t.before); else for (size_t k = 0; k < t.w.e.size(); ++k) t.res->getMatrixPtr()[k] = T_(q(-55)); for (size_t i = 0; i < t.m.size(); ++i) load(*t.m[i], t.x.m[i]); } }
void after(void* c, long) { Run& r = *(Run*)c; fw::trans(r.t.size()); for (size_t i = 0; i < r.t.size(); ++i) { auto& t = r.t[i]; string n = "thread" + S(i); same(n, *t.res, t.w, t.s); for (size_t k = 0; k < t.m.size(); ++k) if (!(t.act == STEP && k == 1)) same(n + "/operand" + S(k), *t.m[k], t.x.m[k], 0); } }
void body(void* c, int i) { act(((Run*)c)->t[i]); }
void go(Run& r, int preempt) {
  if (r.warm) { before(&r); for (auto& t : r.t) act(t); }
  SchedResult o; sched_explore((int)r.t.size(), body, before, after, &r, preempt, 5000, &o); fw::trace(o.schedules); fw::check(); fw::tally("schedules", o.schedules); fw::tally("memory accesses checked", o.accesses); fw::tally("synchronisation operations", o.syncops);
  fw::state(fw::hstr(fw::G().curId)); if (o.truncated) fw::tally("truncated");
  if (o.race) { string w = o.what; fw::fail("race", w); } }
} // namespace
void enumerate(fw::Emit& emit) {
  bool th = fw::thorough();
  for (int b = 0; b < 2; ++b) for (int cold = 0; cold < 2; ++cold) for (int i = 0; i < NACT; ++i) for (int j = i; j < NACT; ++j) for (int s = 0; s < (th ? 9 : 3); ++s) for (int sh = 0; sh < 2; ++sh) {
    if (b && (eigenOnly(i) || eigenOnly(j))) continue; if (sh && (i != j || s / 3 || i == STEP)) continue; int s1 = th ? s / 3 : 0, s2 = th ? s % 3 : s;
    emit([=] { return string(bkn(b)) + (cold ? "/first/" : "/again/") + an(i) + S(s1) + "|" + an(j) + S(sh ? s1 : s2) + (sh ? "/same operands" : ""); }, [=] {
      bk(b); Run r; r.warm = !cold; r.t.push_back(task(i, s1, 1, b)); r.t.push_back(task(j, sh ? s1 : s2, sh ? 1 : 2, b)); if (sh) r.t[1].m = r.t[0].m; go(r, th ? 3 : 2); });
  }
  // three threads, and each thread running two operations of the training step in turn
  for (int b = 0; b < 2; ++b) for (int i = 0; i < NACT; ++i) for (int j = i; j < NACT; ++j) for (int k = j; k < NACT; ++k) { if (!th && !((i >= NOP || i == ADD || i == CONV || i == DCONV) && (j >= NOP || j == SCMUL || j == CONV || j == DCONV) )) continue; if (b && (eigenOnly(i) || eigenOnly(j) || eigenOnly(k))) continue;
    emit([=] { return string(bkn(b)) + "/three/" + an(i) + "|" + an(j) + "|" + an(k); }, [=] { bk(b); Run r; r.warm = true; r.t.push_back(task(i, 0, 1, b)); r.t.push_back(task(j, 1, 2, b)); r.t.push_back(task(k, 0, 3, b)); go(r, 2); }); }
}
FW_MAIN
