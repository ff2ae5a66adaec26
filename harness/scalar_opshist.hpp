// Short histories around every operator instance (S05, S06, S07): every operator with every combination of
// operand kinds, including operands that contain the expression being assigned; all sequences
// query - change - query over it, compared with the model.
#pragma once
#include "scalar_ops.hpp"
namespace so {
// The objects and what they mean.
struct HWorld : World {
  int id[3] = {0, 1, 2}; C val[3] = {q(0.7L), q(1.3L), q(2.1L)}; C pv[2] = {q(0.6L), q(1.7L)};
  Expression en; P ren; bool symOk = true; Expression* D = nullptr; P rD; bool custom = false;
  Env env() const { return Env{{val[id[0]], val[id[1]], val[id[2]]}, {pv[0], pv[1]}}; }
  ref::R dsum(const P& r, int o) const { ref::R t; t.ok = true; t.v = C(0); t.scale = 1; for (int k = 0; k < 3; ++k) if (id[k] == id[o]) { auto a = ref::d1(r, env(), k); t.ok = t.ok && a.ok; t.v += a.v; t.scale = std::max(t.scale, a.scale); } return t; }
  P rgNow() const { return bin(ref::SUB, re, var(1)); }
};
enum HQ { Q_NONE, Q_EVAL, Q_FX, Q_FY, Q_SWEEP, Q_TABLE, Q_HELD, Q_SYM, Q_SYM2, Q_EEVAL, Q_ESWEEP, Q_GEVAL, Q_GSWEEP, Q_ESYM, NQ };
inline const char* qname(int k) { static const char* n[] = {"-", "Eval(F)", "DevalF(F,x)", "DevalF(F,y)", "PreComp(F)", "PreCompCache(F)", "Eval(held dF/dx)", "SymDiff(F,x)", "SymDiff(SymDiff(F,x),x)", "Eval(e)", "PreComp(e)", "Eval(g)", "PreComp(g)", "SymDiff(e,x)"}; return n[k]; }
inline void sweep(HWorld& w, Expression& E, const P& r, bool chk, const std::string& h) { S1::PreComp(E); if (chk) { cmp(h + "/x", S1::DevalR(E, w.x), w.dsum(r, 0), 8); cmp(h + "/y", S1::DevalR(E, w.y), w.dsum(r, 1), 8); } }
inline void ask(HWorld& w, int k, bool chk, const std::string& h) {
  fw::trans(); Expression& F = w.en; const P& r = w.ren; P rg = w.rgNow();
  switch (k) {
    case Q_EVAL: { Type g = S1::Eval(F); if (chk) cmp(h, g, ref::value(r, w.env())); break; }
    case Q_FX: { Type g = S1::DevalF(F, w.x); if (chk) cmp(h, g, w.dsum(r, 0), 8); break; }
    case Q_FY: { Type g = S1::DevalF(F, w.y); if (chk) cmp(h, g, w.dsum(r, 1), 8); break; }
    case Q_SWEEP: sweep(w, F, r, chk, h); break;
    case Q_TABLE: { OMPair t = S1::PreCompCache(F); if (chk) { auto it = t.find(w.x.m_nidx); cmp(h, it == t.end() ? Type(0) : it->second, w.dsum(r, 0), 8); } break; }
    case Q_HELD: if (w.symOk && !w.custom) { if (!w.D) { w.D = &S1::SymDiff(F, w.x); } Type g = S1::Eval(*w.D); if (chk) cmp(h, g, w.dsum(r, 0), 20); } break;
    case Q_SYM: if (!w.custom) { Expression& d = S1::SymDiff(F, w.x); if (chk) { cmp(h, S1::Eval(d), w.dsum(r, 0), 20); } } break;
    case Q_SYM2: if (!w.custom) { Expression& d = S1::SymDiff(S1::SymDiff(F, w.x), w.x); Type g = S1::Eval(d); if (chk && w.id[0] == 0 && w.id[1] != 0 && w.id[2] != 0) cmp(h, g, ref::d2(r, w.env(), 0, 0), 200); } break;
    case Q_EEVAL: { Type g = S1::Eval(w.e); if (chk) cmp(h, g, ref::value(w.re, w.env())); break; }
    case Q_ESWEEP: sweep(w, w.e, w.re, chk, h); break;
    case Q_GEVAL: { Type g = S1::Eval(w.g); if (chk) cmp(h, g, ref::value(rg, w.env())); break; }
    case Q_GSWEEP: sweep(w, w.g, rg, chk, h); break;
    case Q_ESYM: if (!hasCustom(w.re)) { Expression& d = S1::SymDiff(w.e, w.x); if (chk) cmp(h, S1::Eval(d), w.dsum(w.re, 0), 20); } break;
  }
}
enum HC { C_NONE, C_X, C_Y, C_P, C_ALL, C_XY, C_PQ, C_SWAP, C_PX, NC };
inline const char* cname(int k) { static const char* n[] = {"-", "x:=", "y:=", "p:=", "all:=", "x=y", "p=q", "swap(x,y)", "p:=again"}; return n[k]; }
inline void change(HWorld& w, int k) {
  auto sx = [&](int o, Variable& v, C c) { v = T_(c); w.val[w.id[o]] = c; }; auto sp = [&](C c) { w.p = T_(c); w.pv[0] = c; };
  switch (k) { case C_X: sx(0, w.x, q(0.45L)); break; case C_Y: sx(1, w.y, q(0.9L)); break; case C_P: sp(q(1.25L)); break; case C_ALL: sx(0, w.x, q(1.1L)); sx(1, w.y, q(0.35L)); sp(q(0.8L)); break;
    case C_XY: w.x = w.y; w.id[0] = w.id[1]; w.symOk = false; break; case C_PQ: w.p = w.pq; w.pv[0] = w.pv[1]; break; case C_SWAP: std::swap(w.x, w.y); std::swap(w.id[0], w.id[1]); w.symOk = false; break; case C_PX: sp(q(1.25L)); sp(q(0.7L)); break; }
}
// build: HWorld& -> (formula, model); makes the operator instance on the given world
template <class B> void protocols(const B& build) {
  bool th = fw::thorough();
  auto fresh = [&](auto f) { HWorld w; f(w); };
  if (fw::isProp("S05") || fw::isProp("S07")) {
    std::vector<int> ch = fw::isProp("S05") ? std::vector<int>{C_NONE, C_X, C_Y, C_P, C_ALL} : std::vector<int>{C_P, C_PX, C_XY, C_PQ, C_SWAP};
    for (int q1 = 0; q1 < NQ; ++q1) for (int c : ch) for (int q2 = 1; q2 < NQ; ++q2) {
      auto go = [&](int c2, int q3) { fresh([&](HWorld& w) { w.ren = build(w, [&](const auto& ex, const P& r) { w.en = ex; return r; }); w.custom = hasCustom(w.ren);
        std::string h = std::string(qname(q1)) + ";" + cname(c) + ";" + qname(q2); ask(w, q1, false, h); change(w, c); ask(w, q2, true, h); if (q3) { h += std::string(";") + cname(c2) + ";" + qname(q3); change(w, c2); ask(w, q3, true, h); } fw::state(fw::hmix(fw::hmix(q1 * 97 + c, q2), fw::hmix(c2, q3))); }); };
      if (!th) { go(0, 0); continue; }
      for (int c2 : {C_NONE, C_Y, C_P}) for (int q3 : {(int)Q_EVAL, (int)Q_FX, (int)Q_SWEEP, (int)Q_HELD, (int)Q_GSWEEP}) go(c2, q3);
    }
  }
  if (fw::isProp("S06")) {
    for (int mode = 0; mode < 4; ++mode)  // 0: e = F(e); 1: twice; 2: e redefined below F; 3: e = F(e), then redefined
      for (int q1 = 0; q1 < NQ; ++q1) for (int c : {C_NONE, C_ALL}) for (int q2 = 1; q2 < NQ; ++q2) fresh([&](HWorld& w) {
        std::string h = std::string("mode") + std::to_string(mode) + "/" + qname(q1) + ";" + cname(c) + ";" + qname(q2);
        auto mkF = [&] { w.ren = build(w, [&](const auto& ex, const P& r) { w.en = ex; return r; }); w.custom = hasCustom(w.ren); };
        auto self = [&] { w.re = build(w, [&](const auto& ex, const P& r) { w.e = ex; return r; }); };
        if (mode == 2) { mkF(); w.symOk = false; ask(w, q1, false, h); w.e = sin(w.x) - w.y * w.p; w.re = bin(ref::SUB, un(ref::SIN, var(0)), bin(ref::MUL, var(1), par(0))); w.ren = build(w, [&](const auto&, const P& r) { return r; }); }
        else { w.en = w.e + w.x; w.ren = bin(ref::ADD, w.re, var(0)); w.symOk = false; ask(w, q1, false, h); self(); if (mode == 1) { ask(w, q1, false, h); self(); } if (mode == 3) { ask(w, q1, false, h); w.e = w.x * w.y; w.re = bin(ref::MUL, var(0), var(1)); } w.ren = bin(ref::ADD, w.re, var(0)); w.custom = hasCustom(w.ren); }
        change(w, c); ask(w, q2, true, h); fw::state(fw::hmix(mode * 977 + q1, fw::hmix(c, q2))); });
  }
  fw::trace();
}
} // namespace so
