// Matrix formulas: every operator over every combination of operand kinds and conformable shapes, all
// formula trees to a depth, geometry grids, in both numeric back ends, at several values of the operands.
#include "mat_obs.hpp"
using namespace ma;
namespace {
struct Q { bool e, f, r; };
Q queries() { if (fw::isProp("M01")) return {true, false, false}; if (fw::isProp("M02")) return {false, true, false}; if (fw::isProp("M03")) return {false, false, true}; return {true, true, true}; }
// `direct`: also query the node itself, not only a named expression holding it
void observe(World& w, const Val& v, bool direct = false) {
  Q qs = queries(); w.leaf('V', 1, 2, 7); w.leaf('V', 2, 2, 7); w.leaf('P', 2, 1, 7);   // objects no formula uses
  bool wasFwdOnly = v.fwdOnly; Val root = named(w, v); auto& E = *(Matrix<Expression>*)root.p; Val sroot; Matrix<Expression>* R = nullptr;
  if (qs.r && !wasFwdOnly) { if (v.r * v.c == 1) { R = &E; sroot = v; } else { sroot = un(w, SIGA, bin(w, HAD, v, V(w, 'T', v.r, v.c, 9))); R = (Matrix<Expression>*)named(w, sroot).p; } }
  for (int b = 0; b < (v.noNaive ? 1 : 2); ++b) for (int k = 0; k < 3; ++k) {
    CoolDiff::GlobalParameters::setCPUHandler(b ? BK::NAIVE : BK::EIGEN); w.set(k); std::string tag = std::string(b ? "naive" : "eigen") + "/pt" + S(k) + "/"; fw::state(fw::hmix(fw::hstr(v.nm), b * 8 + k));
    if (qs.e) { auto m = model(w, v, FWD, false); fw::trans(); auto& g = M2::Eval(E); if (!m.ok) fw::skip(); else { auto at = [&](size_t i, size_t j) { return m.m.at(i, j).v; }; cmpM(tag + "eval", g, v.r, v.c, at, m.mx); if (E.getNumRows() != v.r || E.getNumColumns() != v.c) fw::fail(tag + "shape", "named expression reports " + S(E.getNumRows()) + "x" + S(E.getNumColumns()));
        if (direct) vis(v, [&](auto& x) { fw::trans(); cmpM(tag + "eval-node", M2::Eval(x), v.r, v.c, at, m.mx); return 0; }); } }
    if (qs.f) { auto m = model(w, v, FWD, true); if (!m.ok) fw::skip(); else for (auto* l : w.leaves) if (l->kind == 'V' || l->kind == 'A') {
        auto& X = *(Matrix<Variable>*)l->p; size_t n = l->r * l->c; int base = l->kind == 'V' ? l->seed : w.leaf('V', l->r, l->c, 0).seed;
        auto at = [&](size_t I, size_t J) { size_t i = I / l->r, a = I % l->r, j = J / l->c, bb = J % l->c, kk = a * l->c + bb; return m.m.at(i, j).d[base + (l->kind == 'V' ? kk : n - 1 - kk)]; };
        char nm[40]; snprintf(nm, 40, "d/d%c%d(%zux%zu)", l->kind, l->idx, l->r, l->c); fw::trans(); cmpM(tag + nm, M2::DevalF(E, X), v.r * l->r, v.c * l->c, at, m.mx);
        if (direct) vis(v, [&](auto& x) { fw::trans(); cmpM(tag + nm + "-node", M2::DevalF(x, X), v.r * l->r, v.c * l->c, at, m.mx); return 0; }); } }
    if (R) { auto m = model(w, sroot, REV, true); if (!m.ok) fw::skip(); else for (int rep = 0; rep < (k == 0 ? 2 : 1); ++rep) {
        M2::PreComp(*R); fw::trans();
        for (auto* l : w.leaves) { char nm[48]; snprintf(nm, 48, "R/d%c%d(%zux%zu)#%d", l->kind, l->idx, l->r, l->c, rep); auto at = [&](size_t a, size_t bb) { return m.m.e[0].d[l->seed + a * l->c + bb]; };
          Val x; x.p = l->p; x.ck = l->val.ck = l->kind == 'T' ? KT : l->kind == 'V' || l->kind == 'A' ? KV : l->kind == 'P' ? KP : KE;
          switch (x.ck) { case KT: cmpM(tag + nm, M2::DevalR(*R, *(Matrix<Type>*)x.p), l->r, l->c, at, m.mx); break; case KV: cmpM(tag + nm, M2::DevalR(*R, *(Matrix<Variable>*)x.p), l->r, l->c, at, m.mx); break; case KP: cmpM(tag + nm, M2::DevalR(*R, *(Matrix<Parameter>*)x.p), l->r, l->c, at, m.mx); break; default: cmpM(tag + nm, M2::DevalR(*R, *(Matrix<Expression>*)x.p), l->r, l->c, at, m.mx); } }
        for (int z = 0; z < 2; ++z) cmpM(tag + "R/d" + "st"[z] + "#" + S(rep), M2::DevalR(*R, z ? w.t : w.s), 1, 1, [&](size_t, size_t) { return m.m.e[0].d[w.sseed[z]]; }, m.mx);
        for (auto& md : w.mid) cmpM(tag + "R/dM#" + S(rep), M2::DevalR(*R, *(Matrix<Expression>*)md.first), 1, 1, [&](size_t, size_t) { return m.m.e[0].d[md.second]; }, m.mx); } }
  }
  fw::trace();
}
bool composite(int op) { return op >= TRC && op <= MLOG3; }
using Emit = fw::Emit;
std::vector<std::pair<size_t, size_t>> shapes(size_t m) { std::vector<std::pair<size_t, size_t>> s; for (size_t i = 1; i <= m; ++i) for (size_t j = 1; j <= m; ++j) s.push_back({i, j}); return s; }
std::string tag(const char* g, const std::string& o, char a, char b, size_t r, size_t c, size_t d) { char t[96]; snprintf(t, 96, "%s/%s/%c%c/%zux%zux%zu", g, o.c_str(), a, b, r, c, d); return t; }
bool light() { return fw::isProp("T02") && !fw::thorough(); }   // the instrumented build is slow
void kinds(Emit& emit, std::vector<int> ops) {
  bool lt = light();
  for (int op : ops) for (int i = 0; i < 7; ++i) for (int j = 0; j < 8; ++j) for (auto [r, c] : shapes(3)) for (size_t d = 1; d <= 3; ++d) {
    bool needD = op == MUL || op == MOD || op == CATV || op == CATH; if (!needD && d != 1) continue; if (op == MOD && (d != 1 && r != d)) continue; if (op == CNV) continue;
    char a = KINDS[i], b = j == 7 ? '=' : KINDS[j]; if (b == '=' && (op == MUL || op == MOD) && (r != c || d != 1)) continue; if (b == '=' && (op == CATV || op == CATH) && d != 1) continue;
    if (op == MOD && b != '=' && d != 1) continue; if (lt && (r > 2 || c > 2 || d > 2) && (r + c + d != 6 || i > 3 || j > 3)) continue;
    emit([=] { return tag("kinds", bname(op), a, b, r, c, d); }, [=] {
      World w; w.salt = op; Val x, y; size_t yr = r, yc = c; if (op == MUL) { yr = c; yc = d; } else if (op == MOD) { yr = yc = c; } else if (op == CATV) { yr = d; } else if (op == CATH) { yc = d; }
      x = K(w, a, r, c, 0); y = b == '=' ? x : K(w, b, yr, yc, 1); observe(w, bin(w, op, x, y), true); });
  }
}
void unaries(Emit& emit, bool comp) {
  for (int op = 0; op < NUO; ++op) { if (comp != (composite(op) || op >= BCC && op <= BCA)) continue; for (int i = 0; i < 7; ++i) for (auto [r, c] : shapes(3)) { if (!applicable(op, r, c) || (light() && r + c > 5)) continue; for (size_t n = 1; n <= (op >= BCC && op <= BCA ? 3u : 1u); ++n) { char a = KINDS[i];
    emit([=] { return tag("un", uoname(op), a, '-', r, c, n); }, [=] { World w; w.salt = op; bcn() = n; observe(w, un(w, op, K(w, a, r, c, 0)), true); }); } } }
}
// larger shapes, with fewer operand kinds
std::vector<std::pair<size_t, size_t>> wide() { std::vector<std::pair<size_t, size_t>> v = {{4, 4}, {5, 2}, {2, 5}, {1, 7}, {7, 1}, {4, 3}, {5, 5}}; if (fw::thorough()) { v.push_back({6, 6}); v.push_back({3, 6}); v.push_back({1, 12}); v.push_back({11, 1}); } return v; }
void wides(Emit& emit, std::vector<int> ops, bool un1, bool comp) {
  for (int op : ops) for (const char* k : {"VV", "V=", "TV", "VT", "NM", "EV"}) for (auto [r, c] : wide()) for (size_t d : {1, 2, 5}) {
    bool needD = op == MUL || op == CATV || op == CATH; if (!needD && d != 1) continue; bool eq = k[1] == '='; if (eq && op == MUL && (r != c || d != 1)) continue; if (eq && needD && d != 1) continue; if (op == MOD && eq) continue; if (r * c > 20 && k[0] != 'V') continue;
    emit([=] { return tag("wide", bname(op), k[0], k[1], r, c, d); }, [=] { World w; w.salt = op; size_t yr = r, yc = c; if (op == MUL) { yr = c; yc = d; } else if (op == MOD) yr = yc = c; else if (op == CATV) yr = d; else if (op == CATH) yc = d; Val x = K(w, k[0], r, c, 0), y = eq ? x : K(w, k[1], yr, yc, 1); observe(w, bin(w, op, x, y)); }); }
  if (un1) for (int op = 0; op < NUO; ++op) { if (comp != (composite(op) || op >= BCC && op <= BCA)) continue; for (char a : {'V', 'N', 'E'}) for (auto [r, c] : wide()) { if (!applicable(op, r, c) || (r * c > 20 && a != 'V')) continue; emit([=] { return tag("wideun", uoname(op), a, '-', r, c, 4); }, [=] { World w; w.salt = op; bcn() = 4; observe(w, un(w, op, K(w, a, r, c, 0))); }); } }
}
void wideScalars(Emit& emit) { for (int op = 0; op < NSO; ++op) for (int sk = 0; sk < 5; ++sk) for (char a : {'V', 'N', 'E'}) for (auto [r, c] : wide()) { if (r * c > 20 && a != 'V') continue; emit([=] { return tag("wide", std::string(soname(op)) + "nvpeu"[sk], a, '-', r, c, 1); }, [=] { World w; w.salt = op; observe(w, sca(w, op, sk, K(w, a, r, c, 0))); }); } }
void wideConvs(Emit& emit) {
  bool th = fw::thorough(); std::vector<std::pair<size_t, size_t>> im = {{5, 4}, {4, 6}, {1, 7}, {7, 1}}, ke = {{1, 1}, {2, 2}, {3, 3}, {4, 4}, {1, 4}, {5, 1}, {3, 2}};
  for (auto [r, c] : im) for (auto [kr, kc] : ke) for (size_t sx = 1; sx <= 4; ++sx) for (size_t sy = 1; sy <= 4; ++sy) for (size_t px = 0; px <= 3; ++px) for (size_t py = 0; py <= 3; ++py) {
    if (r + 2 * px < kr || c + 2 * py < kc) continue; if (!th && (sx + 2 * sy + px + 3 * py + kr + kc) % 5) continue; ConvP cp{sx, sy, px, py}; if (((r + 2 * px - kr) / sx + 1) * ((c + 2 * py - kc) / sy + 1) > (th ? 80 : 40)) continue;
    emit([=] { char t[96]; snprintf(t, 96, "wideconv/%zux%zu*%zux%zu s%zu,%zu p%zu,%zu", r, c, kr, kc, sx, sy, px, py); return std::string(t); }, [=] { World w; convp() = cp; observe(w, bin(w, CNV, K(w, 'V', r, c, 0), K(w, 'V', kr, kc, 1))); }); }
}
void scalars(Emit& emit) {
  for (int op = 0; op < NSO; ++op) for (int sk = 0; sk < 5; ++sk) for (int i = 0; i < 7; ++i) for (auto [r, c] : shapes(3)) { char a = KINDS[i]; if (light() && (r + c > 4 || i > 3)) continue;
    emit([=] { return tag("scalar", std::string(soname(op)) + "nvpeu"[sk], a, '-', r, c, 1); }, [=] { World w; w.salt = op; observe(w, sca(w, op, sk, K(w, a, r, c, 0)), true); });
    // the mix inside a larger formula, with the same scalar used twice
    if (r <= 2 && c <= 2) emit([=] { return tag("scalar2", std::string(soname(op)) + "nvpeu"[sk], a, '-', r, c, 1); }, [=] { World w; w.salt = op; Val x = K(w, a, r, c, 0); Val y = sca(w, op, sk, x); observe(w, sca(w, SMUL, sk == SN ? SV : sk, bin(w, HAD, un(w, USIN, y), x))); }); }
  for (int op = 0; op < NSO; ++op) for (int op2 = 0; op2 < NSO; ++op2) for (int sk = 0; sk < 5; ++sk) for (int sk2 = 0; sk2 < 5; ++sk2) for (size_t n = 1; n <= (light() ? 1u : 2u); ++n)
    emit([=] { return tag("scalar3", std::string(soname(op)) + soname(op2) + "nvpeu"[sk] + "nvpeu"[sk2], 'V', '-', n, n, 1); }, [=] { World w; w.salt = op; observe(w, sca(w, op2, sk2, sca(w, op, sk, V(w, 'V', n, n, 0)))); });
  // entry-based matrices of every element kind
  for (auto [r, c] : shapes(3)) for (int op = 0; op < 4; ++op) emit([=] { return tag("entries", bname(op), 'E', 'V', r, c, 1); }, [=] { World w; Val x = V(w, 'E', r, c, 0); observe(w, op == MUL ? bin(w, MUL, x, un(w, TR, x)) : bin(w, op, x, V(w, 'V', r, c, 0)), true); });
}
// ---- formula trees ----
struct T1 { int k, op; char a, b; size_t r, c, d; };   // k 0 leaf, 1 unary, 2 binary, 3 scalar mix (op scalar op, d scalar kind)
Val b1(World& w, const T1& t, int off) {
  switch (t.k) { case 0: return K(w, t.a, t.r, t.c, off); case 1: return un(w, t.op, K(w, t.a, t.r, t.c, off)); case 3: return sca(w, t.op, (int)t.d, K(w, t.a, t.r, t.c, off));
    default: { Val x = K(w, t.a, t.r, t.c, off); Val y = t.b == '=' ? x : t.op == MUL ? K(w, t.b, t.c, t.d, 1 - off) : t.op == MOD ? K(w, t.b, t.c, t.c, 1 - off) : K(w, t.b, t.r, t.c, 1 - off); return bin(w, t.op, x, y); } }
}
std::pair<size_t, size_t> sh(const T1& t) { switch (t.k) { case 1: switch (t.op) { case TR: return {t.c, t.r}; case VEC: return {t.r * t.c, 1}; case DET: case SIGA: case TRC: case FRO: return {1, 1}; case SIGR: return {1, t.c}; case SIGC: return {t.r, 1}; } break; case 2: if (t.op == MUL) return {t.r, t.d}; } return {t.r, t.c}; }
std::string n1(const T1& t) { switch (t.k) { case 0: return tag("", "", t.a, '-', t.r, t.c, 0); case 1: return tag("", uoname(t.op), t.a, '-', t.r, t.c, 0); case 3: return tag("", std::string(soname(t.op)) + "nvpeu"[t.d], t.a, '-', t.r, t.c, 0); default: return tag("", bname(t.op), t.a, t.b, t.r, t.c, t.d); } }
std::vector<T1> level1(bool big) {
  std::vector<T1> v; std::vector<std::pair<size_t, size_t>> ss = big ? std::vector<std::pair<size_t, size_t>>{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}} : std::vector<std::pair<size_t, size_t>>{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}};
  std::string lk = big ? "VTPM" : "VT";
  for (auto [r, c] : ss) for (char a : lk) v.push_back({0, 0, a, '-', r, c, 0});
  for (auto [r, c] : ss) { std::vector<int> us = {TR, VEC, INV, DET, SIGA, SIGR, SIGC, USIN, UEXP, NEGM}; if (big) { us.push_back(USQRT); us.push_back(TRC); us.push_back(UTANH); } for (int u : us) if (applicable(u, r, c)) v.push_back({1, u, 'V', '-', r, c, 0}); }
  for (auto [r, c] : ss) for (int o : {ADD, SUB, HAD, MUL, MOD}) for (char b : {'V', '='}) { if (o == MUL) { if (b == '=') { if (r == c) v.push_back({2, o, 'V', '=', r, c, c}); } else for (size_t d = 1; d <= (big ? 3u : 2u); ++d) v.push_back({2, o, 'V', 'V', r, c, d}); } else if (o == MOD) { if (b == 'V') v.push_back({2, o, 'V', 'V', r, c, c}); } else v.push_back({2, o, 'V', b, r, c, 0}); }
  for (auto [r, c] : ss) for (int o : {SADD, SMUL, SSUB, DIVS}) for (int sk : {SV, SE}) v.push_back({3, o, 'V', '-', r, c, (size_t)sk});
  return v;
}
void trees(Emit& emit) {
  bool big = fw::thorough(); static std::vector<T1> L = level1(big);
  for (auto& t : L) emit([&] { return "tree1" + n1(t); }, [&] { World w; observe(w, b1(w, t, 0), true); });
  for (int u = 0; u < NUO; ++u) { if (u >= BCC && u <= BCA) continue; for (auto& t : L) { auto [r, c] = sh(t); if (!t.k || !applicable(u, r, c)) continue; if (!big && composite(u) && u != TRC && u != SMA && u != POW2) continue; emit([&, u] { return std::string("tree2/") + uoname(u) + n1(t); }, [&, u] { World w; w.salt = u; observe(w, un(w, u, b1(w, t, 0))); }); } }
  for (int o : {ADD, SUB, MUL, HAD, MOD, EDV}) for (size_t i = 0; i < L.size(); ++i) for (size_t j = 0; j < L.size(); ++j) { auto &s = L[i], &t = L[j]; if (!s.k && !t.k) continue; auto [r, c] = sh(s); auto [r2, c2] = sh(t);
    if (o == MUL ? c != r2 : o == MOD ? (c != r2 || r2 != c2) : (r != r2 || c != c2)) continue;
    if (s.k && t.k && (o == EDV || o == MOD || !big)) { auto in = [](const T1& v) { return (v.k == 1 && (v.op == TR || v.op == USIN || v.op == SIGA || v.op == VEC)) || (v.k == 2 && v.op != SUB && v.op != MOD && (v.b == 'V' || v.op == MUL)) || (v.k == 3 && (v.op == SMUL) && v.d == SV); }; if (!in(s) || !in(t)) continue; }
    emit([&, o] { return "tree2" + n1(s) + " " + bname(o) + " " + n1(t); }, [&, o] { World w; w.salt = o; Val x = b1(w, s, 0); Val y = b1(w, t, 1); observe(w, bin(w, o, x, y)); }); }
  // a named 1x1 intermediate used twice, below and beside other operations
  for (auto& t : L) { auto [r, c] = sh(t); if (r * c > 4) continue; for (int v = 0; v < 6; ++v) emit([&, v] { return "shared/" + std::to_string(v) + n1(t); }, [&, v, r = r, c = c] {
      World w; w.salt = v; Val x = b1(w, t, 0); Val s1 = r * c == 1 ? x : un(w, SIGA, x); Val m = named(w, s1); w.mid.push_back({m.p, -1}); Val X = V(w, 'V', r, c, 0); Val one = V(w, 'V', 1, 1, 3);
      switch (v) { case 0: observe(w, bin(w, MUL, m, m)); break; case 1: observe(w, bin(w, ADD, bin(w, HAD, m, un(w, USIN, m)), one)); break; case 2: observe(w, bin(w, ADD, bin(w, MUL, m, one), un(w, SIGA, X))); break;
        case 3: { Val m2 = named(w, bin(w, MUL, m, one)); w.mid.push_back({m2.p, -1}); observe(w, bin(w, SUB, bin(w, HAD, m2, m), m2)); break; }
        case 4: { Val m2 = named(w, un(w, USIN, bin(w, ADD, m, m))); w.mid.push_back({m2.p, -1}); observe(w, bin(w, ADD, sca(w, SMUL, SV, m2), un(w, TR, m2))); break; }
        default: observe(w, bin(w, ADD, bin(w, MUL, un(w, TR, un(w, VEC, X)), un(w, VEC, X)), bin(w, HAD, m, sca(w, SUBS, SE, m)))); } }); }
}
// long chains: every internal capacity is passed
void sizes(Emit& emit) {
  int mx = fw::thorough() ? 60 : 24;
  for (int n = 1; n <= mx; n += n < 24 ? 1 : 6) for (int s = 0; s < 3; ++s) emit([=] { return tag("size", S(s), '-', '-', n, 0, 0); }, [=] {
    World w; Val e; if (s == 0) { e = V(w, 'V', 1, 1, 100); for (int i = 1; i < n; ++i) e = bin(w, ADD, e, un(w, USIN, V(w, 'V', 1, 1, 100 + i))); }
    else if (s == 1) { e = un(w, SIGA, V(w, 'V', 2, 2, 100)); for (int i = 1; i < n; ++i) e = bin(w, ADD, un(w, SIGA, V(w, i % 2 ? 'V' : 'P', 1 + i % 2, 2, 100 + i)), named(w, e)); }
    else { e = V(w, 'V', 2, 1, 100); for (int i = 1; i < std::min(n, 9); ++i) e = un(w, UTANH, bin(w, ADD, bin(w, MUL, V(w, 'V', 2, 2, 100 + i), e), V(w, 'V', 2, 1, 200 + i))); e = un(w, SIGA, e); }
    observe(w, e); });
}
// det at a singular matrix: its derivative is the adjugate, which exists
void detSingular(Emit& emit) {
  for (size_t n = 1; n <= 3; ++n) emit([=] { return tag("known/detsing", "det", 'V', '-', n, n, 0); }, [=] { World w; Val X = V(w, 'V', n, n, 0), v = un(w, DET, bin(w, HAD, X, V(w, 'T', n, n, 77))); auto& E = *(Matrix<Expression>*)named(w, v).p; auto& VX = *(Matrix<Variable>*)X.p;
    CoolDiff::GlobalParameters::setCPUHandler(BK::EIGEN); allowSingular() = true; Q q = queries(); auto m = model(w, v, q.r ? REV : FWD, true); allowSingular() = false; int sd = w.leaf('V', n, n, 0).seed; auto at = [&](size_t i, size_t j) { return m.m.e[0].d[sd + i * n + j]; };
    if (q.e) { cmpM("eval", M2::Eval(E), 1, 1, [&](size_t, size_t) { return m.m.e[0].v; }, m.mx); } if (q.f) cmpM("d", M2::DevalF(E, VX), n, n, at, m.mx); if (q.r) { M2::PreComp(E); cmpM("d", M2::DevalR(E, VX), n, n, at, m.mx); } });
}
void convs(Emit& emit) {
  size_t mi = fw::thorough() ? 4 : 3;
  for (size_t r = 1; r <= mi; ++r) for (size_t c = 1; c <= mi; ++c) for (size_t kr = 1; kr <= 3; ++kr) for (size_t kc = 1; kc <= 3; ++kc) for (size_t sx = 1; sx <= 2; ++sx) for (size_t sy = 1; sy <= 2; ++sy) for (size_t px = 0; px <= 2; ++px) for (size_t py = 0; py <= 2; ++py) {
    if (r + 2 * px < kr || c + 2 * py < kc) continue; if (light() && (r > 2 || c > 2 || kr > 2 || kc > 2 || px + py > 2)) continue; ConvP cp{sx, sy, px, py};
    const char* ks = fw::thorough() ? "VTNE" : "V"; std::vector<std::string> kp; if (fw::thorough()) { for (const char* a = ks; *a; ++a) for (const char* b = ks; *b; ++b) kp.push_back({*a, *b}); } else kp = {"VV"};
    if (!fw::thorough() && sx + sy == 3 && px + py == 1) { kp = {"VV", "TV", "VT", "NV", "VN", "EV", "VE", "PV", "MV", "VM", "AV"}; }
    for (auto& k : kp) emit([=] { char t[96]; snprintf(t, 96, "conv/%s/%zux%zu*%zux%zu s%zu,%zu p%zu,%zu", k.c_str(), r, c, kr, kc, sx, sy, px, py); return std::string(t); }, [=] { World w; convp() = cp; observe(w, bin(w, CNV, K(w, k[0], r, c, 0), K(w, k[1], kr, kc, 1)), true); }); }
  // several convolutions in one formula, equal-sized operands and paddings with different splits
  std::vector<ConvP> ps = {{1, 1, 0, 0}, {1, 1, 1, 0}, {1, 1, 0, 1}, {1, 1, 1, 1}, {2, 1, 1, 0}, {1, 2, 0, 1}, {1, 1, 2, 0}, {1, 1, 0, 2}};
  for (size_t i = 0; i < ps.size(); ++i) for (size_t j = 0; j < ps.size(); ++j) for (int v = 0; v < 4; ++v) emit([=] { return tag("conv2", S(v), '-', '-', i, j, 0); }, [=] {
    World w; Val X = V(w, 'V', 2, 2, 0), Y = V(w, 'V', 2, 2, 1), Kk = V(w, 'V', 2, 1, 2), K2 = V(w, 'V', 1, 2, 3);
    auto cv = [&](const ConvP& p, const Val& a, const Val& b) { if (a.r + 2 * p.px < b.r || a.c + 2 * p.py < b.c) return a; convp() = p; return bin(w, CNV, a, b); };
    Val a = v == 0 ? cv(ps[i], X, Kk) : v == 1 ? cv(ps[i], X, Kk) : v == 2 ? cv(ps[i], un(w, USIN, X), Kk) : cv(ps[i], X, X); Val b = v == 0 ? cv(ps[j], Y, Kk) : v == 1 ? cv(ps[j], X, K2) : v == 2 ? cv(ps[j], a, K2) : cv(ps[j], a, Kk);
    observe(w, v == 2 ? b : bin(w, ADD, un(w, SIGA, a), un(w, SIGA, b))); });
}
} // namespace
#ifndef MAT_SERIES
void enumerate(fw::Emit& e) {
  if (fw::isProp("T02")) { kinds(e, {ADD, SUB, MUL, HAD, MOD, EDV, CATV, CATH, CNV}); unaries(e, false); unaries(e, true); scalars(e); convs(e); if (fw::thorough()) { trees(e); sizes(e); } return; }
  if (fw::isProp("M10")) { kinds(e, {EDV, CATV, CATH}); unaries(e, true); wides(e, {EDV, CATV, CATH}, true, true); return; }
  if (fw::isProp("M11")) { convs(e); wideConvs(e); return; }
  if (fw::isProp("M12")) { scalars(e); wideScalars(e); return; }
  kinds(e, {ADD, SUB, MUL, HAD, MOD}); unaries(e, false); wides(e, {ADD, SUB, MUL, HAD, MOD}, true, false); trees(e); sizes(e); detSingular(e);
}
FW_MAIN
#endif
