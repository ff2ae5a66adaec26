// Histories of matrix queries: around every operator with every combination of operand kinds, all sequences
// query - change - query over expressions sharing operands and sub-expressions (M05, M06), and all protocols of
// redefinition and self-referential assignment (M09). The model recomputes everything from the current values.
#include "mat_obs.hpp"
using namespace ma;
namespace {
struct Exp { bool ok = false; size_t r = 0, c = 0; std::vector<C> v; LD mx = 0; };
void cmpE(const std::string& h, const Matrix<Type>& g, const Exp& e) { if (fw::G().mem) { fw::check(); static Type sink; Type t = 0; for (size_t i = 0, n = g.getNumElem(); i < n; ++i) t += g[i]; sink = t; return; } if (!e.ok) { fw::skip(); return; } cmpM(h, g, e.r, e.c, [&](size_t i, size_t j) { return e.v[i * e.c + j]; }, e.mx); }
// one operator instance: builds the formula over operands of a world, reports its first operand
struct Inst { std::string nm; std::function<Val(World&, Val&)> mk; bool rev = true; };
struct Root { const char* nm; Val v; Matrix<Expression>* e = nullptr; bool rev = false, fwd = true; };
// expectations depend on the value state only: kept per case, keyed by state and question
struct Memo { std::map<std::string, Exp> m; };
Exp valOf(World& w, const Val& v) { if (fw::G().mem) return {}; auto m = model(w, v, FWD, false); Exp e; e.ok = m.ok; e.r = v.r; e.c = v.c; e.mx = m.mx; for (auto& x : m.m.e) e.v.push_back(x.v); return e; }
Exp derOf(World& w, const Val& v, Leaf& l) {
  if (fw::G().mem) return {}; auto m = model(w, v, FWD, true); Exp e; e.ok = m.ok; e.r = v.r * l.r; e.c = v.c * l.c; e.mx = m.mx; size_t n = l.r * l.c; int base = l.kind == 'V' ? l.seed : w.leaf('V', l.r, l.c, 0).seed;
  for (size_t I = 0; I < e.r; ++I) for (size_t J = 0; J < e.c; ++J) { size_t i = I / l.r, a = I % l.r, j = J / l.c, b = J % l.c, kk = a * l.c + b; e.v.push_back(m.m.at(i, j).d[base + (l.kind == 'V' ? kk : n - 1 - kk)]); }
  return e;
}
struct Grads { bool ok; LD mx; std::vector<Exp> leaf; Exp s, t; std::vector<Exp> mid; };
Grads gradOf(World& w, const Val& v) {
  if (fw::G().mem) { Grads g; g.ok = false; g.leaf.resize(w.leaves.size()); g.mid.resize(w.mid.size()); return g; } auto m = model(w, v, REV, true); Grads g; g.ok = m.ok; g.mx = m.mx; auto one = [&](int sd, size_t r, size_t c) { Exp e; e.ok = m.ok; e.mx = m.mx; e.r = r; e.c = c; for (size_t k = 0; k < r * c; ++k) e.v.push_back(m.m.e[0].d[sd + k]); return e; };
  for (auto* l : w.leaves) g.leaf.push_back(one(l->seed, l->r, l->c)); g.s = one(w.sseed[0], 1, 1); g.t = one(w.sseed[1], 1, 1); for (auto& md : w.mid) g.mid.push_back(one(md.second, 1, 1)); return g;
}
void readGrads(World& w, Matrix<Expression>& R, const Grads& g, const std::string& h) {
  size_t i = 0; for (auto* l : w.leaves) { const Exp& e = g.leaf[i++]; std::string n = h + "/" + l->kind + S(l->idx);
    switch (l->kind) { case 'T': cmpE(n, M2::DevalR(R, *(Matrix<Type>*)l->p), e); break; case 'V': case 'A': cmpE(n, M2::DevalR(R, *(Matrix<Variable>*)l->p), e); break; case 'P': cmpE(n, M2::DevalR(R, *(Matrix<Parameter>*)l->p), e); break; default: cmpE(n, M2::DevalR(R, *(Matrix<Expression>*)l->p), e); } }
  cmpE(h + "/s", M2::DevalR(R, w.s), g.s); cmpE(h + "/t", M2::DevalR(R, w.t), g.t); i = 0; for (auto& md : w.mid) { if (md.first != &R) cmpE(h + "/M", M2::DevalR(R, *(Matrix<Expression>*)md.first), g.mid[i]); ++i; }
}
struct Ask { int root; int k; };                  // k: 0 value, 1 d/dX, 2 d/dY, 3 sweep, 4 value of the node itself, 5 its d/dX
const char* kname(int k) { static const char* n[] = {"Eval(", "dX(", "dY(", "Sweep(", "EvalNode(", "dXNode("}; return n[k]; }
// ---- changes ----
const int NCH = 8;
const char* chname(int k) { static const char* n[] = {"all:=", "X entry:=", "s:=", "numbers,parameters:=", "backend", "Y entry:=", "all:=again", "t,backend"}; return n[k]; }
struct HW {
  World w; Val a, v; std::vector<Root> roots; std::vector<Ask> asks; Leaf *X = nullptr, *Y = nullptr; int st = 0; bool noNaive = false;
  World w2; Val hv, ha; Matrix<Expression>*H = nullptr, *HR = nullptr; Leaf* HX = nullptr;   // an unrelated formula of the same kind
  struct Held { const Matrix<Type>* p; size_t r, c; std::vector<Type> v; std::string nm; }; std::vector<Held> held;
  static void entry(World& w, char kind, Leaf* l, C x) { if (l) { l->v.back() = x; w.write(*l); } }
  void change(int k) {
    ++st; auto be = [&](bool n) { CoolDiff::GlobalParameters::setCPUHandler(n && !noNaive ? BK::NAIVE : BK::EIGEN); };
    switch (k) {
      case 0: w.set(1); break; case 1: entry(w, 'V', X, sc::q(0.85L, 0.2L)); break; case 2: w.sv = sc::q(1.2L, -0.3L); w.s = T_(w.sv); break;
      case 3: for (auto* l : w.leaves) if (l->kind == 'T' || l->kind == 'P') entry(w, l->kind, l, sc::q(0.9L, 0.35L)); w.qv = sc::q(0.55L); w.q = T_(w.qv); break;
      case 4: be(true); break; case 5: entry(w, 'V', Y, sc::q(1.15L, -0.1L)); break; case 6: w.set(0); break; case 7: w.tv = sc::q(0.75L, 0.15L); w.t = T_(w.tv); be(false); break; }
  }
  HW(const Inst& in, int salt) {
    CoolDiff::GlobalParameters::setCPUHandler(BK::EIGEN); w.salt = salt; v = in.mk(w, a); noNaive = v.noNaive; bool rev = in.rev && !v.fwdOnly;
    Val F = named(w, v); roots.push_back({"F", v, (Matrix<Expression>*)F.p, rev && v.r * v.c == 1});
    if (rev && v.r * v.c != 1) { Val r = un(w, SIGA, bin(w, HAD, v, V(w, 'T', v.r, v.c, 9))); roots.push_back({"R", r, (Matrix<Expression>*)named(w, r).p, true, false}); }
    // G shares the operand and contains the named F
    Val g = bin(w, ADD, un(w, SIGA, bin(w, HAD, F, un(w, USIN, F))), un(w, SIGA, a)); if (rev && v.r * v.c == 1) w.mid.push_back({F.p, -1}); else g.fwdOnly = true;
    roots.push_back({"G", g, (Matrix<Expression>*)named(w, g).p, rev && v.r * v.c == 1 && !a.fwdOnly});
    if (a.ck == KE && a.nm[0] == 'M') roots.push_back({"M", a, (Matrix<Expression>*)a.p, a.r * a.c == 1});
    for (auto* l : w.leaves) if (l->kind == 'V') { if (!X) X = l; else if (!Y) Y = l; } if (!X) X = &w.leaf('V', 1, 2, 7); if (!Y) Y = &w.leaf('V', 2, 2, 7);
    for (size_t i = 0; i < roots.size(); ++i) { asks.push_back({(int)i, 0}); if (roots[i].fwd) { asks.push_back({(int)i, 1}); if (i == 0) asks.push_back({0, 2}); } if (roots[i].rev) asks.push_back({(int)i, 3}); }
    if (v.ck == KN) { asks.push_back({0, 4}); asks.push_back({0, 5}); }
  }
  std::string an(int q) { return std::string(kname(asks[q].k)) + roots[asks[q].root].nm + ")"; }
  void ask(int q, Memo& memo, const std::string& h) {
    fw::trans(); auto [ri, k] = asks[q]; Root& r = roots[ri]; std::string key = S(st) + "/" + S(ri) + "/" + S(k == 4 ? 0 : k == 5 ? 1 : k);
    auto exp = [&](auto f) -> const Exp& { auto it = memo.m.find(key); if (it == memo.m.end()) it = memo.m.emplace(key, f()).first; return it->second; };
    switch (k) {
      case 0: cmpE(h, M2::Eval(*r.e), exp([&] { return valOf(w, r.v); })); break;
      case 4: vis(r.v, [&](auto& n) { cmpE(h, M2::Eval(n), exp([&] { return valOf(w, r.v); })); return 0; }); break;
      case 1: cmpE(h, M2::DevalF(*r.e, *(Matrix<Variable>*)X->p), exp([&] { return derOf(w, r.v, *X); })); break;
      case 5: vis(r.v, [&](auto& n) { cmpE(h, M2::DevalF(n, *(Matrix<Variable>*)X->p), exp([&] { return derOf(w, r.v, *X); })); return 0; }); break;
      case 2: cmpE(h, M2::DevalF(*r.e, *(Matrix<Variable>*)Y->p), exp([&] { return derOf(w, r.v, *Y); })); break;
      case 3: { auto gk = [&](const std::string& s, auto f) -> const Exp& { auto it = memo.m.find(key + s); if (it == memo.m.end()) it = memo.m.emplace(key + s, f()).first; return it->second; };
        if (!memo.m.count(key)) { Grads g = gradOf(w, r.v); Exp o; o.ok = g.ok; memo.m[key] = o; size_t i = 0; for (auto& e : g.leaf) gk("l" + S(i++), [&] { return e; }); gk("s", [&] { return g.s; }); gk("t", [&] { return g.t; }); i = 0; for (auto& e : g.mid) gk("m" + S(i++), [&] { return e; }); }
        Grads g; g.ok = memo.m[key].ok; for (size_t i = 0; i < w.leaves.size(); ++i) g.leaf.push_back(memo.m[key + "l" + S(i)]); g.s = memo.m[key + "s"]; g.t = memo.m[key + "t"]; for (size_t i = 0; i < w.mid.size(); ++i) g.mid.push_back(memo.m[key + "m" + S(i)]);
        M2::PreComp(*r.e); readGrads(w, *r.e, g, h); } break;
    }
  }
  // ---- M06 ----
  void hold(const Inst& in, int salt) {
    w2.salt = salt + 3; hv = in.mk(w2, ha); H = (Matrix<Expression>*)named(w2, hv).p; for (auto* l : w2.leaves) if (l->kind == 'V') { HX = l; break; } if (!HX) HX = &w2.leaf('V', 1, 2, 7);
    auto keep = [&](const Matrix<Type>& m, const std::string& n) { held.push_back({&m, m.getNumRows(), m.getNumColumns(), std::vector<Type>(m.getMatrixPtr(), m.getMatrixPtr() + m.getNumElem()), n}); };
    if (!hv.fwdOnly && in.rev) { Val r = un(w2, SIGA, bin(w2, HAD, hv, V(w2, 'T', hv.r, hv.c, 9))); HR = (Matrix<Expression>*)named(w2, r).p; M2::PreComp(*HR); for (auto* l : w2.leaves) if (l->kind == 'V') keep(M2::DevalR(*HR, *(Matrix<Variable>*)l->p), std::string("gradient of H wrt V") + S(l->idx)); }
    auto f = M2::Eval(*H); (void)f; keep(M2::Eval(*H), "value of H"); keep(M2::DevalF(*H, *(Matrix<Variable>*)HX->p), "derivative of H");
  }
  void intact(const std::string& h, bool results) {
    fw::check(); auto leavesOk = [&](World& w, const char* n) { for (auto* l : w.leaves) { auto bad = [&](auto& m, auto get) { if (m.getNumRows() != l->r || m.getNumColumns() != l->c) { fw::fail(h + "/" + l->kind + S(l->idx), std::string(n) + " operand reshaped"); return; } for (size_t k = 0; k < l->v.size(); ++k) if (!(get(m[k]) == T_(l->v[k]))) { fw::fail(h + "/" + l->kind + S(l->idx), std::string(n) + " operand entry " + S(k) + " is " + sc::str(C_(get(m[k])))); return; } };
        switch (l->kind) { case 'T': bad(*(Matrix<Type>*)l->p, [](auto& x) { return x; }); break; case 'V': bad(*(Matrix<Variable>*)l->p, [](auto& x) { return CoolDiff::TensorR1::Eval(x); }); break; case 'P': bad(*(Matrix<Parameter>*)l->p, [](auto& x) { return CoolDiff::TensorR1::Eval(x); }); break; case 'A': if (((Matrix<Variable>*)l->p)->getNumRows() != l->r) fw::fail(h + "/A", "reshaped"); break; default: if (((Matrix<Expression>*)l->p)->getNumRows() != l->r) fw::fail(h + "/E", "reshaped"); } } };
    leavesOk(w, "its"); leavesOk(w2, "unrelated");
    for (size_t n = 1; n <= 4; ++n) { auto* e = M2::MatrixBasics::Eye("CPUMemoryStrategy", n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (!((*e)(i, j) == (i == j ? Type(1) : Type(0)))) { fw::fail(h + "/Eye" + S(n), "identity damaged"); i = n; break; } if (e->getNumRows() != n || e->getNumColumns() != n) fw::fail(h + "/Eye" + S(n), "identity reshaped"); }
    for (size_t r = 1; r <= 4; ++r) for (size_t c = 1; c <= 4; ++c) { auto* z = M2::MatrixBasics::Zeros("CPUMemoryStrategy", r, c); auto* o = M2::MatrixBasics::Ones("CPUMemoryStrategy", r, c); if (z->getNumRows() != r || z->getNumColumns() != c) fw::fail(h + "/Zeros", "reshaped"); if (o->getNumRows() != r || o->getNumColumns() != c) fw::fail(h + "/Ones", "reshaped"); for (size_t k = 0; k < r * c; ++k) { if (!(z->getMatrixPtr()[k] == Type(0))) { fw::fail(h + "/Zeros" + S(r) + S(c), "zero matrix damaged"); break; } if (!(o->getMatrixPtr()[k] == Type(1))) { fw::fail(h + "/Ones" + S(r) + S(c), "matrix of ones damaged"); break; } } }
    if (results) for (auto& x : held) { fw::check(); bool same = x.p->getNumRows() == x.r && x.p->getNumColumns() == x.c; for (size_t k = 0; same && k < x.v.size(); ++k) same = x.p->getMatrixPtr()[k] == x.v[k] || (x.v[k] != x.v[k]); if (!same) fw::fail(h + "/held", "the " + x.nm + " changed"); }
  }
};
void histories(const Inst& in) {
  Memo memo; int salt = (int)(fw::hstr(in.nm) % 97); bool m6 = fw::isProp("M06"); int n; { HW h(in, salt); n = (int)h.asks.size(); }
  auto step = [&](HW& h, int q, const std::string& s, int tag) {
    fw::state(fw::hmix(fw::hstr(in.nm), fw::hmix(h.st * 64 + q, tag))); if (!m6) { h.ask(q, memo, s); return; }
    Ask a = h.asks[q]; auto& e = *h.roots[a.root].e; auto& X = *(Matrix<Variable>*)h.X->p; fw::trans();
    switch (a.k) { case 0: M2::Eval(e); break; case 1: M2::DevalF(e, X); break; case 2: M2::DevalF(e, *(Matrix<Variable>*)h.Y->p); break; case 3: M2::PreComp(e); break; case 4: vis(h.v, [&](auto& n) { M2::Eval(n); return 0; }); break; case 5: vis(h.v, [&](auto& n) { M2::DevalF(n, X); return 0; }); break; }
    h.intact(s, true); };
  auto go = [&](std::vector<int> q0, int q1, int q2) {
    HW h(in, salt); std::string s; if (m6) h.hold(in, salt);
    auto one = [&](int q) { s += (s.empty() ? "" : ";") + h.an(q); step(h, q, s, q1 * 64 + q2); };
    for (int q : q0) one(q); one(q1); for (int c = 0; c < NCH; ++c) { if (fw::memQuick() && c != 1 && c != 4) continue; h.change(c); s += std::string(";") + chname(c); one(q2); if (q1 != q2) one(q1); } fw::trace();
  };
  auto rounds = [&](int q1, int q2) {
    HW h(in, salt); if (m6) h.hold(in, salt);
    for (int k = 0; k < 36; ++k) { std::string s = "round" + S(k) + " of " + h.an(q1) + (q1 == q2 ? "" : ";" + h.an(q2)); step(h, q1, s, 0); if (q2 != q1) step(h, q2, s, 0); if (k > 17 && k % 5 == 4) h.change(h.st); } fw::trace();   // the order of go(): the memo is keyed by the number of changes
  };
  // the same query (thorough: the same pair) again and again, alone and with changes in between
  if (!fw::memQuick()) for (int q1 = 0; q1 < n; ++q1) for (int q2 = q1; q2 < (fw::thorough() ? n : q1 + 1); ++q2) rounds(q1, q2);
  for (int q1 = 0; q1 < n; ++q1) for (int q2 = 0; q2 < n; ++q2) { go({}, q1, q2); if (fw::thorough()) for (int q0 = 0; q0 < n; ++q0) go({q0}, q1, q2); }
}
std::vector<std::pair<size_t, size_t>> shp() { std::vector<std::pair<size_t, size_t>> v{{1, 1}, {2, 2}, {2, 3}}; if (!fw::memQuick()) { v.push_back({3, 1}); v.push_back({4, 3}); if (fw::isProp("M05") || fw::thorough()) v.push_back({1, 5}); if (fw::thorough()) v.push_back({4, 4}); } return v; }
std::string tg(const char* g, const std::string& o, char a, char b, size_t r, size_t c) { char t[96]; snprintf(t, 96, "%s/%s/%c%c/%zux%zu", g, o.c_str(), a, b, r, c); return t; }
void instances(const std::function<void(Inst)>& f, bool all) {
  std::string K1 = all ? "TVPEAMN" : "VEMN", K2 = all ? "TVPEAMN=" : "TVMN=";
  for (int op = 0; op < NBO; ++op) for (char a : K1) for (char b : K2) for (auto [r, c] : shp()) {
    if (op == MOD && (b == '=' || r != c) && !(b == '=' && r == c)) { if (b == '=') continue; } if (op == MUL && b == '=' && r != c) continue; if (op == CNV && (b == '=' || r * c == 1)) continue; if (!all && r != c) continue;
    f({tg("bin", bname(op), a, b, r, c), [=, r = r, c = c](World& w, Val& x) { x = K(w, a, r, c, 0); size_t yr = r, yc = c; if (op == MUL) { yr = c; yc = 2; } if (op == MOD) yr = yc = c; if (op == CNV) { yr = 2; yc = 1; convp() = ConvP{1, 1, 1, 0}; } if (op == CATV) yr = 1; if (op == CATH) yc = 1; if (op == MUL && c == 1) yc = 1;
      Val y = b == '=' ? x : K(w, b, yr, yc, 1); return bin(w, op, x, y); }}); }
  for (int op = 0; op < NUO; ++op) for (char a : K1) for (auto [r, c] : shp()) { auto r2 = r, c2 = c; if (op == BCC) c2 = 1; if (op == BCR) r2 = 1; if (op == BCA) r2 = c2 = 1; if (!applicable(op, r2, c2)) continue; if ((op >= BCC && op <= BCA) && r == 1) continue; if (op == DET && r > 1 && a == 'T') continue; if (!all && r != c) continue;
    f({tg("un", uoname(op), a, '-', r2, c2), [=](World& w, Val& x) { bcn() = 2; x = K(w, a, r2, c2, 0); return un(w, op, x); }}); }
  for (int op = 0; op < NSO; ++op) for (int sk = 0; sk < 5; ++sk) for (char a : K1) for (auto [r, c] : shp()) { if (!all && r != c) continue; if (r * c == 6 || r == 4) continue;
    f({tg("sca", std::string(soname(op)) + "nvpeu"[sk], a, '-', r, c), [=, r = r, c = c](World& w, Val& x) { x = K(w, a, r, c, 0); return sca(w, op, sk, x); }}); }
}
// Many formulas alive at once over shared leaves, each built by a helper from unnamed nodes; asked only after all have been
// built, and again in the opposite order after everything was reassigned.
void pool(int which, int of) {
  CoolDiff::GlobalParameters::setCPUHandler(BK::EIGEN); World w; w.salt = 11; int k = 0; struct It { std::string nm; Val v; Matrix<Expression>* e; bool rev; }; std::vector<It> its; Leaf *X = nullptr, *Y = nullptr;
  instances([&](Inst i) { if (k++ % of != which) return; Val a; Val v = i.mk(w, a); its.push_back({i.nm, v, (Matrix<Expression>*)named(w, v).p, i.rev && !v.fwdOnly && v.r * v.c == 1}); }, true);
  for (auto* l : w.leaves) if (l->kind == 'V') { if (!X) X = l; else if (!Y && l->r * l->c > 1) Y = l; } if (!X) X = &w.leaf('V', 2, 2, 0); if (!Y) Y = &w.leaf('V', 2, 3, 1);
  for (int pt = 0; pt < 2; ++pt) { if (pt) w.set(1);
    for (size_t j = 0; j < its.size(); ++j) { auto& x = its[pt ? its.size() - 1 - j : j]; std::string h = "pool pt" + S(pt) + "/" + x.nm; fw::trans(); fw::state(fw::hmix(fw::hstr(x.nm), 7 + pt));
      if (x.rev) { auto m = w.mid; w.mid.clear(); M2::PreComp(*x.e); readGrads(w, *x.e, gradOf(w, x.v), h + "/sweep"); w.mid = m; }
      cmpE(h, M2::Eval(*x.e), valOf(w, x.v)); cmpE(h + "/dX", M2::DevalF(*x.e, *(Matrix<Variable>*)X->p), derOf(w, x.v, *X)); if (j % 4 == 0) cmpE(h + "/dY", M2::DevalF(*x.e, *(Matrix<Variable>*)Y->p), derOf(w, x.v, *Y)); } }
  fw::trace();
}

// ---- M09: redefinition and self-reference ----
// E is a named expression whose definitions are kept in order; a formula that mentions E refers to the definition before it.
struct RInst { std::string nm; bool square; std::function<Val(World&, const Val&)> mk; };
struct RW {
  World w; Val e; Matrix<Expression>* E; std::vector<RF> defs; size_t lev = 0; Leaf *X = nullptr, *Y = nullptr; Val F, G, M; Matrix<Expression>*FE = nullptr, *GE = nullptr; size_t r, c, r0, c0; bool rev = true; bool noNaive = false; bool scalarOnly;
  Val formula(size_t r, size_t c, int k) { Val a = V(w, 'V', r, c, 0), b = V(w, 'V', r, c, 1); return k == 0 ? bin(w, HAD, a, un(w, USIN, b)) : k == 1 ? bin(w, SUB, un(w, USIN, a), b) : bin(w, ADD, a, bin(w, HAD, b, V(w, 'P', r, c, 0))); }
  Val self() { Val v = e; v.r = r; v.c = c; return v; }
  RW(const RInst& in, size_t R, size_t C2, int salt) : r(R), c(C2), r0(R), c0(C2) {
    CoolDiff::GlobalParameters::setCPUHandler(BK::EIGEN); w.salt = salt; for (char k : std::string("TPV")) for (int i = 0; i < 2; ++i) V(w, k, R, C2, i); Val f0 = formula(r, c, 0); Val nE = named(w, f0); E = (Matrix<Expression>*)nE.p; defs.push_back(f0.f); X = &w.leaf('V', r, c, 0); Y = &w.leaf('V', r, c, 1);
    e.ck = KE; e.p = E; e.nm = "E"; e.r = r; e.c = c; e.fwdOnly = r * c != 1; if (r * c == 1) w.mid.push_back({E, -1});
    e.f = [this](World& w) { size_t L = lev; if (!L) abort(); lev = L - 1; RM m = defs[L - 1](w); lev = L; if (L == defs.size()) { int sd = w.midseed(E); if (sd >= 0) m.e[0].d[sd] += ref::C(1); } return m; };
    F = named(w, in.mk(w, self())); FE = (Matrix<Expression>*)F.p; G = bin(w, ADD, un(w, SIGA, bin(w, HAD, self(), self())), un(w, SIGA, V(w, 'V', 2, 1, 5))); Val g = named(w, G); GE = (Matrix<Expression>*)g.p; noNaive = F.noNaive;
  }
  bool ok() const { return r == r0 && c == c0; }          // F and G were built for the first shape
  bool allOne = true;
  void assign(const Val& v, bool append) { vis(v, [&](auto& n) { if constexpr (std::is_same_v<std::decay_t<decltype(n)>, Matrix<Expression>>) abort(); else *E = n; return 0; }); allOne = (!append || allOne) && v.r * v.c == 1; if (!append) defs.clear(); defs.push_back(v.f); r = v.r; c = v.c; noNaive = noNaive || v.noNaive; }
  void shapeQ(const std::string& h) { fw::check(); if (E->getNumRows() != r || E->getNumColumns() != c) fw::fail(h + "/shape", "shape " + S(E->getNumRows()) + "x" + S(E->getNumColumns()) + " want " + S(r) + "x" + S(c)); if (E->getFinalNumRows() != r || E->getFinalNumColumns() != c || E->getFinalNumElem() != r * c) fw::fail(h + "/shape", "final shape " + S(E->getFinalNumRows()) + "x" + S(E->getFinalNumColumns()) + " want " + S(r) + "x" + S(c)); }
  Memo* memo = nullptr; std::string sig; const Exp& keep(const std::string& k, const std::function<Exp()>& f) { auto it = memo->m.find(sig + k); if (it == memo->m.end()) it = memo->m.emplace(sig + k, f()).first; return it->second; }
  const Exp& val(const char* k, const Val& v, size_t R, size_t C) { return keep(std::string("v") + k, [&] { lev = defs.size(); Val t = v; t.r = R; t.c = C; return valOf(w, t); }); }
  const Exp& der(const char* k, const Val& v, Leaf& l, size_t R, size_t C) { return keep(std::string(&l == X ? "x" : "y") + k, [&] { lev = defs.size(); Val t = v; t.r = R; t.c = C; return derOf(w, t, l); }); }
  std::map<std::string, Grads>* gm = nullptr; const Grads& grd(const char* k, const Val& v) { auto it = gm->find(sig + k); if (it == gm->end()) { lev = defs.size(); it = gm->emplace(sig + k, gradOf(w, v)).first; } return it->second; }
  void ask(int q, const std::string& h) {
    fw::trans(); auto& x = *(Matrix<Variable>*)X->p; auto& y = *(Matrix<Variable>*)Y->p;
    switch (q) {
      case 0: cmpE(h, M2::Eval(*E), val("E", e, r, c)); shapeQ(h); if (E->getNumRows() != r || E->getNumColumns() != c) fw::fail(h + "/shape", "shape after Eval " + S(E->getNumRows()) + "x" + S(E->getNumColumns())); break;
      case 1: cmpE(h, M2::DevalF(*E, x), der("E", e, *X, r, c)); shapeQ(h); break; case 2: cmpE(h, M2::DevalF(*E, y), der("E", e, *Y, r, c)); shapeQ(h); break;
      case 3: if (ok()) cmpE(h, M2::Eval(*FE), val("F", F, F.r, F.c)); break; case 4: if (ok()) cmpE(h, M2::DevalF(*FE, x), der("F", F, *X, F.r, F.c)); break;
      case 5: if (ok()) cmpE(h, M2::Eval(*GE), val("G", G, 1, 1)); break; case 6: if (ok()) cmpE(h, M2::DevalF(*GE, x), der("G", G, *X, 1, 1)); break;
      case 7: if (r * c == 1 && r0 * c0 == 1 && defs.size() == 1) { M2::PreComp(*E); auto sv = w.mid; w.mid.clear(); readGrads(w, *E, grd("E", e), h); w.mid = sv; } break;
      case 8: if (r * c == 1 && ok() && allOne) { M2::PreComp(*GE); { Grads g = grd("G", G); if (defs.size() > 1) for (auto& e : g.mid) e.ok = false; readGrads(w, *GE, g, h); } } break;
      case 9: { Val g2 = bin(w, ADD, un(w, SIGA, bin(w, HAD, self(), un(w, USIN, self()))), un(w, SIGA, V(w, 'V', 2, 1, 5))); auto& R = *(Matrix<Expression>*)named(w, g2).p; cmpE(h + "/new", M2::Eval(R), val("N", g2, 1, 1)); cmpE(h + "/new/dX", M2::DevalF(R, x), der("N", g2, *X, 1, 1)); break; }
    }
  }
};
const char* rq(int q) { static const char* n[] = {"Eval(E)", "DevalF(E,X)", "DevalF(E,Y)", "Eval(F(E))", "DevalF(F(E),X)", "Eval(G(E))", "DevalF(G(E),X)", "Sweep(E)", "Sweep(G(E))", "new G(E)"}; return n[q]; }
const int NRQ = 10;
void redefs(const RInst& in, size_t R, size_t C) {
  Memo memo; std::map<std::string, Grads> gm; int salt = (int)(fw::hstr(in.nm) % 97); int dep = fw::thorough() ? 4 : 3;
  std::vector<std::string> strs; for (int d = 1; d <= dep; ++d) { int b = d <= 2 ? 4 : 3, n = 1; for (int i = 0; i < d; ++i) n *= b; for (int k = 0; k < n; ++k) { std::string s; int m = k; for (int i = 0; i < d; ++i) { s += "SRDL"[m % b]; m /= b; } strs.push_back(s); } }
  for (auto& st : strs) for (int q1 = -1; q1 < NRQ; ++q1) for (int ch = 0; ch < 2; ++ch) for (int q2 = 0; q2 < NRQ; ++q2) {
    if (in.nm[0] == '~' && !fw::thorough() && st.size() == 3) continue; if (fw::memQuick() && (st.size() == 3 ? st != "SSR" && st != "SDS" : st.size() == 2 && (ch || q2 == 9))) continue; if (fw::memQuick() && (q1 == 0 || q1 == 2 || q1 == 3 || q1 == 5 || q1 == 9 || q2 == 2 || q2 == 3 || q2 == 5)) continue; if (!fw::thorough() && (st.size() == 3 ? ch == 0 || !(q1 < 2 || q1 == 8) || !(st == "SSS" || st == "SLS" || st == "SSR" || st == "SRS" || st == "SDS" || st == "RSS") : (ch == 0 && q1 >= 2 && q1 != q2) || (st.size() == 2 && (q1 == 2 || q1 == 4 || q1 == 6)))) continue;
    RW h(in, R, C, salt); h.memo = &memo; h.gm = &gm; std::string s; int rn = 0;
    auto q = [&](int k, bool) { if (k < 0) return; s += std::string(";") + rq(k); h.ask(k, s); };
    q(q1, false);
    for (char a : st) { s += a == 'S' ? ";E=F(E)" : a == 'R' ? ";E=fresh" : a == 'L' ? ";E=leaf" : ";E=fresh, other shape"; ++rn; h.sig += a;
      if (a == 'S') { if (in.square && h.r != h.c) { s += "(no)"; continue; } Val v = in.mk(h.w, h.self()); if (v.ck != KN) abort(); if (v.r * v.c > 40) { s += "(no)"; continue; } h.assign(v, true); }
      else if (a == 'L') h.assign(V(h.w, "VTPV"[rn % 4], h.r, h.c, rn % 2), false);
      else if (a == 'R') h.assign(h.formula(h.r, h.c, rn % 3), false); else { size_t r2 = h.ok() ? 2 : h.r0, c2 = h.ok() ? (h.r0 == 2 && h.c0 == 2 ? 1 : 2) : h.c0; h.assign(h.formula(r2, c2, rn % 3), false); }
      h.shapeQ(s); if (&a != &st.back()) q(q1, false); }
    if (ch) { h.sig += "!"; h.w.set(1); if (!h.noNaive) CoolDiff::GlobalParameters::setCPUHandler(BK::NAIVE); s += ";all:=,backend"; }
    q(q2, true); if (q2 != q1) { q(q1, true); }
    fw::state(fw::hmix(fw::hstr(st + in.nm), q1 * 32 + q2 + ch * 1024)); fw::trace();
  }
}
void rinstances(const std::function<void(RInst)>& f) {
  for (int op = 0; op < NBO; ++op) for (int side = 0; side < 3; ++side) for (char b : std::string("TVPEMN")) {      // E op K, K op E, E op E
    if (side == 2 && b != 'V') continue; if (op == CNV && side) continue; bool sq = (op == MUL || op == MOD) && side == 2; if (op == MOD && side == 1) sq = true; if (op == MOD && side == 2) continue;
    f({std::string(bname(op)) + (side == 0 ? "E" : side == 1 ? "k" : "EE") + b, sq, [=](World& w, const Val& e) { if (side == 2) return bin(w, op, e, e); size_t kr = e.r, kc = e.c; if (op == MUL || op == MOD) { if (side == 0) kr = kc = e.c; else kr = kc = e.r; } if (op == CATV) kr = 1; if (op == CATH) kc = 1; if (op == CNV) { kr = kc = 1; convp() = ConvP{}; } Val k = K(w, b, kr, kc, 2); return side ? bin(w, op, k, e) : bin(w, op, e, k); }}); }
  for (int op = 0; op < NUO; ++op) { if (op >= BCC && op <= BCA) continue; if (!applicable(op, 1, 1)) continue; bool sq = !applicable(op, 1, 2); f({uoname(op), sq, [=](World& w, const Val& e) { return un(w, op, e); }}); }
  for (int op = 0; op < NSO; ++op) for (int sk = 0; sk < 5; ++sk) f({std::string(soname(op)) + "nvpeu"[sk], false, [=](World& w, const Val& e) { return sca(w, op, sk, e); }});
  // the mention of E sits deeper in the formula: under every operator, on either side
  auto deep = [](World& w, const Val& e) { return bin(w, ADD, un(w, USIN, e), V(w, 'V', e.r, e.c, 0)); };
  for (int op = 0; op < NBO; ++op) for (int side = 0; side < 2; ++side) { if (op == CNV && side) continue;
    f({std::string("~") + bname(op) + (side ? "k" : "E"), op == MOD && side == 1, [=](World& w, const Val& e) { size_t kr = e.r, kc = e.c; if (op == MUL || op == MOD) { if (side == 0) kr = kc = e.c; else kr = kc = e.r; } if (op == CATV) kr = 1; if (op == CATH) kc = 1; if (op == CNV) { kr = kc = 1; convp() = ConvP{}; } Val k = K(w, 'V', kr, kc, 2), d = deep(w, e); return side ? bin(w, op, k, d) : bin(w, op, d, k); }}); }
  for (int op = 0; op < NUO; ++op) { if (op >= BCC && op <= BCA) continue; if (!applicable(op, 1, 1)) continue; bool sq = !applicable(op, 1, 2); f({std::string("~") + uoname(op), sq, [=](World& w, const Val& e) { return un(w, op, deep(w, e)); }}); }
  for (int op = 0; op < NSO; ++op) for (int sk : {0, 1, 4}) f({std::string("~") + soname(op) + "nvpeu"[sk], false, [=](World& w, const Val& e) { return sca(w, op, sk, deep(w, e)); }});
}
// loops: E = f(E), many times
void loops(fw::Emit& e) {
  int mx = fw::thorough() ? 60 : fw::memQuick() ? 20 : 36;
  for (auto [r, c] : {std::pair<size_t, size_t>{1, 1}, {2, 2}, {2, 3}}) rinstances([&, r = r, c = c](RInst i) {
    static const std::set<std::string> use = {"+EV", "-EV", "-kV", "^EV", "^kM", "*EV", "*kV", "SinM", "TanhM", "transpose", "s+Mv", "s*Mn", "s-Mu", "M/sn", "~+E", "+EN"}; if (!use.count(i.nm) || (i.square && r != c) || (i.nm == "*kV" && r != c)) return;
    e([&] { return "loop/" + i.nm + "/" + S(r) + "x" + S(c); }, [&] {
      for (int n = 2; n <= mx; n += n < 20 ? 3 : 8) for (int mode = 0; mode < 4; ++mode) {
        Memo memo; std::map<std::string, Grads> gm; RW h(i, r, c, n); h.memo = &memo; h.gm = &gm; std::string s = S(n) + " times mode" + S(mode); bool bad = false;
        for (int k = 0; k < n && !bad; ++k) { Val v = i.mk(h.w, h.self()); if (v.r * v.c > 40) { bad = true; break; } h.assign(v, true); h.sig += "S"; if (mode == 1) h.ask(0, s + "/step" + S(k)); if (mode == 2 && k % 5 == 4) h.ask(1, s + "/step" + S(k)); }
        if (bad) break; if (mode == 3) { h.sig += "!"; h.w.set(1); }
        for (int q : {0, 1, 2, 8, 9, 0}) if (q != 9 || n <= 5) h.ask(q, s + "/" + rq(q)); h.sig += "?"; h.w.set(mode == 3 ? 0 : 1); for (int q : {1, 8, 0}) h.ask(q, s + "/changed/" + rq(q)); fw::state(fw::hmix(fw::hstr(i.nm), n * 8 + mode)); fw::trace();
      } });
  });
}
} // namespace
void enumerate(fw::Emit& e) {
  if (fw::isProp("M09")) { for (auto [r, c] : {std::pair<size_t, size_t>{1, 1}, {2, 2}, {2, 3}}) rinstances([&, r = r, c = c](RInst i) { if (i.square && r != c) return; if (fw::memQuick() && (c == 3 || (c == 1 && i.nm[0] == '~'))) return; e([&] { return "redef/" + i.nm + "/" + S(r) + "x" + S(c); }, [&] { redefs(i, r, c); }); }); loops(e); return; }
  instances([&](Inst i) { e([&] { return i.nm; }, [&] { histories(i); }); }, !fw::memQuick());
  if (fw::isProp("M05")) for (int of = fw::thorough() ? 8 : fw::memQuick() ? 30 : 40, k = 0; k < of; ++k) e([&] { return "pool/" + S(k) + "of" + S(of); }, [&] { pool(k, of); });
}
FW_MAIN
