// The numeric layer itself: every matrix operation of both back ends on every small shape and value pattern, with
// result buffers in every prior state (M04), and every accessor of the containers against a vector model (M07).
#include "mat_direct.hpp"
namespace {
void m04(Emit& emit) {
  bool th = fw::thorough(), lt = fw::isProp("T02") && !th;   // the instrumented build is slow
  for (int op = 0; op < NOP; ++op) {
    size_t d = op == MUL ? (th ? 6 : 4) : op == KRON || op == DTRANS ? (th ? 4 : 3) : op == CONV ? (th ? 3 : 2) : op == DCONV ? (th ? 3 : 2) : (th ? 9 : 5);
    shapesOf(op, d, [&, op](auto& sh, auto& g) { emit([&] { In x = input(op, sh, g, std::vector<int>(sh.size(), 0), 1); return "op/" + describe(x); }, [&, op] {
      int np = eigenOnly(op) ? (sh[0].first <= 4 ? (int)std::tgamma(sh[0].first + 1) : 6) : NPAT;
      if (sh.size() == 1) for (int p = 0; p < np; ++p) for (int t = 0; t < 3; ++t) { In x = input(op, sh, g, {p}, t); if (op == SCADD || op == SCMUL) x.s = t == 0 ? C(0) : t == 1 ? C(1) : q(-1.5L, 0.75L); all(x, "p" + S(p) + "t" + S(t)); }
      else if (sh.size() == 2) for (int p = 0; p < NPAT; ++p) for (int p2 = 0; p2 < NPAT; ++p2) all(input(op, sh, g, {p, p2}, 1), "p" + S(p) + S(p2), op != CONV || p == p2);
      else for (int p : {G0, GZ, PM}) all(input(op, sh, g, {p, G0, p, G1}, 1), "p" + S(p)); }); }); }
  // every matrix over a small set of values
  static const C vals[] = {C(0), C(1), C(-1), q(2.5L, -0.5L)};
  for (int op = 0; op < NOP; ++op) { if (lt || op == DCONV || op == INVERSE || op == SCADD || op == DTRANS) continue; shapesOf(op, 4, [&, op](auto& sh, auto& g) { size_t n = 0; for (auto& s : sh) n += s.first * s.second; if (n > 4 || (op == CONV && (g[0] > 2 || g[1] > 2 || g[2] > 1 || g[3] > 1))) return; emit([&] { return "values/" + describe(input(op, sh, g, std::vector<int>(sh.size(), 0), 1)); }, [&, op] {
    size_t tot = 1; for (size_t i = 0; i < n; ++i) tot *= 4; for (size_t v = 0; v < tot; ++v) { In x = input(op, sh, g, std::vector<int>(sh.size(), 0), 1); size_t u = v; for (auto& m : x.m) for (auto& e : m.e) { e = vals[u % 4]; u /= 4; } x.s = vals[v % 4]; all(x, "v" + S(v), false); } }); }); }
  // sizes past the back end's unrolling, blocking and vectorisation limits
  for (size_t a : {1, 2, 3, 7, 8, 9, 16, 17, 33}) for (size_t b : {1, 2, 3, 7, 8, 9, 16, 17, 33}) for (size_t c : {1, 3, 8, 17, 33}) emit([=] { return "big/" + S(a) + "," + S(b) + "," + S(c); }, [=] {
    all(input(MUL, {{a, b}, {b, c}}, {}, {G0, GZ}, 3), "mul"); if (c == 1) { for (int op : {ADD, SUB, HAD}) all(input(op, {{a, b}, {a, b}}, {}, {G0, GZ}, 3), on(op)); for (int op : {SCADD, SCMUL, TRANS, UNARY}) all(input(op, {{a, b}}, {}, {G0}, 3), on(op)); if (a <= 9 && b <= 9) all(input(KRON, {{a, b}, {b, a}}, {}, {GZ, G0}, 3), "kron"); if (a == b) { all(input(TRACE, {{a, a}}, {}, {G0}, 3), "trace"); if (a <= 9) { all(input(INVERSE, {{a, a}}, {}, {0}, 3), "inv"); all(input(DETER, {{a, a}}, {}, {1}, 3), "det"); } } }
    if (a >= 7 && b >= 7 && c <= 8 && a <= 17 && b <= 17) all(input(CONV, {{a, b}, {c > 7 ? 7 : c, c > 7 ? 7 : c}}, {1 + c % 2, 1, 1, 2, 0, 0}, {G0, G1}, 3), "conv"); });
  // one result pointer through every ordered pair (thorough: triple) of operations and back ends
  struct St { In x; N w; int b; LD s; std::string nm; }; static std::vector<St> steps; if (steps.empty()) for (int op = 0; op < NOP; ++op) { size_t d = op == CONV || op == DCONV || op == KRON || op == DTRANS || op == MUL ? 2 : 3; size_t k = 0; shapesOf(op, d, [&](auto& sh, auto& g) { ++k; if (op == CONV && (k % 29 != 0)) return; if (op == DCONV && (k % 41 != 0)) return; if ((op == KRON || op == DTRANS) && k % 3) return; for (int b = 0; b < (eigenOnly(op) ? 1 : 2); ++b) { St s; s.x = input(op, sh, g, std::vector<int>(sh.size(), eigenOnly(op) ? 0 : (int)GZ), (int)k); s.w = want(s.x); s.s = scale(s.x, s.w); s.b = b; s.nm = describe(s.x) + "/" + bkn(b); steps.push_back(s); } }); }
  for (size_t i = 0; i < steps.size(); ++i) emit([=] { return "chain/" + steps[i].nm; }, [=] {
    for (size_t j = lt ? i % 16 : 0; j < steps.size(); j += lt ? 16 : 1) for (size_t k = 0; k < (th ? steps.size() : 1); k += steps.size() / 8) { MT* res = nullptr; std::vector<size_t> seq = {i, j}; if (th) seq.push_back(k); std::string h; for (size_t t = 0; t < seq.size(); ++t) { auto& s = steps[seq[t]]; bk(s.b); std::vector<MT*> m; for (auto& a : s.x.m) m.push_back(real(a)); run(s.x, m, res); fw::trans(); h += (t ? ";" : "") + s.nm; if (t) same(h, *res, s.w, s.s); for (auto* p : m) delete p; } fw::state(fw::hmix(fw::hmix(i, j), k)); } fw::trace(); });
  // histories of convolutions: their handlers keep scratch matrices between calls
  static std::vector<In> cv; if (cv.empty()) { size_t k = 0; shapesOf(CONV, 3, [&](auto& sh, auto& g) { if (g[0] + g[1] > 3 || sh[0].first > 3 || sh[0].second > 3) return; size_t n = (sh[0].first + 2 * g[2]) * (sh[0].second + 2 * g[3]); ++k; if (g[2] + g[3] == 0 ? k % 9 : (n <= 16 ? k % 7 : k % 23)) return; cv.push_back(input(CONV, sh, g, {NG, G0}, (int)k)); }); k = 0; shapesOf(DCONV, 2, [&](auto& sh, auto& g) { if (++k % 23) return; cv.push_back(input(DCONV, sh, g, {NG, G0, G1, NG}, (int)k)); }); }
  for (size_t i = 0; i < cv.size(); ++i) emit([=] { return "convs/" + describe(cv[i]) + "#" ; }, [=] {
    for (size_t j = lt ? i % 8 : 0; j < cv.size(); j += lt ? 8 : 1) for (int bb = 0; bb < 4; ++bb) for (size_t k = 0; k < (th ? cv.size() : 1); k += cv.size() / 8) { std::vector<size_t> seq = {i, j}; if (th) seq.push_back(k); std::string h; for (size_t t = 0; t < seq.size(); ++t) { auto& x = cv[seq[t]]; int b = (bb >> (t & 1)) & 1; bk(b); std::vector<MT*> m; for (auto& a : x.m) m.push_back(real(a)); MT* res = nullptr; run(x, m, res); fw::trans(); h += (t ? ";" : "") + describe(x) + bkn(b); if (t || i == j) { N w = want(x); same(h, *res, w, scale(x, w)); } for (auto* p : m) delete p; } fw::state(fw::hmix(fw::hmix(i, j), bb)); } fw::trace(); });
}
// ---- containers ----
template <class T> Type val(const T& x) { if constexpr (std::is_same_v<T, Type>) return x; else if constexpr (std::is_same_v<T, Expression>) return S1::Eval(const_cast<T&>(x)); else return S1::Eval(const_cast<T&>(x)); }
template <class T> void put(Matrix<T>& m, size_t k, Type v) { if constexpr (std::is_same_v<T, Expression>) { m[k] = *new Variable(v) * (Type)1; } else m[k] = v; }
template <class T> bool eqv(const std::string& sub, const Matrix<T>& m, const N& w) {
  fw::check(); if (m.getNumRows() != w.r || m.getNumColumns() != w.c || m.getNumElem() != w.r * w.c || m.getFinalNumRows() != w.r || m.getFinalNumColumns() != w.c || m.getFinalNumElem() != w.r * w.c) { fw::fail(sub, "shape " + S(m.getNumRows()) + "x" + S(m.getNumColumns()) + " want " + S(w.r) + "x" + S(w.c)); return false; }
  for (size_t k = 0; k < w.e.size(); ++k) { C v = C_(val(m.getMatrixPtr()[k])); if (v != w.e[k]) { fw::fail(sub, "element " + S(k) + " is " + sc::str(v) + " want " + sc::str(w.e[k])); return false; } } return true;
}
template <class T> Matrix<T>* fill(const N& w) { auto* m = new Matrix<T>(w.r, w.c); for (size_t k = 0; k < w.e.size(); ++k) put(*m, k, T_(w.e[k])); return m; }
N block(const N& a, size_t r0, size_t r1, size_t c0, size_t c1) { N r(r1 - r0 + 1, c1 - c0 + 1); for (size_t i = r0; i <= r1; ++i) for (size_t j = c0; j <= c1; ++j) r.at(i - r0, j - c0) = a.at(i, j); return r; }
template <class T> void containers(Emit& emit, const char* tn) {
  size_t d = fw::thorough() ? 5 : 4; constexpr bool num = std::is_same_v<T, Type>, ex = std::is_same_v<T, Expression>;
  for (size_t r = 1; r <= d; ++r) for (size_t c = 1; c <= d; ++c) emit([=] { return std::string("box/") + tn + "/" + S(r) + "x" + S(c); }, [=] {
    N w = mk(r, c, G0, 5); auto& m = *fill<T>(w); const auto& cm = m; std::string h = tn; eqv("fill", m, w); fw::trace();
    // reading
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) { fw::trans(); fw::check(); fw::state(fw::hmix(i * 7 + j, r * 9 + c)); if (C_(val(m(i, j))) != w.at(i, j) || C_(val(cm(i, j))) != w.at(i, j)) fw::fail("at" + S(i) + "," + S(j), "operator()"); if (C_(val(m[i * c + j])) != w.at(i, j) || C_(val(cm[i * c + j])) != w.at(i, j)) fw::fail("ix" + S(i) + "," + S(j), "operator[]"); if (C_(val(m.getRowPtr(i)[j])) != w.at(i, j)) fw::fail("rowptr" + S(i) + "," + S(j), "getRowPtr"); }
    // one write touches one element
    if constexpr (!ex) for (size_t k = 0; k < r * c; ++k) for (int how = 0; how < 2; ++how) { auto& f = *fill<T>(w); N w2 = w; w2.e[k] = q(9.5L, 1); if (how) f[k] = T_(w2.e[k]); else f(k / c, k % c) = T_(w2.e[k]); fw::trans(); eqv("write" + S(k), f, w2); delete &f; }
    // rows and columns
    if constexpr (!ex) for (int mv = 0; mv < 2; ++mv) { for (size_t i = 0; i < r; ++i) { N e = block(w, i, i, 0, c - 1); e.r = c; e.c = 1; fw::trans(); if (mv) { auto& f = *fill<T>(w); Matrix<T> g = std::move(f).getRow(i); eqv("row" + S(i) + "mv", g, e); } else { Matrix<T> g = cm.getRow(i); eqv("row" + S(i), g, e); } }
      for (size_t j = 0; j < c; ++j) { N e = block(w, 0, r - 1, j, j); fw::trans(); if (mv) { auto& f = *fill<T>(w); Matrix<T> g = std::move(f).getColumn(j); eqv("col" + S(j) + "mv", g, e); } else { Matrix<T> g = cm.getColumn(j); eqv("col" + S(j), g, e); } } }
    eqv("after rows", m, w);
    // blocks
    if constexpr (!ex) for (size_t r0 = 0; r0 < r; ++r0) for (size_t r1 = r0; r1 < r; ++r1) for (size_t c0 = 0; c0 < c; ++c0) for (size_t c1 = c0; c1 < c; ++c1) {
      N b = block(w, r0, r1, c0, c1); std::string t = S(r0) + S(r1) + S(c0) + S(c1); for (int st = 0; st < 4; ++st) { Matrix<T>* g = st == 0 ? nullptr : st == 1 ? fill<T>(mk(b.r, b.c, G1, 3)) : st == 2 ? fill<T>(mk(b.c * b.r, 1, G1, 3)) : fill<T>(mk(b.r + 1, b.c + 1, G1, 3)); cm.getBlockMat({r0, r1}, {c0, c1}, g); fw::trans(); eqv("get" + t + "s" + S(st), *g, b); }
      auto& f = *fill<T>(w); N nb = mk(b.r, b.c, G1, 77), w2 = w; auto& src = *fill<T>(nb); f.setBlockMat({r0, r1}, {c0, c1}, &src); for (size_t i = 0; i < b.r; ++i) for (size_t j = 0; j < b.c; ++j) w2.at(r0 + i, c0 + j) = nb.at(i, j); fw::trans(); eqv("set" + t, f, w2); eqv("set" + t + "src", src, nb); delete &f; delete &src; }
    // padding
    if constexpr (!ex) for (size_t pr = 0; pr <= 2; ++pr) for (size_t pc = 0; pc <= 2; ++pc) { N p(r + 2 * pr, c + 2 * pc); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) p.at(i + pr, j + pc) = w.at(i, j); for (int st = 0; st < (num ? 4 : 1); ++st) { Matrix<T>* g = st == 0 ? nullptr : st == 1 ? fill<T>(mk(p.r, p.c, G1, 3)) : st == 2 ? fill<T>(mk(p.c * p.r, 1, G1, 3)) : fill<T>(mk(p.r + 1, p.c, G1, 3)); cm.pad(pr, pc, g); fw::trans(); eqv("pad" + S(pr) + S(pc) + "s" + S(st), *g, p); } }
    eqv("after blocks", m, w);
    // reshape and bulk copies
    for (size_t rr = 1; rr <= r * c; ++rr) if (r * c % rr == 0) { auto& f = *fill<T>(w); f.reshape(rr, r * c / rr); N w2 = w; w2.r = rr; w2.c = r * c / rr; fw::trans(); eqv("reshape" + S(rr), f, w2); if constexpr (!ex) { N o = mk(r, c, G1, 9); f.copyData(*fill<T>(o)); o.r = w2.r; o.c = w2.c; fw::trans(); eqv("copyData" + S(rr), f, o); f.copyData(m.getMatrixPtr()); eqv("copyPtr" + S(rr), f, w2); } f.reshape(r, c); if (ex) eqv("reshape back", f, w); }
    // constructors
    if constexpr (!ex) { C v = q(3.25L, -1); Matrix<T> a(r, c, T(T_(v))); N w2(r, c); for (auto& e : w2.e) e = v; eqv("ctor value", a, w2); Matrix<T> z(r, c); if (num) eqv("ctor zero", z, N(r, c)); Matrix<T> cp(m); eqv("ctor copy", cp, w); Matrix<T> as; as = m; eqv("assign", as, w); Matrix<T> mvd(std::move(cp)); eqv("ctor move", mvd, w); Matrix<T> ma; ma = std::move(as); eqv("assign move", ma, w); fw::trans(6); eqv("source", m, w);
      auto* buf = new T[r * c]; for (size_t k = 0; k < r * c; ++k) buf[k] = T_(w.e[k]); { Matrix<T> st(r, c, buf); eqv("ctor pointer", st, w); st(0, 0) = T_(v); fw::check(); if (C_(val(buf[0])) != v) fw::fail("ctor pointer", "does not view the buffer"); } fw::check(); if (C_(val(buf[r * c - 1])) != (r * c == 1 ? v : w.e[r * c - 1])) fw::fail("ctor pointer", "buffer damaged at destruction"); delete[] buf;
      auto& fr = Matrix<T>::MatrixFactory::CreateMatrix(r, c, T(T_(v))); eqv("factory", fr, w2); auto* fp = Matrix<T>::MatrixFactory::CreateMatrixPtr(r, c, T(T_(v))); eqv("factory ptr", *fp, w2); Matrix<T> def; fw::check(); if (def.getNumRows() != 1 || def.getNumColumns() != 1) fw::fail("default", "not 1x1"); }
    if constexpr (num) { std::ostringstream os; os << m; std::istringstream is(os.str()); std::string line; size_t i = 0; while (std::getline(is, line)) { if (line.empty()) continue; std::istringstream ls(line); Type t; size_t j = 0; while (ls >> t) { fw::check(); if (i >= r || j >= c || ref::cabs_(C_(t) - w.at(i, j)) > 1e-4L) fw::fail("print", "entry " + S(i) + "," + S(j)); ++j; } if (j != c) fw::fail("print", "row length"); ++i; } if (i != r) fw::fail("print", "rows"); }
    fw::tally("objects"); });
}
// histories over three numeric matrices: every sequence of operations to a depth, whole state compared after each
struct Box { MT* m; N w; };
void boxHist(Emit& emit) {
  int depth = fw::thorough() ? 4 : fw::isProp("T02") ? 2 : 3;
  struct OpB { std::string nm; std::function<void(std::vector<Box>&)> f; }; static std::vector<OpB> ops;
  auto cur = [](Box& b) { if (!b.m) { b.m = real(b.w); } };
  if (ops.empty()) {
    (void)cur; int a[3] = {0, 1, 2};
    for (int x : a) { ops.push_back({"w" + S(x), [x](auto& B) { size_t k = B[x].w.e.size() - 1; (*B[x].m)[k] = T_(q(5.5L)); B[x].w.e[k] = q(5.5L); }});
      ops.push_back({"tr" + S(x), [x](auto& B) { auto& b = B[x]; b.m->reshape(b.w.c, b.w.r); std::swap(b.w.r, b.w.c); }});
      for (int y : a) { ops.push_back({"get" + S(x) + S(y), [x, y](auto& B) { auto& s = B[x]; if (x == y) return; N b = block(s.w, 0, s.w.r > 1 ? 1 : 0, s.w.c - 1, s.w.c - 1); MT* p = B[y].m; s.m->getBlockMat({0, s.w.r > 1 ? 1 : 0}, {s.w.c - 1, s.w.c - 1}, p); B[y].m = p; B[y].w = b; }});
        ops.push_back({"pad" + S(x) + S(y), [x, y](auto& B) { auto& s = B[x]; if (x == y || s.w.r * s.w.c > 40) return; N p(s.w.r + 2, s.w.c); for (size_t i = 0; i < s.w.r; ++i) for (size_t j = 0; j < s.w.c; ++j) p.at(i + 1, j) = s.w.at(i, j); MT* d = B[y].m; s.m->pad(1, 0, d); B[y].m = d; B[y].w = p; }});
        ops.push_back({"put" + S(x) + S(y), [x, y](auto& B) { auto &s = B[x], &d = B[y]; if (x == y || s.w.r > d.w.r || s.w.c > d.w.c) return; d.m->setBlockMat({d.w.r - s.w.r, d.w.r - 1}, {0, s.w.c - 1}, s.m); for (size_t i = 0; i < s.w.r; ++i) for (size_t j = 0; j < s.w.c; ++j) d.w.at(d.w.r - s.w.r + i, j) = s.w.at(i, j); }});
        ops.push_back({"cp" + S(x) + S(y), [x, y](auto& B) { auto &s = B[x], &d = B[y]; if (s.w.e.size() != d.w.e.size()) return; d.m->copyData(*s.m); d.w.e = s.w.e; }});
        ops.push_back({"as" + S(x) + S(y), [x, y](auto& B) { *B[y].m = *B[x].m; B[y].w = B[x].w; }});
        ops.push_back({"add" + S(x) + S(y), [x, y](auto& B) { auto &s = B[x], &d = B[y]; if (s.w.r != d.w.r || s.w.c != d.w.c) return; MT* p = d.m; MO::MatrixAdd(s.m, d.m, p); d.m = p; for (size_t k = 0; k < s.w.e.size(); ++k) d.w.e[k] = x == y ? d.w.e[k] + d.w.e[k] : d.w.e[k] + s.w.e[k]; for (auto& e : d.w.e) e = C_(T_(e)); }}); }
      ops.push_back({"ev" + S(x), [x](auto& B) { MT& g = M2::Eval(*B[x].m); same("Eval", g, B[x].w, 0); g[0] = (Type)-3; }}); }
  }
  int n = (int)ops.size();
  auto go = [=](std::vector<int> seq) { std::vector<Box> B(3); B[0].w = mk(2, 3, G0, 1); B[1].w = mk(2, 2, G1, 2); B[2].w = mk(3, 2, GZ, 3); std::string h; for (auto& b : B) b.m = real(b.w); for (size_t t = 0; t < seq.size(); ++t) { h += (t ? ";" : "") + ops[seq[t]].nm; ops[seq[t]].f(B); fw::trans(); } for (int k = 0; k < 3; ++k) if (!same(h + "/" + S(k), *B[k].m, B[k].w, 1e-3L)) return; fw::u64 s = 0; for (auto& b : B) { s = fw::hmix(s, b.w.r * 31 + b.w.c); for (auto& e : b.w.e) s = fw::hmix(s, sc::hC(e)); } fw::state(s); };
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) emit([=] { return "hist/" + ops[i].nm + ";" + ops[j].nm; }, [=] { go({i, j}); for (int k = 0; k < n; ++k) { go({i, j, k}); if (depth > 3) for (int l = 0; l < n; ++l) go({i, j, k, l}); } fw::trace(); });
}
// the shared identity, zero and one matrices, requested in every order
void factories(Emit& emit) {
  struct Rq { int k; size_t r, c; }; static std::vector<Rq> rq; if (rq.empty()) { for (size_t n = 1; n <= 3; ++n) rq.push_back({0, n, n}); for (int k = 1; k <= 2; ++k) for (size_t r = 1; r <= 3; ++r) for (size_t c = 1; c <= 3; ++c) if (r + c <= 4 || r == c || (r == 2 && c == 3) || (r == 3 && c == 2)) rq.push_back({k, r, c}); for (size_t n = 1; n <= 2; ++n) { rq.push_back({3, n, n}); rq.push_back({4, n, n}); rq.push_back({5, n, n}); } rq.push_back({6, 2, 1}); rq.push_back({7, 1, 2}); }
  auto ask = [](const Rq& r, const std::string& h) { const MT* m = nullptr; N w(r.r, r.c); int what = r.k; switch (r.k) { case 0: m = MB::Eye(SP, r.r); break; case 1: m = MB::Zeros(SP, r.r, r.c); break; case 2: m = MB::Ones(SP, r.r, r.c); break; case 3: m = &MB::EyeRef(SP, r.r); what = 0; break; case 4: m = &MB::ZerosRef(SP, r.r); what = 1; break; case 5: m = MB::Ones(SP, r.r); what = 2; break; case 6: m = &MB::OnesRef(SP, r.r, r.c); what = 2; break; case 7: m = &MB::ZerosRef(SP, r.r, r.c); what = 1; break; }
    for (size_t i = 0; i < r.r; ++i) for (size_t j = 0; j < r.c; ++j) w.at(i, j) = what == 0 ? C(i == j) : what == 1 ? C(0) : C(1); fw::trans(); same(h, *m, w, 0); return m; };
  auto name = [](const Rq& r) { static const char* n[] = {"eye", "zeros", "ones", "eyeref", "zerosref", "ones1", "onesref", "zerosref2"}; return n[r.k] + S(r.r) + S(r.c); };
  size_t n = rq.size(); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) emit([=] { return "const/" + name(rq[i]) + ";" + name(rq[j]); }, [=] { auto* p = ask(rq[i], "first"); auto* p2 = ask(rq[j], "second"); for (size_t k = 0; k < n; ++k) { ask(rq[k], "third " + name(rq[k])); ask(rq[i], "again " + name(rq[k])); } (void)p; (void)p2; fw::state(i * 100 + j); fw::trace(); });
  for (size_t z = 1; z <= (fw::thorough() ? 40u : 20u); ++z) emit([=] { return "const/size" + S(z); }, [=] { for (size_t y = 1; y <= 4; ++y) for (int k = 0; k < 3; ++k) ask(k == 0 ? Rq{0, z, z} : Rq{k, y % 2 ? z : y, y % 2 ? y : z}, S(k) + "/" + S(y)); fw::trace(); fw::state(z + 1000000); });
}
// random fills draw from one generator
template <typename Type = ::Type> void randoms(Emit& emit) { if constexpr (std::is_floating_point_v<Type>) for (size_t r = 1; r <= 4; ++r) for (size_t c = 1; c <= 4; ++c) for (int k = 0; k < 2; ++k) emit([=] { return "random/" + S(k) + "/" + S(r) + "x" + S(c); }, [=] {
  MT m(r, c); if (k) M2::Details::FillRandomValues<std::uniform_real_distribution>(m, (Type)2, (Type)3); else M2::Details::FillRandomValues<std::normal_distribution>(m, (Type)0, (Type)1e-9); fw::trans(); fw::state(r * 16 + c); fw::trace(); for (size_t i = 0; i < r * c; ++i) { fw::check(); Type v = m[i]; if (k ? !(v >= 2 && v <= 3) : !(std::abs(v) < 1e-6)) fw::fail("", "entry " + S(i) + " was not drawn from the distribution"); } }); }
// every sequence of random fills: each call draws from the distribution it names
template <typename Type = ::Type> void fills(Emit& emit) {
  struct F { std::string nm; std::function<bool(size_t, size_t)> f; }; static std::vector<F> fs;
  if (fs.empty()) {
    auto in = [](const MT& m, size_t n, double lo, double hi) { fw::trans(); bool ok = true; for (size_t i = 0; i < n; ++i) { fw::check(); double v = std::real(m[i]); ok &= v >= lo && v <= hi && std::imag(m[i]) == 0; } return ok; };
    if constexpr (std::is_floating_point_v<Type>) for (auto ab : {std::pair<double, double>{2, 3}, {-5, -4}, {100, 101}}) { fs.push_back({"uniform" + S((long)ab.first), [=](size_t r, size_t c) { MT m(r, c); M2::Details::FillRandomValues<std::uniform_real_distribution>(m, (Type)ab.first, (Type)ab.second); return in(m, r * c, ab.first, ab.second); }});
      fs.push_back({"normal" + S((long)ab.first), [=](size_t r, size_t c) { MT m(r, c); M2::Details::FillRandomValues<std::normal_distribution>(m, (Type)ab.first, (Type)1e-4); return in(m, r * c, ab.first - .1, ab.first + .1); }}); }
    for (int b : {0, 1}) fs.push_back({"bernoulli" + S(b), [=](size_t r, size_t c) { MT m(r, c); M2::Details::FillRandomValues<std::bernoulli_distribution>(m, (double)b); return in(m, r * c, b, b); }});
    for (int b : {-7, 4}) fs.push_back({"int" + S(b), [=](size_t r, size_t c) { MT m(r, c); M2::Details::FillRandomValues<std::uniform_int_distribution<int>>(m, b, b + 2); return in(m, r * c, b, b + 2); }});
  }
  int n = (int)fs.size(); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) emit([=] { return "fill/" + fs[i].nm + ";" + fs[j].nm; }, [=] { for (int k = 0; k < n; ++k) { int q[] = {i, j, k}; std::string h; for (int t = 0; t < 3; ++t) { h += fs[q[t]].nm + ";"; fw::state(std::hash<std::string>()(h)); if (!fs[q[t]].f(1 + (i + t) % 3, 1 + (j + k) % 4)) { fw::fail(h, "an entry is outside the range of the distribution of the last call"); break; } } fw::trace(); } });
}
} // namespace
void enumerate(fw::Emit& e) {
  if (fw::isProp("M04")) { m04(e); return; } if (fw::isProp("T02")) { m04(e); randoms(e); }
  containers<Type>(e, "number"); containers<Variable>(e, "variable"); containers<Parameter>(e, "parameter"); containers<Expression>(e, "expression"); boxHist(e); factories(e); if (fw::isProp("M07")) fills(e);
}
FW_MAIN
