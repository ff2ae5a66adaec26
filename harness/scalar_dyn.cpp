// Formulas assembled at run time from named expressions: all trees to a depth, all straight-line
// programs (sharing patterns) to a length, and size sweeps past every internal initial capacity.
#include "scalar_ops.hpp"
namespace so {
// ---- run-time builders over named expressions ----
static Expression& E(const Expression& a) { return *new Expression(a); }
template <class T> static Expression& EX(const T& t) { return *new Expression(t); }
static Expression& mkb(int o, Expression& a, Expression& b) {
  switch (o) { case ref::ADD: return EX(a + b); case ref::SUB: return EX(a - b); case ref::MUL: return EX(a * b); case ref::DIV: return EX(a / b); case ref::POW: return EX(pow(a, b)); default: return EX(ProductS(a, b)); }
}
static Expression& mku(int u, Expression& a) {
  Expression* r = nullptr; each(std::make_integer_sequence<int, NU>{}, [&](auto k) { if (decltype(k)::value == u) r = &EX(uop<decltype(k)::value>(a)); }); return *r;
}
// leaves of the dynamic trees
static const int NLEAF = 4;
static Expression& mkleaf(World& w, int l) { switch (l) { case 0: return EX(w.x); case 1: return EX(w.y); case 2: return EX(w.p); default: return E(w.g); } }
static P rl(World& w, int l) { switch (l) { case 0: return var(0); case 1: return var(1); case 2: return par(0); default: return w.rg; } }
struct T { int k, op, a, b; }; // k: 0 leaf, 1 un, 2 bin ; a,b index into the previous level
static const std::vector<T>& level1() { static std::vector<T> v = [] { std::vector<T> r; for (int l = 0; l < NLEAF; ++l) r.push_back({0, 0, l, 0}); for (int u = 0; u < NU; ++u) for (int l = 0; l < NLEAF; ++l) r.push_back({1, u, l, 0});
    for (int o = 0; o < 5; ++o) for (int l = 0; l < NLEAF; ++l) for (int m = 0; m < NLEAF; ++m) r.push_back({2, o, l, m}); return r; }(); return v; }
static Expression& b1(World& w, const T& t) { if (t.k == 0) return mkleaf(w, t.a); if (t.k == 1) return mku(t.op, mkleaf(w, t.a)); return mkb(t.op, mkleaf(w, t.a), mkleaf(w, t.b)); }
static P r1(World& w, const T& t) { if (t.k == 0) return rl(w, t.a); if (t.k == 1) return un(t.op, rl(w, t.a)); return bin(t.op, rl(w, t.a), rl(w, t.b)); }
static std::string n1(const T& t) { static const char* L[] = {"x", "y", "p", "g"}; if (t.k == 0) return L[t.a]; if (t.k == 1) return std::string(ref::uname(t.op)) + "(" + L[t.a] + ")"; return std::string("(") + L[t.a] + ref::oname(t.op) + L[t.b] + ")"; }

static void trees(fw::Emit& emit) {
  auto& L1 = level1(); bool light = fw::isProp("S04");
  for (auto& t : L1) emit([&] { return "tree1/" + n1(t); }, [&] { World w; observe(w, b1(w, t), r1(w, t)); });
  for (int u = 0; u < NU; ++u) for (auto& t : L1) if (t.k) emit([&, u] { return std::string("tree2/") + ref::uname(u) + n1(t); }, [&, u] { World w; observe(w, mku(u, b1(w, t)), un(u, r1(w, t)), light); });
  for (int o = 0; o < 5; ++o) for (size_t i = 0; i < L1.size(); ++i) for (size_t j = 0; j < L1.size(); ++j) {
    auto &s = L1[i], &t = L1[j]; if (!s.k && !t.k) continue;
    if (!fw::thorough() && s.k && t.k) { // quick: two deep operands only over a reduced alphabet
      auto in = [](const T& v) { return (v.k == 1 && (v.op == ref::SIN || v.op == ref::NEG || v.op == ref::EXP)) || (v.k == 2 && v.op != ref::POW && v.a < 2 && v.b < 2 && v.a != v.b) ; };
      if (!in(s) || !in(t)) continue;
    }
    emit([&, o] { return "tree2/" + n1(s) + ref::oname(o) + n1(t); }, [&, o] { World w; observe(w, mkb(o, b1(w, s), b1(w, t)), bin(o, r1(w, s), r1(w, t)), light); });
  }
}
// Straight-line programs: step i combines any two earlier values (inputs x, y or previous named steps).
struct Step { int op, a, b; }; // op 0..3 binary + - * / ; 4 sin ; 5 square by number exponent ; 6 number*value
static void slp(fw::Emit& emit, int len) {
  std::vector<int> ops = fw::thorough() ? std::vector<int>{0, 1, 2, 3, 4, 5, 6} : std::vector<int>{0, 1, 2, 4};
  std::vector<Step> prog;
  std::function<void()> rec = [&] {
    if ((int)prog.size() == len) {
      // only programs whose last step uses the step before it, to avoid repeating shorter programs
      bool used = false; auto& l = prog.back(); int prev = 2 + len - 2; if (l.a == prev || (l.op < 4 && l.b == prev)) used = true; if (!used && len > 1) return;
      auto pr = prog;
      emit([pr] { std::string s = "slp/"; for (auto& st : pr) { char b[48]; auto nm = [](int v) { return v == 0 ? std::string("x") : v == 1 ? std::string("y") : "s" + std::to_string(v - 2); }; s += st.op < 4 ? nm(st.a) + "+-*/"[st.op] + nm(st.b) + ";" : (st.op == 4 ? "sin " : st.op == 5 ? "sqr " : "2* ") + nm(st.a) + ";"; (void)b; } return s; },
           [pr] {
             World w; std::vector<Expression*> v; std::vector<P> r{var(0), var(1)};
             auto get = [&](int i) -> Variable& { return i == 0 ? w.x : i == 1 ? w.y : static_cast<Variable&>(*v[i - 2]); }; (void)get;
             auto comb = [&](const Step& s) -> Expression& {
               auto un1 = [&](auto& a) -> Expression& { return s.op == 4 ? EX(sin(a)) : s.op == 5 ? EX(pow(a, Type(2))) : EX(Type(2) * a); };
               auto bi = [&](auto& a, auto& b) -> Expression& { return s.op == 0 ? EX(a + b) : s.op == 1 ? EX(a - b) : s.op == 2 ? EX(a * b) : EX(a / b); };
               auto A = [&](int i, auto f) -> Expression& { return i == 0 ? f(w.x) : i == 1 ? f(w.y) : f(*v[i - 2]); };
               if (s.op >= 4) return A(s.a, un1);
               return A(s.a, [&](auto& a) -> Expression& { return A(s.b, [&](auto& b) -> Expression& { return bi(a, b); }); });
             };
             for (auto& s : pr) { P q = s.op < 4 ? bin(s.op, r[s.a], r[s.b]) : s.op == 4 ? un(ref::SIN, r[s.a]) : s.op == 5 ? bin(ref::POW, r[s.a], num(C(2))) : bin(ref::MUL, num(C(2)), r[s.a]); v.push_back(&comb(s)); r.push_back(q); }
             observe(w, *v.back(), r.back(), true);
           });
      return;
    }
    int n = 2 + prog.size();
    for (int o : ops) for (int a = 0; a < n; ++a) for (int b = 0; b < (o < 4 ? n : 1); ++b) { prog.push_back({o, a, b}); rec(); prog.pop_back(); }
  };
  rec();
}
// Size sweeps: many variables, long chains of named expressions, wide sums.
static void sizes(fw::Emit& emit) {
  int maxn = fw::thorough() ? 160 : 80;
  std::vector<int> ns; for (int n = 1; n <= maxn; n += (n < 40 ? 1 : 7)) ns.push_back(n); if (fw::memQuick()) ns.push_back(270); else for (int n : {100, 129, 192, 257, 300}) if (n > maxn) ns.push_back(n);
  for (int n : ns) for (int shape = 0; shape < 4; ++shape)
    emit([=] { static const char* s[] = {"sum", "pairs", "chain", "named-chain"}; return std::string("size/") + s[shape] + "/" + std::to_string(n); }, [=] {
      std::vector<Variable*> v; std::vector<LD> xv; for (int i = 0; i < n; ++i) { xv.push_back((Real)(0.5 + 0.03125 * ((i * 7) % 11))); v.push_back(new Variable((Type)(Real)xv[i])); }
      Expression en; std::vector<LD> grad(n, 0); LD val = 0;
      auto f = [&](int i) -> Expression& { return EX(sin(*v[i])); };
      if (shape == 0) { Expression* s = &f(0); for (int i = 1; i < n; ++i) s = &EX(*s + f(i)); en = *s; for (int i = 0; i < n; ++i) { val += std::sin(xv[i]); grad[i] = std::cos(xv[i]); } }
      else if (shape == 1) { Expression* s = &EX(*v[0] * (*v[0])); val = xv[0] * xv[0]; grad[0] = 2 * xv[0]; for (int i = 1; i < n; ++i) { s = &EX(*v[i - 1] * (*v[i]) + *s); val += xv[i - 1] * xv[i]; grad[i - 1] += xv[i]; grad[i] += xv[i - 1]; } en = *s; }
      else if (shape == 2) { en = *v[0] * Type(1); val = xv[0]; grad[0] = 1; for (int i = 1; i < n; ++i) { en = sin(en) + *v[i]; LD c = std::cos(val); for (int k = 0; k < i; ++k) grad[k] *= c; grad[i] = 1; val = std::sin(val) + xv[i]; } }
      else { Expression* s = &EX(*v[0]); val = xv[0]; grad[0] = 1; for (int i = 1; i < n; ++i) { s = &EX((*s) * (*v[i]) + (*s)); for (int k = 0; k < i; ++k) grad[k] *= xv[i] + 1; grad[i] = val; val = val * xv[i] + val; LD sc = 0.5L; Expression* t = &EX((*s) * Type(0.5)); s = t; for (int k = 0; k <= i; ++k) grad[k] *= sc; val *= sc; } en = *s; }
      auto rr = [&](LD x) { ref::R r; r.ok = true; r.v = C(x); r.scale = 1 + std::fabs(val) * 4 + n; return r; };
      fw::state(fw::hmix(shape, n));
      if (fw::isProp("S01")) { fw::trans(); cmp("v", S1::Eval(en), rr(val)); }
      if (fw::isProp("S02")) for (int i = 0; i < n; ++i) { fw::trans(); cmp("d" + std::to_string(i), S1::DevalF(en, *v[i]), rr(grad[i])); }
      if (fw::isProp("S03")) { for (int rep = 0; rep < 2; ++rep) { fw::trans(); S1::PreComp(en); for (int i = 0; i < n; ++i) cmp("d" + std::to_string(i), S1::DevalR(en, *v[i]), rr(grad[i])); auto t = S1::PreCompCache(en); for (int i = 0; i < n; ++i) cmp("t" + std::to_string(i), t[v[i]->m_nidx], rr(grad[i])); } }
      if (fw::isProp("S04") && (shape < 2 || (shape == 3 && n <= 24))) for (int i = 0; i < n; i += n <= 24 ? 3 : 13) { fw::trans(); cmp("D" + std::to_string(i), S1::Eval(S1::SymDiff(en, *v[i])), rr(grad[i])); }
      fw::trace();
    });
  // deep unnamed nestings (every node of the nest is visited twice per level, so depth is kept moderate)
  for (int d = 1; d <= 12; ++d) emit([=] { return "size/deep/" + std::to_string(d); }, [=] {
    World w; Expression* s = &EX(w.x); P r = var(0); for (int i = 0; i < d; ++i) { s = (i % 3 == 0) ? &EX(sin(*s) * w.y + w.x) : (i % 3 == 1) ? &EX(*s * (*s) - w.p) : &EX(Type(0.25) * (*s) / (w.z * w.z + Type(2)));
      r = (i % 3 == 0) ? bin(ref::ADD, bin(ref::MUL, un(ref::SIN, r), var(1)), var(0)) : (i % 3 == 1) ? bin(ref::SUB, bin(ref::MUL, r, r), par(0)) : bin(ref::DIV, bin(ref::MUL, num(q(0.25L)), r), bin(ref::ADD, bin(ref::MUL, var(2), var(2)), num(C(2)))); }
    observe(w, *s, r, true); });
  // static template nest of depth 8
  emit([] { return std::string("size/nest8"); }, [] { World w; Expression en{sin(cos(sin(w.x * w.y) + w.x) * w.y - w.p) * exp(-(w.x * w.x)) + w.y / (Type(3) + w.x * w.x)};
    P x = var(0), y = var(1); using ref::MUL; using ref::ADD; using ref::SUB; using ref::DIV; P a = ref::un(ref::SIN, bin(MUL, x, y)); P b = ref::un(ref::COS, bin(ADD, a, x)); P c = ref::un(ref::SIN, bin(SUB, bin(MUL, b, y), ref::par(0))); P d = ref::un(ref::EXP, ref::un(ref::NEG, bin(MUL, x, x))); P e = bin(ADD, bin(MUL, c, d), bin(DIV, y, bin(ADD, ref::num(sc::C(3)), bin(MUL, x, x)))); observe(w, en, e); });
}
// Many formulas alive at once, each built by a helper from unnamed sub-expressions (so the library alone keeps their nodes),
// asked only after all have been built, and again after the variables changed.
static void pools(fw::Emit& emit) {
  for (int n : {700, 3000, 9000}) { if (n > 3000 && !fw::thorough() && fw::memQuick()) continue;
    emit([=] { return "pool/" + std::to_string(n); }, [=] {
      World w; std::vector<Expression*> es; std::vector<P> rs; auto c = [](int i) { return q(0.25L + 0.03125L * (i % 23)); };
      auto build = [&](int i) { P x = var(i % 3), y = var((i / 3) % 3), k = num(c(i)); Variable* v[] = {&w.x, &w.y, &w.z}; auto &X = *v[i % 3], &Y = *v[(i / 3) % 3]; Type kk = T_(c(i));
        switch (i % 7) {
          case 0: es.push_back(new Expression(sin(X * Y) + kk * X)); rs.push_back(bin(ref::ADD, un(ref::SIN, bin(ref::MUL, x, y)), bin(ref::MUL, k, x))); break;
          case 1: es.push_back(new Expression(kk / (X * X + Type(2)) - Y)); rs.push_back(bin(ref::SUB, bin(ref::DIV, k, bin(ref::ADD, bin(ref::MUL, x, x), num(C(2)))), y)); break;
          case 2: es.push_back(new Expression(pow(X, Type(2)) * cos(Y) + w.p)); rs.push_back(bin(ref::ADD, bin(ref::MUL, bin(ref::POW, x, num(C(2))), un(ref::COS, y)), par(0))); break;
          case 3: es.push_back(new Expression(exp(kk * X) * (Y - X))); rs.push_back(bin(ref::MUL, un(ref::EXP, bin(ref::MUL, k, x)), bin(ref::SUB, y, x))); break;
          case 4: { Expression& a = EX(X * kk); es.push_back(new Expression(sin(a) * a + Y)); P m = bin(ref::MUL, x, k); rs.push_back(bin(ref::ADD, bin(ref::MUL, un(ref::SIN, m), m), y)); } break;
          case 5: es.push_back(new Expression(-(X + kk) * tanh(Y))); rs.push_back(bin(ref::MUL, un(ref::NEG, bin(ref::ADD, x, k)), un(ref::TANH, y))); break;
          default: if (i > 40) { Expression& o = *es[i / 2]; es.push_back(new Expression(Type(0.5) * o - kk)); rs.push_back(bin(ref::SUB, bin(ref::MUL, num(q(0.5L)), rs[i / 2]), k)); } else { es.push_back(new Expression(X)); rs.push_back(x); }
        } };
      for (int i = 0; i < n; ++i) build(i);
      auto& pts = points();
      for (size_t k = 0; k < 2 && k < pts.size(); ++k) { w.set(pts[k]); auto ev = World::env(pts[k]);
        for (int j = 0; j < n; ++j) { int i = k ? n - 1 - j : j; std::string h = "pt" + std::to_string(k) + "/formula" + std::to_string(i); Expression& e = *es[i]; fw::trans(); fw::state(fw::hmix(fw::hmix(n, i), k));
          if (fw::isProp("S01")) cmp(h + "/v", S1::Eval(e), ref::value(rs[i], ev));
          if (fw::isProp("S02")) { cmp(h + "/dx", S1::DevalF(e, w.x), ref::d1(rs[i], ev, 0)); cmp(h + "/dy", S1::DevalF(e, w.y), ref::d1(rs[i], ev, 1)); }
          if (fw::isProp("S03")) { S1::PreComp(e); cmp(h + "/dx", S1::DevalR(e, w.x), ref::d1(rs[i], ev, 0)); cmp(h + "/dz", S1::DevalR(e, w.z), ref::d1(rs[i], ev, 2)); }
          if (fw::isProp("S04") && (i % 8 == 0 || n < 1000)) cmp(h + "/D", S1::Eval(S1::SymDiff(e, w.x)), ref::d1(rs[i], ev, 0)); } }
      fw::trace(); }); }
}
// Variables created far apart: derivatives with respect to one must not be taken for another, whatever the distance between them.
static void far(fw::Emit& emit) {
  std::vector<size_t> ds; for (size_t b : {8, 10, 12, 14, 16}) for (int o = -1; o <= 1; ++o) ds.push_back((size_t(1) << b) + o); for (size_t d : {1000, 100000}) ds.push_back(d); if (fw::thorough()) for (int o = -1; o <= 1; ++o) ds.push_back((size_t(1) << 20) + o);
  for (size_t d : ds) { if (fw::memQuick() && d > 5000) continue;
    for (int shape = 0; shape < 3; ++shape) emit([=] { return "far/" + std::to_string(d) + "/" + std::to_string(shape); }, [=] {
      auto gap = [](size_t from, size_t dist) { for (;;) { Variable t; if (t.m_nidx + 1 >= from + dist) break; } };
      World w; Variable a(T_(q(0.8L))); gap(a.m_nidx, d); Variable b(T_(q(1.3L))); gap(b.m_nidx, d); Variable c(T_(q(0.6L))); Variable* v[] = {&a, &b, &c};
      Expression e, m; P r, x = var(0), y = var(1), z = var(2);
      if (shape == 0) { e = a * b + sin(b) * c - a; r = bin(ref::SUB, bin(ref::ADD, bin(ref::MUL, x, y), bin(ref::MUL, un(ref::SIN, y), z)), x); }
      else if (shape == 1) { m = a * b; gap(m.m_nidx, d); Expression& m2 = EX(m * c); e = sin(m) + m2 * b; P rm = bin(ref::MUL, x, y); r = bin(ref::ADD, un(ref::SIN, rm), bin(ref::MUL, bin(ref::MUL, rm, z), y)); }
      else { Expression& s = EX(a / b); gap(s.m_nidx, d); m = s * s + c; gap(m.m_nidx, d); e = pow(m, Type(2)) - s; P rs = bin(ref::DIV, x, y); r = bin(ref::SUB, bin(ref::POW, bin(ref::ADD, bin(ref::MUL, rs, rs), z), num(C(2))), rs); }
      Env ev; ev.x = {q(0.8L), q(1.3L), q(0.6L)}; fw::state(fw::hmix(d, shape));
      for (int rep = 0; rep < 2; ++rep) {
        if (rep) { ev.x = {q(0.7L), q(1.1L), q(0.9L)}; for (int i = 0; i < 3; ++i) *v[i] = T_(ev.x[i]); }
        std::string h = rep ? "again/" : ""; fw::trans();
        if (fw::isProp("S01")) cmp(h + "v", S1::Eval(e), ref::value(r, ev));
        if (fw::isProp("S02")) for (int i = 0; i < 3; ++i) cmp(h + "d" + std::to_string(i), S1::DevalF(e, *v[i]), ref::d1(r, ev, i));
        if (fw::isProp("S03")) { S1::PreComp(e); for (int i = 0; i < 3; ++i) cmp(h + "d" + std::to_string(i), S1::DevalR(e, *v[i]), ref::d1(r, ev, i)); auto t = S1::PreCompCache(e); for (int i = 0; i < 3; ++i) cmp(h + "t" + std::to_string(i), t[v[i]->m_nidx], ref::d1(r, ev, i)); }
        if (fw::isProp("S04")) for (int i = 0; i < 3; ++i) { Expression& D = S1::SymDiff(e, *v[i]); cmp(h + "D" + std::to_string(i), S1::Eval(D), ref::d1(r, ev, i)); for (int j = 0; j < 3; ++j) cmp(h + "D" + std::to_string(i) + std::to_string(j), S1::Eval(S1::SymDiff(D, *v[j])), ref::d2(r, ev, i, j)); }
      }
      fw::trace(); }); }
}
// elementary functions far from and close to the origin, where a formula may overflow or cancel although the function does not
static void range(fw::Emit& emit) {
  static const LD xs[] = {1e-7L, 1e-3L, 5, 19, 60, 300, 400, 690, 1e5L};
  for (int u = 0; u < NU; ++u) for (int s = 0; s < 18; ++s) { LD xv = (Real)(s % 2 ? -xs[s / 2] : xs[s / 2]);
    emit([=] { char b[64]; snprintf(b, 64, "range/%s(%Lg)", ref::uname(u), xv); return std::string(b); }, [=] {
      Variable x((Type)(Real)xv); Expression& e = mku(u, EX(x)); P r = un(u, var(0)); Env ev; ev.x = {q(xv)}; const LD big = sizeof(Real) == 4 ? 1e30L : 1e250L;
      auto c = [&](const char* nm, const Type& got, ref::R want) { if (!want.ok || want.scale > big) { fw::skip(); return; } fw::check(); LD sc = 1 + ref::cabs_(want.v); if (!close(C_(got), want.v, sc)) fw::fail(nm, "got " + str(C_(got)) + " want " + str(want.v)); };
      fw::state(fw::hmix(u, s)); fw::trans(); auto v = ref::value(r, ev), d = ref::d1(r, ev, 0);
      if (fw::isProp("S01")) c("v", S1::Eval(e), v);
      if (fw::isProp("S02")) c("d", S1::DevalF(e, x), d);
      if (fw::isProp("S03")) { S1::PreComp(e); c("d", S1::DevalR(e, x), d); }
      if (fw::isProp("S04") && u < ref::SINS) { Expression& D = S1::SymDiff(e, x); c("D", S1::Eval(D), d); Expression& D2 = S1::SymDiff(D, x); c("DD", S1::Eval(D2), ref::d2(r, ev, 0, 0)); }
      fw::trace(); }); }
}
// third-order symbolic derivatives over a reduced alphabet, all orders of differentiation
static void third(fw::Emit& emit) {
  if (!fw::isProp("S04")) return;
  auto& L1 = level1();
  for (auto& t : L1) if (t.k) for (int wrap = 0; wrap < 3; ++wrap) emit([&, wrap] { static const char* nm[] = {"", "*x", "sin"}; return "third/" + n1(t) + nm[wrap]; }, [&, wrap] {
    World w; Expression& b = b1(w, t); P r = r1(w, t); Expression* e = &b; if (wrap == 1) { e = &EX(b * w.x); r = bin(ref::MUL, r, var(0)); } else if (wrap == 2) { e = &EX(sin(b)); r = un(ref::SIN, r); }
    if (hasCustom(r)) return;  auto& pts = points(); Variable* vs[2] = {&w.x, &w.y};
    struct D { int i, j, l; Expression* e; }; std::vector<D> ds;
    for (int i = 0; i < 2; ++i) { Expression& di = S1::SymDiff(*e, *vs[i]); for (int j = 0; j < 2; ++j) { Expression& dj = S1::SymDiff(di, *vs[j]); for (int l = 0; l < 2; ++l) ds.push_back({i, j, l, &S1::SymDiff(dj, *vs[l])}); } }
    for (size_t k = 0; k < pts.size(); ++k) { w.set(pts[k]); auto ev = World::env(pts[k]); fw::state(fw::hmix(fw::hstr(ref::show(r) + "3"), k)); for (auto& d : ds) { fw::trans(); cmp("pt" + std::to_string(k) + "/D" + "xy"[d.i] + "xy"[d.j] + "xy"[d.l], S1::Eval(*d.e), ref::d3(r, ev, d.i, d.j, d.l), 200); } }
     fw::trace(); });
}
// Inputs of the recorded known findings (known_findings.txt); the general cases leave these domains out.
static void known(fw::Emit& emit) {
#if defined(USE_COMPLEX_MATH)
  if (!fw::isProp("S01")) emit([] { return std::string("known/acosh-left-half-plane"); }, [] {
    Variable x(T_(q(-1.1L, 0.6L))); Expression e{acosh(x)}; Env ev; ev.x = {q(-1.1L, 0.6L)}; P r = un(ref::ACOSH, var(0)); fw::trans(); fw::trace(); fw::state(1);
    ref::acoshAll() = true; auto want = ref::d1(r, ev, 0); ref::acoshAll() = false;
    if (fw::isProp("S02")) cmp("d", S1::DevalF(e, x), want);
    if (fw::isProp("S03")) { S1::PreComp(e); cmp("d", S1::DevalR(e, x), want); }
    if (fw::isProp("S04")) cmp("d", S1::Eval(S1::SymDiff(e, x)), want); });
#else
  if (fw::isProp("S04")) emit([] { return std::string("known/second-derivative-of-x^p-at-negative-x"); }, [] {
    Variable x((Type)-1.5); Parameter p((Type)2); Expression e{pow(x, p)}; fw::trans(); fw::trace(); fw::state(2);
    ref::R want; want.ok = true; want.v = 2; want.scale = 10; cmp("d2", S1::Eval(S1::SymDiff(S1::SymDiff(e, x), x)), want); });
#endif
}
} // namespace so
void enumerate(fw::Emit& e) {
  ref::parIsExpr() = fw::isProp("S04");
#ifndef DYNONLY
  so::part0(e); so::part1(e); so::part2(e); so::part3(e); so::part4(e); so::part7(e); so::part5(e); so::part6(e);
#endif
  if (!fw::memQuick() || !fw::isProp("S04")) so::trees(e); so::slp(e, 1); so::slp(e, 2); if (!fw::memQuick() || !fw::isProp("S04")) so::slp(e, 3); so::sizes(e); so::pools(e); so::far(e); so::range(e); if (!fw::memQuick()) so::third(e); if (!fw::reduced()) so::known(e);
}
FW_MAIN
