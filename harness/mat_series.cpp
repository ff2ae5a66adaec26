// Matrix exponential and logarithm: truncated series of every kind of length, the default included, on matrices large
// enough for the last terms to count (M10).
#define MAT_SERIES
#include "mat_ops.cpp"
namespace {
const int NS_[] = {0, 1, 2, 5, 12, 20, 21, 23};
template <class X> void* mexp(int n, X& x) { switch (n) { case 0: return wrap(MatrixExp<0>(x)); case 1: return wrap(MatrixExp<1>(x)); case 2: return wrap(MatrixExp<2>(x)); case 5: return wrap(MatrixExp<5>(x)); case 12: return wrap(MatrixExp<12>(x)); case 20: return wrap(MatrixExp(x)); case 21: return wrap(MatrixExp<21>(x)); default: return wrap(MatrixExp<23>(x)); } }
template <class X> void* mlog(int n, X& x) { switch (n) { case 0: return wrap(MatrixLog<0>(x)); case 1: return wrap(MatrixLog<1>(x)); case 2: return wrap(MatrixLog<2>(x)); case 5: return wrap(MatrixLog<5>(x)); case 12: return wrap(MatrixLog<12>(x)); case 20: return wrap(MatrixLog(x)); case 21: return wrap(MatrixLog<21>(x)); default: return wrap(MatrixLog<23>(x)); } }
Val series(bool lg, int n, const Val& a) {
  Val v; v.ck = KN; v.r = a.r; v.c = a.c; v.nm = std::string(lg ? "log" : "exp") + S(n); auto& X = *(Matrix<Variable>*)a.p; v.p = lg ? mlog(n, X) : mexp(n, X); RF f = a.f;
  v.f = [=](World& w) { RM x = f(w), r = lg ? mr::fill(x.r, x.r, C(0)) : mr::ident(x.r), b = lg ? mr::zip(mr::ident(x.r), x, [](auto& a, auto& b) { return a - b; }) : x, p = mr::ident(x.r); C k = C(1);
    for (int i = 1; i <= n; ++i) { if (!lg) p = mr::map(p, [&](auto& e) { return e * mr::cst(C(1) / C(i)); }); p = mr::mul(b, p); k = lg ? C(-1) / C(i) : C(1); RM t = mr::map(p, [&](auto& e) { return e * mr::cst(k); }); r = mr::zip(r, t, [](auto& a, auto& b) { return a + b; }); } return r; };
  return v;
}
} // namespace
void enumerate(fw::Emit& emit) {
  for (int lg = 0; lg < 2; ++lg) for (int n : NS_) for (size_t d = 1; d <= (n > 12 ? 2u : 3u); ++d) for (int idx : {0, 88}) if (!(lg && idx && n > 5)) emit([=] { return tag("series", (lg ? "log" : "exp") + S(n), idx ? 'L' : 'V', '-', d, d, 0); }, [=] { World w; w.salt = n; observe(w, series(lg, n, V(w, 'V', d, d, idx))); });
}
FW_MAIN
