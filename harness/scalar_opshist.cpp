#include "scalar_opshist.hpp"
namespace so {
// operand kinds: number, variable, parameter, the named expression e, unnamed nodes containing e
enum { HN, HX, HQ_, HE, HM, HS };
inline const char* hname(int k) { static const char* n[] = {"N", "x", "p", "e", "(e*y)", "(N-e)"}; return n[k]; }
template <int K> decltype(auto) hl(World& w) {
  if constexpr (K == HN) return (const Type&)(w.n); else if constexpr (K == HX) return (const Variable&)(w.x); else if constexpr (K == HQ_) return (const Parameter&)(w.p);
  else if constexpr (K == HE) return (const Expression&)(w.e); else if constexpr (K == HM) return (w.e * w.y); else return (w.n - w.e);
}
template <int K> P hr(World& w) {
  if constexpr (K == HN) return num(w.nc); else if constexpr (K == HX) return var(0); else if constexpr (K == HQ_) return par(0); else if constexpr (K == HE) return w.re;
  else if constexpr (K == HM) return bin(ref::MUL, w.re, var(1)); else return bin(ref::SUB, num(w.nc), w.re);
}
template <int O> void hbin(fw::Emit& emit) {
  auto kinds = IS<HN, HX, HQ_, HE, HM, HS>{};
  each(kinds, [&](auto ka) { each(kinds, [&](auto kb) {
    constexpr int A = decltype(ka)::value, B = decltype(kb)::value;
    if constexpr (!(A == HN && B == HN)) emit([=] { return std::string("ops/") + hname(A) + " " + ref::oname(O) + " " + hname(B); },
      [=] { protocols([](HWorld& w, auto use) { return use(bop<O>(hl<A>(w), hl<B>(w)), bin(O, hr<A>(w), hr<B>(w))); }); });
  }); });
}
template <int U> void hun(fw::Emit& emit) {
  each(IS<HX, HQ_, HE, HM, HS>{}, [&](auto ka) { constexpr int A = decltype(ka)::value;
    emit([=] { return std::string("ops/") + ref::uname(U) + " " + hname(A); }, [=] { protocols([](HWorld& w, auto use) { return use(uop<U>(hl<A>(w)), un(U, hr<A>(w))); }); }); });
}
#if PART == 0
void part0(fw::Emit& e) { hbin<ref::ADD>(e); hbin<ref::SUB>(e); }
#elif PART == 1
void part1(fw::Emit& e) { hbin<ref::MUL>(e); hbin<ref::DIV>(e); }
#elif PART == 2
void part2(fw::Emit& e) { hbin<ref::POW>(e); hbin<ref::PRODS>(e); }
#elif PART == 3
void part3(fw::Emit& e) { each(std::make_integer_sequence<int, 9>{}, [&](auto u) { hun<decltype(u)::value>(e); }); }
#elif PART == 4
void part4(fw::Emit& e) { each(std::make_integer_sequence<int, NU - 9>{}, [&](auto u) { hun<decltype(u)::value + 9>(e); }); }
#endif
} // namespace so
#if PART == 0
void enumerate(fw::Emit& e) { so::part0(e); so::part1(e); so::part2(e); so::part3(e); so::part4(e); }
FW_MAIN
#endif
