#include "scalar_ops.hpp"
#ifndef PART
#define PART -1
#endif
namespace so {
// one binary operator over every pair of operand kinds, for every literal
template <int O> void binAll(fw::Emit& emit) {
  auto kinds = IS<N, X, Y, Q, E_, M, S>{};
  each(kinds, [&](auto ka) { each(kinds, [&](auto kb) {
    constexpr int A = decltype(ka)::value, B = decltype(kb)::value;
    if constexpr (!(A == N && B == N)) {
      size_t nn = (A == N || B == N) ? numbers().size() : 1;
      for (size_t i = 0; i < nn; ++i)
        emit([=] { return std::string("bin1/") + lkname(A) + " " + ref::oname(O) + " " + lkname(B) + (A == N || B == N ? " n" + std::to_string(i) : ""); },
             [=] { World w; w.nc = numbers()[i]; w.n = T_(w.nc); P r = bin(O, rleaf<A>(w), rleaf<B>(w)); observeT(w, bop<O>(leaf<A>(w), leaf<B>(w)), r); });
    }
  }); });
}
// two nested binary operators kept as one unnamed template expression
template <int O1, int O2> void bin2(fw::Emit& emit) {
  auto ka_ = IS<N, X, Q>{}; auto kc_ = IS<N, X, E_>{};
  each(ka_, [&](auto ka) { each(ka_, [&](auto kb) { each(kc_, [&](auto kc) {
    constexpr int A = decltype(ka)::value, B = decltype(kb)::value, Cc = decltype(kc)::value;
#ifdef DEEP
    constexpr bool use = !(A == N && B == N);
#else
    constexpr bool use = ((A == N && B == X) || (A == X && B == N) || (A == X && B == Q)) && Cc != E_;
#endif
    if constexpr (use) {
      emit([=] { return std::string("bin2/(") + lkname(A) + ref::oname(O1) + lkname(B) + ")" + ref::oname(O2) + lkname(Cc); },
           [=] { World w; P r = bin(O2, bin(O1, rleaf<A>(w), rleaf<B>(w)), rleaf<Cc>(w)); Expression en{bop<O2>(bop<O1>(leaf<A>(w), leaf<B>(w)), leaf<Cc>(w))}; observe(w, en, r); });
      emit([=] { return std::string("bin2/") + lkname(Cc) + ref::oname(O2) + "(" + lkname(A) + ref::oname(O1) + lkname(B) + ")"; },
           [=] { World w; P r = bin(O2, rleaf<Cc>(w), bin(O1, rleaf<A>(w), rleaf<B>(w))); Expression en{bop<O2>(leaf<Cc>(w), bop<O1>(leaf<A>(w), leaf<B>(w)))}; observe(w, en, r); });
    }
  }); }); });
}
template <int U> void unAll(fw::Emit& emit) {
  auto kinds = IS<X, Q, E_, M, S>{};
  each(kinds, [&](auto ka) {
    constexpr int A = decltype(ka)::value;
    emit([=] { return std::string("un1/") + ref::uname(U) + " " + lkname(A); }, [=] { World w; P r = un(U, rleaf<A>(w)); observeT(w, uop<U>(leaf<A>(w)), r); });
  });
  // f inside an operator on both sides, and around one
  emit([=] { return std::string("un2/N*") + ref::uname(U) + "(x)"; }, [=] { World w; Expression en{w.n * uop<U>(w.x)}; observe(w, en, bin(ref::MUL, num(w.nc), un(U, var(0)))); });
  emit([=] { return std::string("un2/") + ref::uname(U) + "(x)*y"; }, [=] { World w; Expression en{uop<U>(w.x) * w.y}; observe(w, en, bin(ref::MUL, un(U, var(0)), var(1))); });
  emit([=] { return std::string("un2/") + ref::uname(U) + "(x)/" + ref::uname(U) + "(e)"; }, [=] { World w; Expression en{uop<U>(w.x) / uop<U>(w.e)}; observe(w, en, bin(ref::DIV, un(U, var(0)), un(U, w.re))); });
  emit([=] { return std::string("un2/") + ref::uname(U) + "(x+y)"; }, [=] { World w; Expression en{uop<U>(w.x + w.y)}; observe(w, en, un(U, bin(ref::ADD, var(0), var(1)))); });
  emit([=] { return std::string("un2/") + ref::uname(U) + "(p*x)-x"; }, [=] { World w; Expression en{uop<U>(w.p * w.x) - w.x}; observe(w, en, bin(ref::SUB, un(U, bin(ref::MUL, par(0), var(0))), var(0))); });
}
#if PART == 0
void part0(fw::Emit& e) { binAll<ref::ADD>(e); binAll<ref::SUB>(e); }
#elif PART == 1
void part1(fw::Emit& e) { binAll<ref::MUL>(e); binAll<ref::DIV>(e); }
#elif PART == 2
void part2(fw::Emit& e) { binAll<ref::POW>(e); binAll<ref::PRODS>(e); }
#elif PART == 3
void part3(fw::Emit& e) { each(IS<0, 1, 2, 3, 4>{}, [&](auto o) { bin2<ref::ADD, decltype(o)::value>(e); bin2<ref::SUB, decltype(o)::value>(e); }); }
#elif PART == 4
void part4(fw::Emit& e) { each(IS<0, 1, 2, 3, 4>{}, [&](auto o) { bin2<ref::MUL, decltype(o)::value>(e); bin2<ref::DIV, decltype(o)::value>(e); }); }
#elif PART == 7
void part7(fw::Emit& e) { each(IS<0, 1, 2, 3, 4>{}, [&](auto o) { bin2<ref::POW, decltype(o)::value>(e); }); }
#elif PART == 5
void part5(fw::Emit& e) { each(std::make_integer_sequence<int, 9>{}, [&](auto u) { unAll<decltype(u)::value>(e); }); }
#elif PART == 6
void part6(fw::Emit& e) { each(std::make_integer_sequence<int, NU - 9>{}, [&](auto u) { unAll<decltype(u)::value + 9>(e); }); }
#endif
} // namespace so
