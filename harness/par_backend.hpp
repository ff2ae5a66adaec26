// -*- C++ -*-
//===-- parallel_backend_serial.h -----------------------------------------===//
//
// Part of the LLVM Project, under the Apache License v2.0 with LLVM Exceptions.
// See https://llvm.org/LICENSE.txt for license information.
// SPDX-License-Identifier: Apache-2.0 WITH LLVM-exception
//
//===----------------------------------------------------------------------===//

#ifndef _PSTL_PARALLEL_BACKEND_SERIAL_H
#define _PSTL_PARALLEL_BACKEND_SERIAL_H

#include <algorithm>
#include <cstddef>
#include <memory>
#include <numeric>
#include <utility>

// Included before everything, in place of the system's serial back end (same include guard): every iteration of a parallel loop is announced to par_rt.cpp, which checks that no two
// iterations of one loop conflict, and chooses their order.
extern "C" { void par_loop_begin(void* frame, long n); long par_loop_iter(long k); void par_loop_iter_inorder(long k); void par_loop_pause(int on); void par_loop_end(); }
namespace __pstl
{
namespace __serial_backend
{

template <typename _Tp>
class __buffer
{
    std::allocator<_Tp> __allocator_;
    _Tp* __ptr_;
    const std::size_t __buf_size_;
    __buffer(const __buffer&) = delete;
    void
    operator=(const __buffer&) = delete;

  public:
    __buffer(std::size_t __n) : __allocator_(), __ptr_(__allocator_.allocate(__n)), __buf_size_(__n) {}

    operator bool() const { return __ptr_ != nullptr; }
    _Tp*
    get() const
    {
        return __ptr_;
    }
    ~__buffer() { __allocator_.deallocate(__ptr_, __buf_size_); }
};

inline void
__cancel_execution()
{
}

template <class _ExecutionPolicy, class _Index, class _Fp>
__attribute__((noinline)) void
__parallel_for(_ExecutionPolicy&&, _Index __first, _Index __last, _Fp __f)
{
    const std::ptrdiff_t __n = __last - __first; par_loop_begin(__builtin_frame_address(0), __n);
    for (std::ptrdiff_t __k = 0; __k < __n; ++__k) { const std::ptrdiff_t __i = par_loop_iter(__k); __f(__first + __i, __first + (__i + 1)); }
    par_loop_end();
}
template <class _ExecutionPolicy, class _Value, class _Index, typename _RealBody, typename _Reduction>
__attribute__((noinline)) _Value
__parallel_reduce(_ExecutionPolicy&&, _Index __first, _Index __last, const _Value& __identity, const _RealBody& __real_body, const _Reduction& __reduction)
{
    if (__first == __last) return __identity;
    const std::ptrdiff_t __n = __last - __first; _Value __v = __identity; par_loop_begin(__builtin_frame_address(0), __n);
    for (std::ptrdiff_t __k = 0; __k < __n; ++__k) { par_loop_iter_inorder(__k); _Value __w = __real_body(__first + __k, __first + (__k + 1), __identity); par_loop_pause(1); __v = __reduction(__v, __w); par_loop_pause(0); }
    par_loop_end(); return __v;
}
template <class _ExecutionPolicy, class _Index, class _UnaryOp, class _Tp, class _BinaryOp, class _Reduce>
__attribute__((noinline)) _Tp
__parallel_transform_reduce(_ExecutionPolicy&&, _Index __first, _Index __last, _UnaryOp __u, _Tp __init, _BinaryOp __combine, _Reduce __reduce)
{
    const std::ptrdiff_t __n = __last - __first; _Tp __v = __init; par_loop_begin(__builtin_frame_address(0), __n);
    for (std::ptrdiff_t __k = 0; __k < __n; ++__k) { par_loop_iter_inorder(__k); _Tp __w = __u(__first + __k); par_loop_pause(1); __v = __combine(__v, __w); par_loop_pause(0); }
    par_loop_end(); return __v;
}
template <class _ExecutionPolicy, typename _Index, typename _Tp, typename _Rp, typename _Cp, typename _Sp, typename _Ap>
void
__parallel_strict_scan(_ExecutionPolicy&&, _Index __n, _Tp __initial, _Rp __reduce, _Cp __combine, _Sp __scan,
                       _Ap __apex)
{
    _Tp __sum = __initial;
    if (__n)
        __sum = __combine(__sum, __reduce(_Index(0), __n));
    __apex(__sum);
    if (__n)
        __scan(_Index(0), __n, __initial);
}

template <class _ExecutionPolicy, class _Index, class _UnaryOp, class _Tp, class _BinaryOp, class _Reduce, class _Scan>
_Tp
__parallel_transform_scan(_ExecutionPolicy&&, _Index __n, _UnaryOp, _Tp __init, _BinaryOp, _Reduce, _Scan __scan)
{
    return __scan(_Index(0), __n, __init);
}

template <class _ExecutionPolicy, typename _RandomAccessIterator, typename _Compare, typename _LeafSort>
void
__parallel_stable_sort(_ExecutionPolicy&&, _RandomAccessIterator __first, _RandomAccessIterator __last, _Compare __comp,
                       _LeafSort __leaf_sort, std::size_t = 0)
{
    __leaf_sort(__first, __last, __comp);
}

template <class _ExecutionPolicy, typename _RandomAccessIterator1, typename _RandomAccessIterator2,
          typename _RandomAccessIterator3, typename _Compare, typename _LeafMerge>
void
__parallel_merge(_ExecutionPolicy&&, _RandomAccessIterator1 __first1, _RandomAccessIterator1 __last1,
                 _RandomAccessIterator2 __first2, _RandomAccessIterator2 __last2, _RandomAccessIterator3 __outit,
                 _Compare __comp, _LeafMerge __leaf_merge)
{
    __leaf_merge(__first1, __last1, __first2, __last2, __outit, __comp);
}

template <class _ExecutionPolicy, typename _F1, typename _F2>
void
__parallel_invoke(_ExecutionPolicy&&, _F1&& __f1, _F2&& __f2)
{
    std::forward<_F1>(__f1)();
    std::forward<_F2>(__f2)();
}

} // namespace __serial_backend
} // namespace __pstl

#endif /* _PSTL_PARALLEL_BACKEND_SERIAL_H */
