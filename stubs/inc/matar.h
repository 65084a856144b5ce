// Declarations of the part of MATAR and Kokkos the micromechanics programs use, for the analysis only (never compiled
// into anything). The body of a parallel loop is written once for a generic index; storage has no bodies, so that the
// analyser interprets accesses itself.
#pragma once
#include <cassert>
#include <cstddef>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <array>
#include <complex>
#include <limits>
#include <iostream>
#include <initializer_list>

#define KOKKOS_FUNCTION
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [&]

// one value standing for every value lo <= x < hi: the iterations of a parallel loop are independent of each other
namespace mtr { long each(long lo, long hi); }

namespace Kokkos {
  enum class Iterate { Default, Left, Right };
  template <int N, Iterate A = Iterate::Default, Iterate B = Iterate::Default> struct Rank {};
  template <class R> struct MDRangePolicy {
    long lo[3], hi[3];
    MDRangePolicy(const long (&l)[3], const long (&h)[3])
    {
      lo[0] = l[0]; lo[1] = l[1]; lo[2] = l[2];
      hi[0] = h[0]; hi[1] = h[1]; hi[2] = h[2];
    }
  };
  template <class P, class F> void parallel_for(const P &p, F f)
  {
    f(mtr::each(p.lo[0], p.hi[0]), mtr::each(p.lo[1], p.hi[1]), mtr::each(p.lo[2], p.hi[2]));
  }
  template <class P, class F, class R> void parallel_reduce(const P &p, F f, R &out)
  {
    f(mtr::each(p.lo[0], p.hi[0]), mtr::each(p.lo[1], p.hi[1]), mtr::each(p.lo[2], p.hi[2]), out);
  }
  void fence();
  void initialize(int &, char **);
  void initialize();
  void finalize();
}

#define MTR_PICK(a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,NAME,...) NAME
#define MTR_FOR1(i,i0,i1,...) { const int i = mtr::each(i0, i1); __VA_ARGS__ }
#define MTR_FOR2(i,i0,i1,j,j0,j1,...) { const int i = mtr::each(i0, i1); const int j = mtr::each(j0, j1); __VA_ARGS__ }
#define MTR_FOR3(i,i0,i1,j,j0,j1,k,k0,k1,...) { const int i = mtr::each(i0, i1); const int j = mtr::each(j0, j1); const int k = mtr::each(k0, k1); __VA_ARGS__ }
#define FOR_ALL(...) MTR_PICK(__VA_ARGS__, MTR_FOR3, x, x, MTR_FOR2, x, x, MTR_FOR1, x, x, x)(__VA_ARGS__)
#define FOR_ALL_CLASS(...) FOR_ALL(__VA_ARGS__)
#define RUN(...) __VA_ARGS__
#define RUN_CLASS(...) __VA_ARGS__

namespace mtr {
#define MTR_DIMS(C) \
    C(); \
    C(size_t); C(size_t, size_t); C(size_t, size_t, size_t); C(size_t, size_t, size_t, size_t); \
    C(size_t, size_t, size_t, size_t, size_t); C(size_t, size_t, size_t, size_t, size_t, size_t);
#define MTR_VIEW(C) \
    C(); \
    C(T *, size_t); C(T *, size_t, size_t); C(T *, size_t, size_t, size_t); C(T *, size_t, size_t, size_t, size_t); \
    C(T *, size_t, size_t, size_t, size_t, size_t); C(T *, size_t, size_t, size_t, size_t, size_t, size_t);
#define MTR_AT \
    T &operator()(size_t) const; T &operator()(size_t, size_t) const; T &operator()(size_t, size_t, size_t) const; \
    T &operator()(size_t, size_t, size_t, size_t) const; T &operator()(size_t, size_t, size_t, size_t, size_t) const; \
    T &operator()(size_t, size_t, size_t, size_t, size_t, size_t) const;
#define MTR_INFO size_t size() const; size_t extent() const; size_t dims(size_t) const; size_t order() const;

  template <typename T> struct FMatrix { MTR_DIMS(FMatrix) MTR_AT MTR_INFO T *pointer() const; void set_values(T) const; };
  template <typename T> struct ViewFMatrix { MTR_VIEW(ViewFMatrix) MTR_AT MTR_INFO T *pointer() const; };
  template <typename T> struct FMatrixKokkos { MTR_DIMS(FMatrixKokkos) MTR_AT MTR_INFO T *pointer() const; void set_values(T) const; };
  template <typename T> struct ViewFMatrixKokkos { MTR_VIEW(ViewFMatrixKokkos) MTR_AT MTR_INFO T *pointer() const; };
  template <typename T> struct DFMatrixKokkos {
    ViewFMatrix<T> host;
    MTR_DIMS(DFMatrixKokkos) MTR_AT MTR_INFO
    T *device_pointer() const; T *host_pointer() const;
    void update_host(); void update_device(); void set_values(T);
  };
  template <typename T> struct DViewFMatrixKokkos {
    ViewFMatrix<T> host;
    MTR_VIEW(DViewFMatrixKokkos) MTR_AT MTR_INFO
    T *device_pointer() const; T *host_pointer() const;
    void update_host(); void update_device();
  };
}
