// Declarations of the part of MATAR, ELEMENTS and Kokkos the multiphysics application uses, for the analysis only.
#pragma once
#include "../inc/matar.h"
#include <cstdint>
#include <map>
#include <fstream>
#include <sstream>
#include <vector>
#include <cstring>
#include <algorithm>
#undef MTR_FOR1
#undef MTR_FOR2
#undef MTR_FOR3
#define MTR_FOR1(i,i0,i1,...) for (int i = i0; i < (int) (i1); i++) { __VA_ARGS__ }
#define MTR_FOR2(i,i0,i1,j,j0,j1,...) MTR_FOR1(i, i0, i1, MTR_FOR1_(j, j0, j1, __VA_ARGS__))
#define MTR_FOR1_(i,i0,i1,...) for (int i = i0; i < (int) (i1); i++) { __VA_ARGS__ }
#define MTR_FOR3(i,i0,i1,j,j0,j1,k,k0,k1,...) { const int i = mtr::each(i0, i1); const int j = mtr::each(j0, j1); const int k = mtr::each(k0, k1); __VA_ARGS__ }
#define KOKKOS_IMPL_FUNCTION
#define DO_ALL(...) FOR_ALL(__VA_ARGS__)
#define FOR_FIRST(...) FOR_ALL(__VA_ARGS__)
#define FOR_SECOND(...) FOR_ALL(__VA_ARGS__)
#define MATAR_FENCE()
#define MTR_DIMSN(C) \
    C(); \
    C(size_t, const std::string & = ""); C(size_t, size_t, const std::string & = ""); C(size_t, size_t, size_t, const std::string & = ""); \
    C(size_t, size_t, size_t, size_t, const std::string & = ""); C(size_t, size_t, size_t, size_t, size_t, const std::string & = "");
namespace mtr {
  struct DefaultLayout {}; struct DefaultExecSpace {}; struct DefaultMemSpace {};
#define MTR_PLAIN(N) template <typename T, typename L = DefaultLayout, typename E = DefaultExecSpace, typename M = void> struct N { MTR_DIMSN(N) MTR_AT MTR_INFO \
    T *pointer() const; void set_values(T) const; size_t stride(size_t) const; };
#define MTR_VW(N) template <typename T, typename L = DefaultLayout, typename E = DefaultExecSpace, typename M = void> struct N { MTR_VIEW(N) MTR_AT MTR_INFO T *pointer() const; void set_values(T) const; };
  MTR_PLAIN(CArray) MTR_PLAIN(FArray) MTR_PLAIN(CMatrix) MTR_PLAIN(CArrayKokkos) MTR_PLAIN(FArrayKokkos) MTR_PLAIN(CMatrixKokkos) MTR_PLAIN(CArrayDevice)
  MTR_VW(ViewCArray) MTR_VW(ViewFArray) MTR_VW(ViewCMatrix) MTR_VW(ViewCArrayKokkos) MTR_VW(ViewFArrayKokkos) MTR_VW(ViewCMatrixKokkos) MTR_VW(ViewCArrayDevice)
#define MTR_DUAL(N) template <typename T, typename L = DefaultLayout, typename E = DefaultExecSpace, typename M = void> struct N { ViewCArray<T> host; MTR_DIMSN(N) MTR_AT MTR_INFO \
    T *device_pointer() const; T *host_pointer() const; void update_host(); void update_device(); void set_values(T); };
  MTR_DUAL(DCArrayKokkos) MTR_DUAL(DFArrayKokkos) MTR_DUAL(DCMatrixKokkos)
#define MTR_RAG(N) template <typename T, typename L = DefaultLayout, typename E = DefaultExecSpace, typename M = void> struct N { ViewCArray<T> host; N(); \
    template <class S> N(const S &, const std::string & = ""); template <class S> N(const S &, size_t, const std::string & = ""); template <class S> N(const S &, size_t, size_t, const std::string & = ""); N(size_t *, size_t, const std::string & = ""); \
    MTR_AT MTR_INFO T *pointer() const; size_t stride(size_t) const; size_t &stride_host(size_t) const; void update_host(); void update_device(); void set_values(T); \
    size_t dims(size_t, size_t) const; };
  MTR_RAG(RaggedRightArrayKokkos) MTR_RAG(DRaggedRightArrayKokkos) MTR_RAG(DynamicRaggedRightArrayKokkos) MTR_RAG(DDynamicRaggedRightArrayKokkos) MTR_RAG(RaggedRightArray)
}
using namespace mtr;
namespace Kokkos {
  template <class A, class B> void atomic_add(A *, B); 
  template <class... A> void printf(A...);
  [[noreturn]] void abort(const char *);
  struct AutoTag {}; extern const AutoTag AUTO;
  struct team_member { int league_rank() const; int team_rank() const; int team_size() const; void team_barrier() const; };
  template <class... A> struct TeamPolicy { typedef team_member member_type; TeamPolicy(long, AutoTag); TeamPolicy(long, long); };
  struct team_range {}; team_range TeamThreadRange(const team_member &, long); team_range TeamThreadRange(const team_member &, long, long);
  template <class F> void parallel_for(const char *, const TeamPolicy<> &, F f) { f(team_member()); }
  template <class F> void parallel_for(const team_range &, F f) { f(mtr::each(0, 1)); }
  template <class F, class R> void parallel_reduce(const team_range &, F f, R &r) { f(mtr::each(0, 1), r); }
  template <class F, class R> void parallel_reduce(const char *, const team_range &, F f, R &r) { f(mtr::each(0, 1), r); }
}
