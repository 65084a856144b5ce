// Declarations of the part of heFFTe the micromechanics programs use, for the analysis only.
#pragma once
#include <array>
#include <complex>
#include <stdexcept>
#include <vector>
#include "mpi.h"
namespace heffte {
  namespace backend { struct fftw {}; struct cufft {}; struct rocfft {}; struct mkl {}; struct stock {}; }
  enum class scale { none, full, symmetric };
  enum class reshape_algorithm { alltoallv = 0, alltoall = 3, p2p_plined = 1, p2p = 2 };
  template <typename index = int> struct box3d {
    std::array<index, 3> low, high, size, order;
    box3d(std::array<index, 3> clow, std::array<index, 3> chigh);
    box3d r2c(int dimension) const;
    bool operator==(const box3d &) const;
    bool operator!=(const box3d &) const;
    long long count() const;
    bool empty() const;
  };
  struct plan_options { bool use_reorder; reshape_algorithm algorithm; bool use_pencils; bool use_gpu_aware; };
  template <typename B> plan_options default_options(bool = true);
  namespace mpi { int comm_rank(MPI_Comm); int comm_size(MPI_Comm); }
  namespace gpu { int device_count(); void device_set(int); }
  template <typename I> std::array<int, 3> proc_setup_min_surface(const box3d<I> &, int);
  template <typename I> std::vector<box3d<I>> split_world(const box3d<I> &, const std::array<int, 3> &);
  template <typename B, typename I = int> struct fft3d {
    template <typename T> using buffer_container = std::vector<T>;
    fft3d(const box3d<I>, const box3d<I>, const MPI_Comm, const plan_options);
    template <typename A, typename C> void forward(const A *, C *, C *, scale = scale::none) const;
    template <typename A, typename C> void backward(const A *, C *, A *, scale = scale::none) const;
    size_t size_workspace() const;
  };
  template <typename B, typename I = int> struct fft3d_r2c {
    template <typename T> using buffer_container = std::vector<T>;
    fft3d_r2c(const box3d<I>, const box3d<I>, int, const MPI_Comm, const plan_options);
    template <typename A, typename C> void forward(const A *, C *, C *, scale = scale::none) const;
    template <typename A, typename C> void backward(const A *, C *, A *, scale = scale::none) const;
    size_t size_workspace() const;
  };
}
