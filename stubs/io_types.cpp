// instantiates the I/O templates of an EVPFFT program for the analysis (never compiled into anything)
#include <stdexcept>
#include <string>
#include <type_traits>
#include <cstdio>
#include "mpi.h"
#include "hdf5.h"
#include "hdf5_io_functions.cpp"
#include "micro_output_writer.h"
#include "manager_mpi_io.h"

#define IO(T) \
  template hid_t deduce_hdf5_datatype<T>(T *); \
  template void write_hdf5_dataset<T>(const char *, T *, hid_t, hid_t, hid_t, MPI_Comm); \
  template void read_hdf5_dataset<T>(const char *, T *, hid_t, hid_t, hid_t, MPI_Comm); \
  template void MicroOutputWriter<MPI_ORDER_C>::write<T>(const char *, T *); \
  template void MicroOutputWriter<MPI_ORDER_C>::write<T>(const char *, T *, hid_t); \
  template void MicroOutputWriter<MPI_ORDER_FORTRAN>::write<T>(const char *, T *); \
  template void MicroOutputWriter<MPI_ORDER_FORTRAN>::write<T>(const char *, T *, hid_t); \
  template class Manager_MPI_IO<T, MPI_ORDER_C>; \
  template class Manager_MPI_IO<T, MPI_ORDER_FORTRAN>;

template struct MicroOutputWriter<MPI_ORDER_C>;
template struct MicroOutputWriter<MPI_ORDER_FORTRAN>;
IO(int)
IO(float)
IO(double)
IO(long double)
template hid_t deduce_hdf5_datatype<unsigned short>(unsigned short *);
