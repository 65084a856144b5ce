// declarations only: what the EVPFFT programs use of HDF5
#pragma once
#include <cstddef>
#include "mpi.h"
typedef long hid_t;
typedef int herr_t;
typedef int htri_t;
typedef unsigned long long hsize_t;
typedef long long hssize_t;
enum H5S_seloper_t { H5S_SELECT_NOOP = -1, H5S_SELECT_SET, H5S_SELECT_OR, H5S_SELECT_AND, H5S_SELECT_XOR, H5S_SELECT_NOTB, H5S_SELECT_NOTA, H5S_SELECT_APPEND, H5S_SELECT_PREPEND };
enum H5FD_mpio_xfer_t { H5FD_MPIO_INDEPENDENT = 0, H5FD_MPIO_COLLECTIVE };
enum H5S_class_t { H5S_NO_CLASS = -1, H5S_SCALAR, H5S_SIMPLE, H5S_NULL };
enum { H5F_ACC_RDONLY = 0, H5F_ACC_RDWR = 1, H5F_ACC_TRUNC = 2, H5F_ACC_EXCL = 4, H5F_ACC_CREAT = 16 };
#define H5P_DEFAULT ((hid_t)0)
#define H5S_ALL ((hid_t)0)
#define H5I_INVALID_HID ((hid_t)-1)
extern const hid_t H5P_FILE_ACCESS, H5P_FILE_CREATE, H5P_DATASET_XFER, H5P_DATASET_CREATE, H5P_DATASET_ACCESS, H5P_LINK_CREATE;
extern const hid_t H5T_NATIVE_CHAR, H5T_NATIVE_SHORT, H5T_NATIVE_INT, H5T_NATIVE_UINT, H5T_NATIVE_LONG, H5T_NATIVE_ULONG, H5T_NATIVE_LLONG, H5T_NATIVE_FLOAT, H5T_NATIVE_DOUBLE, H5T_NATIVE_LDOUBLE,
  H5T_STD_I32LE, H5T_IEEE_F32LE, H5T_IEEE_F64LE;
extern "C" {
hid_t H5Screate(H5S_class_t);
hid_t H5Screate_simple(int, const hsize_t *, const hsize_t *);
herr_t H5Sselect_hyperslab(hid_t, H5S_seloper_t, const hsize_t *, const hsize_t *, const hsize_t *, const hsize_t *);
herr_t H5Sselect_all(hid_t);
herr_t H5Sselect_none(hid_t);
hid_t H5Scopy(hid_t);
herr_t H5Sclose(hid_t);
int H5Sget_simple_extent_ndims(hid_t);
int H5Sget_simple_extent_dims(hid_t, hsize_t *, hsize_t *);
hid_t H5Pcreate(hid_t);
hid_t H5Pcopy(hid_t);
herr_t H5Pclose(hid_t);
herr_t H5Pset_coll_metadata_write(hid_t, bool);
herr_t H5Pset_all_coll_metadata_ops(hid_t, bool);
herr_t H5Pset_fapl_mpio(hid_t, MPI_Comm, MPI_Info);
herr_t H5Pset_dxpl_mpio(hid_t, H5FD_mpio_xfer_t);
herr_t H5Pset_create_intermediate_group(hid_t, unsigned);
hid_t H5Fcreate(const char *, unsigned, hid_t, hid_t);
hid_t H5Fopen(const char *, unsigned, hid_t);
herr_t H5Fflush(hid_t, int);
herr_t H5Fclose(hid_t);
hid_t H5Gcreate(hid_t, const char *, hid_t, hid_t, hid_t);
hid_t H5Gcreate2(hid_t, const char *, hid_t, hid_t, hid_t);
hid_t H5Gopen2(hid_t, const char *, hid_t);
herr_t H5Gclose(hid_t);
hid_t H5Dcreate2(hid_t, const char *, hid_t, hid_t, hid_t, hid_t, hid_t);
hid_t H5Dopen2(hid_t, const char *, hid_t);
hid_t H5Dget_space(hid_t);
hid_t H5Dget_type(hid_t);
herr_t H5Dwrite(hid_t, hid_t, hid_t, hid_t, hid_t, const void *);
herr_t H5Dread(hid_t, hid_t, hid_t, hid_t, hid_t, void *);
herr_t H5Dclose(hid_t);
hid_t H5Tcopy(hid_t);
herr_t H5Tclose(hid_t);
htri_t H5Lexists(hid_t, const char *, hid_t);
}
