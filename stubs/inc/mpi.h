// declarations only: what the EVPFFT programs use of MPI (not installed with the checks)
#pragma once
#include <cstddef>
typedef struct mpi_comm_t *MPI_Comm;
typedef struct mpi_datatype_t *MPI_Datatype;
typedef struct mpi_file_t *MPI_File;
typedef struct mpi_info_t *MPI_Info;
typedef struct mpi_op_t *MPI_Op;
typedef struct mpi_request_t *MPI_Request;
typedef struct mpi_group_t *MPI_Group;
typedef long long MPI_Offset;
typedef long MPI_Aint;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; };
enum { MPI_SUCCESS = 0, MPI_ORDER_C = 0, MPI_ORDER_FORTRAN = 1 };
enum { MPI_MODE_CREATE = 1, MPI_MODE_RDONLY = 2, MPI_MODE_WRONLY = 4, MPI_MODE_RDWR = 8, MPI_MODE_DELETE_ON_CLOSE = 16,
       MPI_MODE_UNIQUE_OPEN = 32, MPI_MODE_EXCL = 64, MPI_MODE_APPEND = 128, MPI_MODE_SEQUENTIAL = 256 };
enum { MPI_SEEK_SET = 600, MPI_SEEK_CUR = 602, MPI_SEEK_END = 604 };
enum { MPI_THREAD_SINGLE, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE, MPI_COMM_TYPE_SHARED, MPI_UNDEFINED = -32766 };
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_IN_PLACE ((void *)1)
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_INFO_NULL ((MPI_Info)0)
#define MPI_FILE_NULL ((MPI_File)0)
#define MPI_DATATYPE_NULL ((MPI_Datatype)0)
extern const MPI_Comm MPI_COMM_WORLD, MPI_COMM_SELF;
extern const MPI_Datatype MPI_CHAR, MPI_BYTE, MPI_SHORT, MPI_INT, MPI_UNSIGNED, MPI_LONG, MPI_UNSIGNED_LONG, MPI_LONG_LONG, MPI_LONG_LONG_INT, MPI_FLOAT, MPI_DOUBLE, MPI_LONG_DOUBLE,
  MPI_REAL, MPI_UNSIGNED_CHAR, MPI_SIGNED_CHAR, MPI_C_BOOL, MPI_CXX_BOOL, MPI_UINT64_T, MPI_INT32_T, MPI_INT64_T, MPI_INTEGER, MPI_DOUBLE_INT, MPI_2INT, MPI_DOUBLE_PRECISION;
extern const MPI_Op MPI_SUM, MPI_MAX, MPI_MIN, MPI_PROD, MPI_LAND, MPI_LOR;
extern "C" {
int MPI_Init(int *, char ***);
int MPI_Init_thread(int *, char ***, int, int *);
int MPI_Finalize();
int MPI_Initialized(int *);
int MPI_Finalized(int *);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime();
int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Comm_dup(MPI_Comm, MPI_Comm *);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *);
int MPI_Comm_free(MPI_Comm *);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm);
int MPI_Scatterv(const void *, const int *, const int *, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_vector(int, int, int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_subarray(int, const int[], const int[], const int[], int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_commit(MPI_Datatype *);
int MPI_Type_dup(MPI_Datatype, MPI_Datatype *);
int MPI_Type_size(MPI_Datatype, int *);
int MPI_Type_free(MPI_Datatype *);
int MPI_Info_create(MPI_Info *);
int MPI_Info_set(MPI_Info, const char *, const char *);
int MPI_Info_free(MPI_Info *);
int MPI_File_open(MPI_Comm, const char *, int, MPI_Info, MPI_File *);
int MPI_File_close(MPI_File *);
int MPI_File_delete(const char *, MPI_Info);
int MPI_File_set_size(MPI_File, MPI_Offset);
int MPI_File_get_size(MPI_File, MPI_Offset *);
int MPI_File_preallocate(MPI_File, MPI_Offset);
int MPI_File_sync(MPI_File);
int MPI_File_seek(MPI_File, MPI_Offset, int);
int MPI_File_set_view(MPI_File, MPI_Offset, MPI_Datatype, MPI_Datatype, const char *, MPI_Info);
int MPI_File_write(MPI_File, const void *, int, MPI_Datatype, MPI_Status *);
int MPI_File_write_all(MPI_File, const void *, int, MPI_Datatype, MPI_Status *);
int MPI_File_write_at(MPI_File, MPI_Offset, const void *, int, MPI_Datatype, MPI_Status *);
int MPI_File_write_at_all(MPI_File, MPI_Offset, const void *, int, MPI_Datatype, MPI_Status *);
int MPI_File_read(MPI_File, void *, int, MPI_Datatype, MPI_Status *);
int MPI_File_read_all(MPI_File, void *, int, MPI_Datatype, MPI_Status *);
int MPI_File_read_at(MPI_File, MPI_Offset, void *, int, MPI_Datatype, MPI_Status *);
int MPI_File_read_at_all(MPI_File, MPI_Offset, void *, int, MPI_Datatype, MPI_Status *);
}
