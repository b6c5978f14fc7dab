/*
 * A deterministic, in-process replacement for the subset of MPI used by heFFTe (and a margin around it).
 * Every rank is a thread, only one of them runs at a time, and every legal choice that MPI leaves open
 * (who runs next, when a message is delivered, which request completes first, whether a send is buffered)
 * is taken from one seeded generator, see simmpi.h.
 */
#ifndef SIM_MPI_H
#define SIM_MPI_H
#include <stddef.h>

#define SIMMPI 1
#ifdef __cplusplus
extern "C" {
#endif
typedef struct simmpi_comm_s*    MPI_Comm;
typedef struct simmpi_group_s*   MPI_Group;
typedef struct simmpi_request_s* MPI_Request;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Errhandler;
typedef int MPI_Info;
typedef int MPI_Fint;
typedef long MPI_Aint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int sim_count, sim_cancelled; } MPI_Status;

MPI_Comm simmpi_world(void);
MPI_Comm simmpi_self(void);
#define MPI_COMM_WORLD (simmpi_world())
#define MPI_COMM_SELF  (simmpi_self())
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_GROUP_NULL ((MPI_Group)0)
MPI_Group simmpi_group_empty(void);
#define MPI_GROUP_EMPTY (simmpi_group_empty())
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)1)
#define MPI_BOTTOM ((void*)0)
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_ERR_IN_STATUS 17
#define MPI_UNDEFINED (-32766)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_ERRORS_ARE_FATAL 0
#define MPI_ERRORS_RETURN 1
#define MPI_INFO_NULL 0
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3

enum { SIM_T_NULL=0, MPI_BYTE, MPI_CHAR, MPI_SIGNED_CHAR, MPI_UNSIGNED_CHAR, MPI_SHORT, MPI_INT, MPI_UNSIGNED, MPI_LONG, MPI_UNSIGNED_LONG,
       MPI_LONG_LONG, MPI_UNSIGNED_LONG_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_C_COMPLEX, MPI_C_DOUBLE_COMPLEX,
       MPI_INT32_T, MPI_INT64_T, MPI_UINT64_T, MPI_UINT32_T, MPI_UINT8_T, MPI_C_BOOL, SIM_T_COUNT };
#define MPI_DATATYPE_NULL SIM_T_NULL
#define MPI_LONG_LONG_INT MPI_LONG_LONG
#define MPI_C_FLOAT_COMPLEX MPI_C_COMPLEX
#define MPI_CXX_FLOAT_COMPLEX MPI_C_COMPLEX
#define MPI_CXX_DOUBLE_COMPLEX MPI_C_DOUBLE_COMPLEX
#define MPI_CXX_BOOL MPI_C_BOOL
enum { MPI_SUM=1, MPI_MAX, MPI_MIN, MPI_PROD, MPI_LAND, MPI_LOR, MPI_BAND, MPI_BOR };

int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Get_processor_name(char*, int*);
int MPI_Error_string(int, char*, int*);

int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_group(MPI_Comm, MPI_Group*);
int MPI_Comm_create(MPI_Comm, MPI_Group, MPI_Comm*);
int MPI_Comm_create_group(MPI_Comm, MPI_Group, int, MPI_Comm*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Group_incl(MPI_Group, int, const int*, MPI_Group*);
int MPI_Group_excl(MPI_Group, int, const int*, MPI_Group*);
int MPI_Group_size(MPI_Group, int*);
int MPI_Group_rank(MPI_Group, int*);
int MPI_Group_translate_ranks(MPI_Group, int, const int*, MPI_Group, int*);
int MPI_Group_free(MPI_Group*);

int MPI_Type_size(MPI_Datatype, int*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Bsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*);
int MPI_Waitsome(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testany(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Request_free(MPI_Request*);
int MPI_Cancel(MPI_Request*);

int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void*, const int*, const int*, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request*);
int MPI_Ialltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm, MPI_Request*);
int MPI_Ialltoallv(const void*, const int*, const int*, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm, MPI_Request*);
int MPI_Alltoallw(const void*, const int*, const int*, const MPI_Datatype*, void*, const int*, const int*, const MPI_Datatype*, MPI_Comm);
int MPI_Ibcast(void*, int, MPI_Datatype, int, MPI_Comm, MPI_Request*);
int MPI_Iallreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request*);
int MPI_Iallgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm, MPI_Request*);
int MPI_Iallgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm, MPI_Request*);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce_scatter_block(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Send_init(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Ssend_init(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Recv_init(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Start(MPI_Request*);
int MPI_Startall(int, MPI_Request*);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_commit(MPI_Datatype*);
int MPI_Type_free(MPI_Datatype*);
int MPI_Type_get_extent(MPI_Datatype, MPI_Aint*, MPI_Aint*);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm*);
int MPI_Comm_get_name(MPI_Comm, char*, int*);
int MPI_Comm_set_name(MPI_Comm, const char*);
int MPI_Group_union(MPI_Group, MPI_Group, MPI_Group*);
int MPI_Group_intersection(MPI_Group, MPI_Group, MPI_Group*);
int MPI_Get_elements(const MPI_Status*, MPI_Datatype, int*);
#define MPI_COMM_TYPE_SHARED 1
#define MPI_MAX_OBJECT_NAME 64
MPI_Fint MPI_Comm_c2f(MPI_Comm);
MPI_Comm MPI_Comm_f2c(MPI_Fint);
#ifdef __cplusplus
}
#endif
#endif
