/* Simulated MPI used by the /verif harnesses: every rank is a fiber of one process and every MPI
 * call is a scheduling point of the explorer (see simmpi.hpp).  Only what HiOp uses is provided. */
#ifndef VERIF_SIM_MPI_H
#define VERIF_SIM_MPI_H
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Request;
typedef int MPI_Fint;
typedef struct { int MPI_SOURCE; int MPI_TAG; int MPI_ERROR; int sim_count; } MPI_Status;

#define MPI_COMM_NULL  ((MPI_Comm)0)
#define MPI_COMM_WORLD ((MPI_Comm)1)
#define MPI_COMM_SELF  ((MPI_Comm)2)
#define MPI_REQUEST_NULL ((MPI_Request)-1)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_UNDEFINED (-32766)
#define MPI_IN_PLACE ((void*)-1)

#define MPI_CHAR ((MPI_Datatype)1)
#define MPI_INT ((MPI_Datatype)2)
#define MPI_DOUBLE ((MPI_Datatype)3)
#define MPI_LONG ((MPI_Datatype)4)
#define MPI_LONG_LONG ((MPI_Datatype)5)
#define MPI_LONG_LONG_INT ((MPI_Datatype)5)
#define MPI_UNSIGNED_LONG ((MPI_Datatype)6)
#define MPI_FLOAT ((MPI_Datatype)7)
#define MPI_C_BOOL ((MPI_Datatype)8)
#define MPI_CXX_BOOL ((MPI_Datatype)8)
#define MPI_BYTE ((MPI_Datatype)1)

#define MPI_SUM ((MPI_Op)1)
#define MPI_MIN ((MPI_Op)2)
#define MPI_MAX ((MPI_Op)3)
#define MPI_LAND ((MPI_Op)4)
#define MPI_LOR ((MPI_Op)5)
#define MPI_PROD ((MPI_Op)6)

int MPI_Init(int*, char***);
int MPI_Initialized(int*);
int MPI_Finalize(void);
int MPI_Finalized(int*);
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
double MPI_Wtime(void);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Request_free(MPI_Request*);
MPI_Comm MPI_Comm_f2c(MPI_Fint);
MPI_Fint MPI_Comm_c2f(MPI_Comm);
#ifdef __cplusplus
}
#endif
#endif
