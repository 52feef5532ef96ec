// Stand-in for MPI in the distributed harness: the processes are threads, the collectives are
// implemented in dist.cpp over shared memory with their documented meaning.
#pragma once
#include <stddef.h>
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; struct MPI_Status { int e; };
#define MPI_SUCCESS 0
#define MPI_COMM_WORLD 0
#define MPI_SUM 1
#define MPI_DOUBLE 1
#define MPI_UNSIGNED_LONG_LONG 2
#define MPI_LONG_LONG 3
#define MPI_UNSIGNED 4
#define MPI_UNSIGNED_LONG MPI_UNSIGNED_LONG_LONG
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
namespace MPI { static const int DOUBLE = 1, UNSIGNED_LONG_LONG = 2, LONG_LONG = 3, UNSIGNED = 4; }
extern "C" {
int MPI_Init(int*, char***); int MPI_Finalize(void); int MPI_Comm_size(MPI_Comm, int*); int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm); int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Barrier(MPI_Comm); int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
}
