// MPI with its documented meaning for processes that are threads of one program (vf_set_rank); P = number of processes.
#pragma once
#include <pthread.h>
#include <cstring>
#include <vector>
#include "vf.h"
#include "mpi.h"
static unsigned P = 1;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static unsigned arrived, round_; static const void* sendp[8]; static int cnts[8], types[8], ops[8]; static unsigned inited, finalized;
static void barrier() { pthread_mutex_lock(&mu); unsigned r = round_; if (++arrived == P) { arrived = 0; round_++; pthread_cond_broadcast(&cv); } else while (round_ == r) pthread_cond_wait(&cv, &mu); pthread_mutex_unlock(&mu); }
static size_t tsz(int t) { return t == MPI_UNSIGNED ? sizeof(unsigned) : 8; }
static void post(const void* p, int cnt, int t, int op) { int r = vf_get_rank(); sendp[r] = p; cnts[r] = cnt; types[r] = t; ops[r] = op; barrier(); for (unsigned q = 0; q < P; q++) vf_assert(cnts[q] == cnt && types[q] == t && ops[q] == op, "all processes take part in the same collective"); }
extern "C" {
int MPI_Init(int*, char***) { pthread_mutex_lock(&mu); inited++; pthread_mutex_unlock(&mu); return 0; } int MPI_Finalize(void) { pthread_mutex_lock(&mu); finalized++; pthread_mutex_unlock(&mu); return 0; }
int MPI_Comm_size(MPI_Comm, int* p) { *p = P; return 0; } int MPI_Comm_rank(MPI_Comm, int* p) { *p = vf_get_rank(); return 0; }
int MPI_Allreduce(const void* s, void* r, int cnt, MPI_Datatype t, MPI_Op, MPI_Comm) {
    post(s, cnt, t, 1); vf_assert(t == MPI_DOUBLE || t == MPI_UNSIGNED_LONG_LONG || t == MPI_LONG_LONG, "type of the reduction");
    if (t == MPI_DOUBLE) { std::vector<double> o(cnt, 0.0); for (unsigned q = 0; q < P; q++) for (int i = 0; i < cnt; i++) o[i] += ((const double*)sendp[q])[i]; barrier(); for (int i = 0; i < cnt; i++) ((double*)r)[i] = o[i]; }
    else { std::vector<long> o(cnt, 0); for (unsigned q = 0; q < P; q++) for (int i = 0; i < cnt; i++) o[i] += ((const long*)sendp[q])[i]; barrier(); for (int i = 0; i < cnt; i++) ((long*)r)[i] = o[i]; }
    barrier(); return 0; }
int MPI_Allgather(const void* s, int cnt, MPI_Datatype t, void* r, int, MPI_Datatype, MPI_Comm) { post(s, cnt, t, 2); for (unsigned q = 0; q < P; q++) memcpy((char*)r + q * cnt * tsz(t), sendp[q], cnt * tsz(t)); barrier(); return 0; }
int MPI_Bcast(void* b, int cnt, MPI_Datatype t, int root, MPI_Comm) { post(b, cnt, t, 3 + root); if (vf_get_rank() != root) memcpy(b, sendp[root], cnt * tsz(t)); barrier(); return 0; }
static const void* mail[8]; static int mailn[8];
int MPI_Ssend(const void* s, int cnt, MPI_Datatype t, int dst, int, MPI_Comm) { int r = vf_get_rank(); vf_assert(dst == 0, "labels go to the root"); pthread_mutex_lock(&mu); mail[r] = s; mailn[r] = cnt; pthread_cond_broadcast(&cv); while (mail[r]) pthread_cond_wait(&cv, &mu); pthread_mutex_unlock(&mu); return 0; }
int MPI_Send(const void* s, int cnt, MPI_Datatype t, int to, int tag, MPI_Comm c) { return MPI_Ssend(s, cnt, t, to, tag, c); } int MPI_Barrier(MPI_Comm) { post(NULL, 0, 0, 9); barrier(); return 0; }
int MPI_Recv(void* b, int cnt, MPI_Datatype t, int src, int, MPI_Comm, MPI_Status*) { pthread_mutex_lock(&mu); while (!mail[src]) pthread_cond_wait(&cv, &mu); vf_assert(mailn[src] <= cnt, "the message fits the receive buffer"); vf_assert(mailn[src] == cnt, "as many labels are received as expected"); memcpy(b, mail[src], mailn[src] * tsz(t)); mail[src] = NULL; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mu); return 0; }
}
