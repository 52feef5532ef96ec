// Deterministic scheduler for the native replay of a schedule: one thread runs at a time, the choices
// are the solver's. Linked with -Wl,--wrap for the pthread calls; mirrors the engine's scheduling points.
#include <cstdio>
#include <cstdlib>
#include <map>
#include <vector>
#include <string>
#include <pthread.h>
#include <unistd.h>
#include "vf.h"
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_broadcast(pthread_cond_t*); int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_mutex_trylock(pthread_mutex_t*); int __real_pthread_cond_signal(pthread_cond_t*); int __real_pthread_join(pthread_t, void**);
int __real_pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*); int __real_pthread_mutex_destroy(pthread_mutex_t*); int __real_pthread_cond_destroy(pthread_cond_t*);
}
namespace {
enum { RUN, MUTEX, COND, JOIN, DONE };
struct T { int st = RUN; void* a = nullptr; pthread_mutex_t* m = nullptr; int jid = -1; pthread_t h; void* (*fn)(void*); void* arg; long no = 0; };
struct M { int owner = -1; bool dead = false; };
std::vector<T> th; std::map<void*, M> mx; int cur = 0; long mode = 0, left = 0; __thread int me = 0; __thread long tid = 0; long made = 0;
pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t bigc = PTHREAD_COND_INITIALIZER;
void die(const char* s) { printf("REPLAY-VIOLATION %s\n", s); fflush(stdout); _exit(1); }
bool runnable(int i) { T& t = th[i]; if (t.st == RUN) return true; if (t.st == MUTEX) return mx[t.a].owner < 0; if (t.st == JOIN) return th[t.jid].st == DONE; return false; }
void wake(int i) { T& t = th[i]; if (t.st == MUTEX) mx[t.a].owner = i; t.st = RUN; }
int next() {
    std::vector<int> r; for (size_t i = 0; i < th.size(); i++) if (runnable(i)) r.push_back(i);
    if (r.empty()) return -1; if (r.size() == 1) return r[0];
    long k = vf_int("sched", 0, r.size() - 1); if (k < 0 || k >= (long)r.size()) k = 0; return r[k];
}
void hand(int n) { cur = n; __real_pthread_cond_broadcast(&bigc); }
void waitturn() { while (cur != me) __real_pthread_cond_wait(&bigc, &big); }
void block() { int n = next(); if (n < 0) die("deadlock: no thread can make progress"); wake(n); hand(n); }
void point() { if (left <= 0) return; int n = next(); if (n < 0 || n == me) return; left--; wake(n); hand(n); waitturn(); }
struct Big { Big() { __real_pthread_mutex_lock(&big); waitturn(); } ~Big() { __real_pthread_mutex_unlock(&big); } };
void fin() { Big b; th[me].st = DONE; block(); }
void cleanup(void*) { fin(); }
void* tramp(void* p) { me = (int)(long)p; __real_pthread_mutex_lock(&big); waitturn(); void* (*f)(void*) = th[me].fn; void* a = th[me].arg; tid = th[me].no; __real_pthread_mutex_unlock(&big); void* r = nullptr; pthread_cleanup_push(cleanup, nullptr); r = f(a); pthread_cleanup_pop(1); return r; }
struct plain { void* (*fn)(void*); void* arg; long no; };
void* ptramp(void* p) { plain s = *(plain*)p; delete (plain*)p; tid = s.no; return s.fn(s.arg); }
}
extern "C" long vf_native_tid(void) { return tid; }
void vf_sched_start(long m, long p) { mode = m & 1; left = p; if (mode && th.empty()) th.emplace_back(); }
extern "C" {
int __wrap_pthread_create(pthread_t* h, const pthread_attr_t* at, void* (*f)(void*), void* a) {
    if (!mode) return __real_pthread_create(h, at, ptramp, new plain{f, a, ++made});
    Big b; T t; t.fn = f; t.arg = a; t.no = ++made; th.push_back(t); int id = th.size() - 1; int r = __real_pthread_create(h, at, tramp, (void*)(long)id); th[id].h = *h; return r; }
int __wrap_pthread_join(pthread_t h, void** r) {
    if (!mode) return __real_pthread_join(h, r);
    { Big b; int id = -1; for (size_t i = 1; i < th.size(); i++) if (pthread_equal(th[i].h, h)) id = i; if (id < 0) return 3; if (th[id].st != DONE) { th[me].st = JOIN; th[me].jid = id; block(); waitturn(); } }
    return __real_pthread_join(h, r); }
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { if (mode) { Big b; mx[m] = M(); } return __real_pthread_mutex_init(m, a); }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (!mode) return __real_pthread_mutex_lock(m);
    Big b; point(); M& s = mx[m]; if (s.dead) die("pthread_mutex_lock of a destroyed mutex"); if (s.owner < 0) { s.owner = me; return 0; } if (s.owner == me) return 35; th[me].st = MUTEX; th[me].a = m; block(); waitturn(); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (!mode) return __real_pthread_mutex_trylock(m); Big b; point(); M& s = mx[m]; if (s.owner < 0) { s.owner = me; return 0; } return 16; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!mode) return __real_pthread_mutex_unlock(m);
    Big b; M& s = mx[m]; if (s.dead) die("pthread_mutex_unlock of a destroyed mutex"); if (s.owner != me) die("pthread_mutex_unlock of a mutex the thread does not hold"); s.owner = -1; point(); return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!mode) return __real_pthread_cond_wait(c, m);
    Big b; point(); if (mx[m].owner != me) die("pthread_cond_wait with a mutex the thread does not hold"); mx[m].owner = -1; th[me].st = COND; th[me].a = c; th[me].m = m; block(); waitturn(); return 0; }
int __wrap_pthread_cond_signal(pthread_cond_t* c) { if (!mode) return __real_pthread_cond_signal(c); Big b; point(); for (auto& t : th) if (t.st == COND && t.a == c) { t.st = MUTEX; t.a = t.m; break; } return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { if (!mode) return __real_pthread_cond_broadcast(c); Big b; point(); for (auto& t : th) if (t.st == COND && t.a == c) { t.st = MUTEX; t.a = t.m; } return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) { if (!mode) return __real_pthread_mutex_destroy(m); Big b; auto it = mx.find(m); if (it != mx.end()) { if (it->second.owner >= 0) return 16; for (auto& t : th) if ((t.st == MUTEX && t.a == m) || (t.st == COND && t.m == m)) die("pthread_mutex_destroy of a mutex that a thread waits for"); it->second.dead = true; } return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t* c) { if (!mode) return __real_pthread_cond_destroy(c); Big b; for (auto& t : th) if (t.st == COND && t.a == c) die("pthread_cond_destroy with a waiting thread"); return 0; }
}
