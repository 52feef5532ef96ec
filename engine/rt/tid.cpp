// Thread numbers in order of creation for the native replay (the engine's numbering).
#include <pthread.h>
#include <atomic>
extern "C" {
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static std::atomic<long> made(0); static __thread long me;
struct vf_start { void* (*fn)(void*); void* arg; long id; };
static void* vf_tramp(void* p) { vf_start s = *(vf_start*)p; delete (vf_start*)p; me = s.id; return s.fn(s.arg); }
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) { return __real_pthread_create(t, a, vf_tramp, new vf_start{fn, arg, ++made}); }
long vf_native_tid(void) { return me; }
}
