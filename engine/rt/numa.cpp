// libnuma stand-in, used both symbolically and in the native replay.
#include <cstdlib>
#include "vf.h"
extern "C" {
struct bitmask { unsigned long size; unsigned long* maskp; };
int numa_available(void) { return 0; }
int numa_num_task_nodes(void) { return (int)vf_param("numa_nodes", 1); }
int numa_num_configured_nodes(void) { return (int)vf_param("numa_nodes", 1); }
int numa_max_node(void) { return (int)vf_param("numa_nodes", 1) - 1; }
void* numa_alloc_onnode(size_t n, int) { return malloc(n); }
void* numa_alloc_local(size_t n) { return malloc(n); }
void* numa_alloc(size_t n) { return malloc(n); }
void numa_free(void* p, size_t) { free(p); }
bitmask* numa_allocate_nodemask(void) { return (bitmask*)calloc(1, sizeof(bitmask)); }
bitmask* numa_bitmask_setbit(bitmask* b, unsigned) { return b; }
bitmask* numa_bitmask_clearall(bitmask* b) { return b; }
void numa_bind(bitmask*) { }
void numa_bitmask_free(bitmask* b) { free(b); }
int numa_run_on_node(int) { return 0; }
void numa_set_preferred(int) { }
void numa_tonode_memory(void*, size_t, int) { }
int numa_node_of_cpu(int) { return 0; }
}
