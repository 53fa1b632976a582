// Counts the work of a thread (C05): every crate, the standard library included, is compiled to call
// the first of these on each control-flow edge; bytes copied in bulk are counted by themselves
#include <stddef.h>
__thread unsigned long sim_edges, sim_moved;
void __sanitizer_cov_trace_pc(void) { sim_edges++; }
unsigned long *sim_edges_at(void) { return &sim_edges; }
unsigned long *sim_moved_at(void) { return &sim_moved; }

extern void *__memmove_chk(void *, const void *, size_t, size_t);
extern void *__memcpy_chk(void *, const void *, size_t, size_t);
void *memmove(void *to, const void *from, size_t n) {
  sim_moved += n;
  return __memmove_chk(to, from, n, (size_t)-1);
}
void *memcpy(void *to, const void *from, size_t n) {
  sim_moved += n;
  return __memcpy_chk(to, from, n, (size_t)-1);
}
