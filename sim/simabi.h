/* Interface between the simulated operating system (os.cpp) and the code
   linked into each node (glue.c). */
#ifndef SIMABI_H
#define SIMABI_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif

struct sim_heapinfo {
  long heap_bytes;      /* size of the major heap */
  long free_words;      /* words in blue blocks (and fragments) */
  long live_words;      /* words in blocks that are not blue */
  long reach_words;     /* words in blocks reachable from the roots */
  long chunks;
  long majors, minors;
  int phase;
};

struct sim_node {
  int (*entry)(int argc, char **argv);
  long *gc_countdown;            /* allocation points before os_gc_now */
  long *poll_countdown;          /* polls before os_poll_now */
  void (*set)(const char *key, long v);
  int (*verify)(char *msg, int n, struct sim_heapinfo *hi);   /* 0 = ok */
  void (*boost)(long words);     /* make the next major slice do this much more */
  void *(*libsym)(int lib, const char *name);
  int (*liblookup)(const char *base);
  int (*in_blocking)(void);
};

/* called by glue.c */
void os_gc_now(long *countdown, int *force);
void os_poll_now(long *countdown);
void os_race(int where);
void os_minor_done(void);
void os_violation(const char *cls, const char *msg);
long os_slice_boost(void);
/* driver interface: both return malloc'ed host memory valid until the next call */
const char *os_next(long *len);
void os_log(const char *s, long len);
const char *os_ctl(const char *s, long len, long *rlen);
int os_valid_block(const void *p, size_t n);
void os_probe(const char *name);

#ifdef __cplusplus
}
#endif
#endif
