/* Linked into every node: heap verifier, hook functions, and the C primitives
   with which a driver program written in ML talks to the simulator. */
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include "config.h"
#include "mlvalues.h"
#include "alloc.h"
#include "memory.h"
#include "major_gc.h"
#include "minor_gc.h"
#include "gc.h"
#include "gc_ctrl.h"
#include "freelist.h"
#include "roots.h"
#include "stacks.h"
#include "callback.h"
#include "fail.h"
#include "simabi.h"

extern int main(int argc, char **argv);
extern int in_blocking_section;
extern char *gc_sweep_hp;
extern int gc_phase;
extern char *heap_start;
extern unsigned long extra_heap_memory;
extern void *sim_host_malloc(size_t);
extern void sim_host_free(void *);
extern void *sim_host_realloc(void *, size_t);

long sim_gc_countdown = 0x7fffffffffff;
long sim_poll_countdown = 0x7fffffffffff;

static int opt_poison = 1, opt_verify = 0, opt_verify_every = 1, verify_tick = 0;
static int busy = 0;

int sim_gc_now(void)
{
  int force = 0;
  os_gc_now(&sim_gc_countdown, &force);
  return force;
}
void sim_poll_now(void) { os_poll_now(&sim_poll_countdown); }
void sim_race(int where) { os_race(where); }

void sim_block_freed(char *bp)
{
  if (opt_poison) {
    mlsize_t i, n = Wosize_bp(bp);
    for (i = 0; i < n; i++) ((value *)bp)[i] = (value)0xDEADD8D8D8D8D8D8UL;
  }
}

/* ---- verifier ------------------------------------------------------- */

struct chunkinfo { char *start, *end; unsigned char *bits; long base; };
static struct chunkinfo *chunks; static int nchunks;
/* bits: one byte per word: 1 = block start (value address), 2 = visited, 4 = blue */
static value *stk; static long stkn, stkcap;
static char *vmsg; static int vmax; static int vbad;

static void bad(const char *what, value v, value where)
{
  if (!vbad) snprintf(vmsg, vmax, "%s value=%lx at=%lx phase=%d", what, (long)v, (long)where, gc_phase);
  vbad = 1;
}

static struct chunkinfo *find_chunk(char *p)
{
  int lo = 0, hi = nchunks - 1;
  while (lo <= hi) {
    int m = (lo + hi) / 2;
    if (p < chunks[m].start) hi = m - 1;
    else if (p >= chunks[m].end) lo = m + 1;
    else return &chunks[m];
  }
  return 0;
}

static void visit(value v, value where)
{
  struct chunkinfo *c; long w;
  if (!Is_block(v)) return;
  if (Is_young(v)) {
    /* The minor heap is empty: nothing may point into it. */
    bad("pointer into the empty minor heap", v, where); return;
  }
  c = find_chunk((char *)v);
  if (c == 0) return;
  w = ((char *)v - c->start) / sizeof(value);
  if (((uintptr_t)v & 7) || !(c->bits[w] & 1)) { bad("pointer that is not at the start of a block", v, where); return; }
  if (c->bits[w] & 4) { bad("reachable block is on the free list", v, where); return; }
  if (c->bits[w] & 2) return;
  c->bits[w] |= 2;
  if (gc_phase == Phase_sweep && Hp_val(v) >= gc_sweep_hp && Is_white_val(v)) {
    bad("reachable block is about to be freed", v, where); return;
  }
  if (stkn == stkcap) {
    stkcap = stkcap ? 2 * stkcap : 4096;
    stk = sim_host_realloc(stk, stkcap * sizeof(value));
  }
  stk[stkn++] = v;
}

/* an element of a reachable weak array: gone, dying, or a whole block */
static void weakfield(value v, value where)
{
  struct chunkinfo *c; long w;
  if (v == 0 || !Is_block(v)) return;
  if (Is_young(v)) { bad("weak pointer into the empty minor heap", v, where); return; }
  c = find_chunk((char *)v);
  if (c == 0) return;
  w = ((char *)v - c->start) / sizeof(value);
  if (((uintptr_t)v & 7) || !(c->bits[w] & 1)) bad("weak pointer that is not at the start of a block", v, where);
  else if (c->bits[w] & 4) bad("weak pointer to a block on the free list", v, where);
  else if (gc_phase == Phase_sweep && Hp_val(v) >= gc_sweep_hp && Is_white_val(v)) bad("weak pointer to a block about to be freed", v, where);
}

static void visit_root(value *p, value v) { visit(v, (value)p); }

static int verify(char *msg, int n, struct sim_heapinfo *hi)
{
  char *ch; int i; long reach = 0; struct sim_heapinfo tmp;
  if (!hi) hi = &tmp;
  memset(hi, 0, sizeof *hi);
  vmsg = msg; vmax = n; vbad = 0;
  if (heap_start == 0 || stack_high == 0) return 0;
  nchunks = 0;
  for (ch = heap_start; ch != 0; ch = (((heap_chunk_head *) ch) [-1]).next) nchunks++;
  chunks = sim_host_malloc(nchunks * sizeof *chunks);
  for (i = 0, ch = heap_start; ch != 0; ch = (((heap_chunk_head *) ch) [-1]).next, i++) {
    asize_t size = (((heap_chunk_head *) ch) [-1]).size;
    char *hp = ch;
    chunks[i].start = ch; chunks[i].end = ch + size;
    hi->heap_bytes += size;
    chunks[i].bits = sim_host_malloc(size / sizeof(value) + 8);
    memset(chunks[i].bits, 0, size / sizeof(value) + 8);
    if (i > 0 && chunks[i].start < chunks[i-1].end) { snprintf(msg, n, "heap chunks overlap or are unordered"); vbad = 1; break; }
    while (hp < ch + size) {
      header_t hd = Hd_hp(hp);
      long wh = Whsize_hd(hd);
      if (hp + Bsize_wsize(wh) > ch + size) {
        snprintf(msg, n, "heap block header %lx at %lx runs past its chunk", (long)hd, (long)hp); vbad = 1; break;
      }
      if (wh > 1) {
        chunks[i].bits[((char *)Val_hp(hp) - ch) / sizeof(value)] = 1 | (Color_hd(hd) == Blue ? 4 : 0);
      }
      if (Color_hd(hd) == Blue) hi->free_words += wh; 
      else if (wh == 1 && Color_hd(hd) == White) hi->free_words += wh;
      else hi->live_words += wh;
      hp += Bsize_wsize(wh);
    }
    hi->chunks++;
    if (vbad) { i++; break; }
  }
  if (!vbad && global_data) {
    stkn = 0;
    visit(global_data, 0);
    local_roots(visit_root);
    while (stkn > 0 && !vbad) {
      value v = stk[--stkn];
      reach += Whsize_val(v);
      if (Tag_val(v) < No_scan_tag) {
        mlsize_t k, sz = Wosize_val(v);
        for (k = 0; k < sz; k++) visit(Field(v, k), v);
      } else if (Tag_val(v) == Weak_tag) {
        mlsize_t k, sz = Wosize_val(v);
        for (k = 0; k < sz; k++) weakfield(Field(v, k), v);
      }
    }
  }
  hi->reach_words = reach;
  hi->phase = gc_phase;
  { int k; for (k = 0; k < i && k < nchunks; k++) sim_host_free(chunks[k].bits); }
  sim_host_free(chunks);
  return vbad;
}

void sim_minor_done(void)
{
  if (busy || young_ptr != young_start) return;
  busy = 1;
  if (opt_poison) {
    char *p;
    for (p = young_start; p < young_end; p += sizeof(value)) *(value *)p = (value)0xDEADD9D8D8D8D8D8UL - 1;
  }
  os_minor_done();
  if (opt_verify && ++verify_tick >= opt_verify_every) {
    char msg[300];
    verify_tick = 0;
    if (verify(msg, sizeof msg, 0)) os_violation("heap", msg);
  }
  busy = 0;
}

static void boost(long words)
{
  extra_heap_memory += words / 100;
}

static void setopt(const char *key, long v)
{
  if (!strcmp(key, "poison")) opt_poison = v;
  else if (!strcmp(key, "verify")) opt_verify = v;
  else if (!strcmp(key, "verify_every")) opt_verify_every = v;
}

/* ---- primitives for drivers ----------------------------------------- */

static value mkstring(const char *s, long n)
{
  value r = alloc_string(n);
  memcpy(String_val(r), s, n);
  return r;
}

value simprim_next(value unit)
{
  long n; const char *s = os_next(&n);
  return mkstring(s, n);
}

value simprim_log(value s)
{
  os_log(String_val(s), string_length(s));
  return Val_unit;
}

value simprim_ctl(value s)
{
  long n; const char *r; char cmd[512]; long k = string_length(s);
  if (k >= (long)sizeof cmd) k = sizeof cmd - 1;
  memcpy(cmd, String_val(s), k); cmd[k] = 0;
  if (cmd[0] == '!') minor_collection();      /* then s may have moved */
  r = os_ctl(cmd, k, &n);
  return mkstring(r, n);
}

value simprim_phase(value unit) { return Val_long(gc_phase); }

/* ---- C side of the callback and calling-convention workloads --------- */

value simprim_call1(value f, value a) { return callback(f, a); }
value simprim_call2(value f, value a, value b) { return callback2(f, a, b); }
value simprim_call3(value f, value a, value b, value c) { return callback3(f, a, b, c); }

/* Applies f to 0..n-1 from C and conses up the results, newest first. */
value simprim_mapn(value f, value n)
{
  long i, k = Long_val(n); value res;
  Push_roots(r, 2);
  r[0] = f; r[1] = Val_long(0);
  r[1] = Atom(0);
  for (i = 0; i < k; i++) {
    value x = callback(r[0], Val_long(i));
    value cell;
    Push_roots(q, 1);
    q[0] = x;
    cell = alloc(2, 1);          /* :: */
    Field(cell, 0) = q[0];
    Field(cell, 1) = r[1];
    Pop_roots();
    r[1] = cell;
  }
  res = r[1];
  Pop_roots();
  return res;
}
/* a value registered under a name (callback.h), or unit if there is none */
value simprim_getnamed(value name)
{
  char nam[100];
  valueptr p;
  strncpy(nam, String_val(name), 99); nam[99] = 0;
  p = get_valueptr(nam);
  if (p == 0) return Val_unit;
  return get_value(p);
}
value simprim_callnamed(value name, value a)
{
  char nam[100];
  valueptr p;
  Push_roots(r, 1);
  r[0] = a;
  strncpy(nam, String_val(name), 99); nam[99] = 0;
  p = get_valueptr(nam);
  a = r[0];
  Pop_roots();
  if (p == 0) failwith("not registered");
  return callbackptr(p, a);
}
static valueptr heldptr[16];
value simprim_hold(value i, value name)
{
  char nam[100];
  strncpy(nam, String_val(name), 99); nam[99] = 0;
  heldptr[Long_val(i)] = get_valueptr(nam);
  return Val_bool(heldptr[Long_val(i)] != 0);
}
value simprim_callheld(value i, value a)
{
  if (heldptr[Long_val(i)] == 0) failwith("not held");
  return callbackptr(heldptr[Long_val(i)], a);
}
value simprim_cregister(value name, value v)
{
  char nam[100];
  strncpy(nam, String_val(name), 99); nam[99] = 0;
  registervalue(nam, v);
  return Val_unit;
}
/* allocates n small blocks from C, so that collections happen inside C calls */
value simprim_churn(value n)
{
  long i, k = Long_val(n);
  for (i = 0; i < k; i++) alloc_tuple(1 + i % 5), (void)0;
  return Val_unit;
}
value simprim_arg0(value u) { return Val_long(1000); }
value simprim_arg1(value a) { return Val_long(1 * Long_val(a)); }
value simprim_arg2(value a, value b) { return Val_long(Long_val(a) + 10 * Long_val(b)); }
value simprim_arg3(value a, value b, value c) { return Val_long(Long_val(a) + 10 * Long_val(b) + 100 * Long_val(c)); }
value simprim_arg4(value a, value b, value c, value d)
{ return Val_long(Long_val(a) + 10 * Long_val(b) + 100 * Long_val(c) + 1000 * Long_val(d)); }
value simprim_arg5(value a, value b, value c, value d, value e)
{ return Val_long(Long_val(a) + 10 * Long_val(b) + 100 * Long_val(c) + 1000 * Long_val(d) + 10000 * Long_val(e)); }
value simprim_fail(value s) { failwith(String_val(s)); return Val_unit; }

/* ---- two libraries for the checks of Dynlib --------------------------- */
extern void os_dl_use(int lib);
extern void os_dl_stale(void);
#define LIBSYMS(L, NO) \
static value L##_var; static long L##_calls; \
static value L##_mk(long n, value *a, value churn) \
{ value res; long i; Push_roots(r, 6); os_dl_use(NO); L##_calls++; \
  for (i = 0; i < 6; i++) r[i] = i < n ? a[i] : Val_unit; \
  if (Is_long(churn) && Long_val(churn) % 5 == 0) for (i = 0; i < 3000; i++) alloc_tuple(1 + i % 5); \
  res = alloc_tuple(n + 1); for (i = 0; i < n; i++) Field(res, i) = r[i]; Field(res, n) = Val_long(NO); \
  Pop_roots(); return res; } \
static value L##_pack1(value a) { value v[] = { a }; return L##_mk(1, v, a); } \
static value L##_pack2(value a, value b) { value v[] = { a, b }; return L##_mk(2, v, b); } \
static value L##_pack3(value a, value b, value c) { value v[] = { a, b, c }; return L##_mk(3, v, c); } \
static value L##_pack4(value a, value b, value c, value d) { value v[] = { a, b, c, d }; return L##_mk(4, v, d); } \
static value L##_pack5(value a, value b, value c, value d, value e) { value v[] = { a, b, c, d, e }; return L##_mk(5, v, e); } \
static value L##_last1(value a) { os_dl_use(NO); L##_calls++; return a; } \
static value L##_last2(value a, value b) { os_dl_use(NO); L##_calls++; return b; } \
static value L##_last3(value a, value b, value c) { os_dl_use(NO); L##_calls++; return c; } \
static value L##_last4(value a, value b, value c, value d) { os_dl_use(NO); L##_calls++; return d; } \
static value L##_last5(value a, value b, value c, value d, value e) { os_dl_use(NO); L##_calls++; return e; } \
static value L##_boom1(value a) { os_dl_use(NO); failwith(#L " 1"); return a; } \
static value L##_boom2(value a, value b) { os_dl_use(NO); failwith(#L " 2"); return b; } \
static value L##_boom3(value a, value b, value c) { os_dl_use(NO); failwith(#L " 3"); return c; } \
static value L##_boom4(value a, value b, value c, value d) { os_dl_use(NO); failwith(#L " 4"); return d; } \
static value L##_boom5(value a, value b, value c, value d, value e) { os_dl_use(NO); failwith(#L " 5"); return e; } \
static value L##_set(value a) { os_dl_use(NO); L##_var = a; return Val_unit; } \
static value L##_count(value a) { os_dl_use(NO); return Val_long(L##_calls); } \
static value L##_stale(value a) { os_dl_use(NO); os_dl_stale(); return Val_unit; } \
static void L##_init(void) { L##_var = Val_long(NO); L##_calls = 0; } \
static const struct { const char *name; void *fn; } L##_syms[] = { \
  { "pack1", (void *)L##_pack1 }, { "pack2", (void *)L##_pack2 }, { "pack3", (void *)L##_pack3 }, { "pack4", (void *)L##_pack4 }, { "pack5", (void *)L##_pack5 }, \
  { "last1", (void *)L##_last1 }, { "last2", (void *)L##_last2 }, { "last3", (void *)L##_last3 }, { "last4", (void *)L##_last4 }, { "last5", (void *)L##_last5 }, \
  { "boom1", (void *)L##_boom1 }, { "boom2", (void *)L##_boom2 }, { "boom3", (void *)L##_boom3 }, { "boom4", (void *)L##_boom4 }, { "boom5", (void *)L##_boom5 }, \
  { "set", (void *)L##_set }, { "count", (void *)L##_count }, { "stale", (void *)L##_stale }, { "var", &L##_var }, { "only" #L, (void *)L##_count }, { "_init", (void *)L##_init }, { 0, 0 } };
LIBSYMS(liba, 40)
LIBSYMS(libb, 41)

static const struct { const char *name; void *fn; } simsyms[] = {
#define S(n) { #n, (void *)simprim_##n }
  S(next), S(log), S(ctl), S(phase), S(call1), S(call2), S(call3), S(mapn), S(getnamed),
  S(callnamed), S(hold), S(callheld), S(cregister), S(churn), S(arg0), S(arg1), S(arg2), S(arg3), S(arg4), S(arg5),
  S(fail), { 0, 0 } };

/* generated: table of the libraries and their symbols */
struct libsymrec { const char *name; void *fn; };
struct librec { const char *base; const struct libsymrec *syms; };
extern const struct librec sim_libtab[];

static int liblookup(const char *base)
{
  int i;
  if (!strcmp(base, "libsim.so")) return 1000;
  if (!strcmp(base, "liba.so")) return 40;
  if (!strcmp(base, "libb.so")) return 41;
  for (i = 0; sim_libtab[i].base; i++)
    if (!strcmp(base, sim_libtab[i].base)) return i;
  return -1;
}

static void *libsym(int lib, const char *name)
{
  int i;
  if (lib == 1000) {
    for (i = 0; simsyms[i].name; i++) if (!strcmp(name, simsyms[i].name)) return simsyms[i].fn;
    return 0;
  }
  if (lib == 40) {
    for (i = 0; liba_syms[i].name; i++) if (!strcmp(name, liba_syms[i].name)) return liba_syms[i].fn;
    return 0;
  }
  if (lib == 41) {
    for (i = 0; libb_syms[i].name; i++) if (!strcmp(name, libb_syms[i].name)) return libb_syms[i].fn;
    return 0;
  }
  for (i = 0; sim_libtab[lib].syms[i].name; i++)
    if (!strcmp(name, sim_libtab[lib].syms[i].name)) return sim_libtab[lib].syms[i].fn;
  return 0;
}

static int inblocking(void) { return in_blocking_section; }

const struct sim_node sim_node_api = {
  main, &sim_gc_countdown, &sim_poll_countdown, setopt, verify, boost, libsym, liblookup, inblocking
};

/* memory the C libraries get from the runtime counts as theirs */
extern void os_mark_lib(void *p);
char *sim_lib_stat_alloc(asize_t n) { char *r = stat_alloc(n); os_mark_lib(r); return r; }
char *sim_lib_stat_resize(char *p, asize_t n) { char *r = stat_resize(p, n); os_mark_lib(r); return r; }
