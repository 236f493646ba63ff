/* A simulated operating system in one process.

   The runtime system of Moscow ML and its C libraries are linked here several
   times over ("nodes"), with every libc function that reaches the outside world
   renamed to sim_*.  A process is a coroutine; only one runs at a time, and who
   runs next, what each system call returns, when signals arrive, when memory is
   refused, and when collections happen, is decided by decide(), a pure function
   of (seed, process, class, counter).  Decisions that deviate from the plain
   outcome are recorded; a recorded list can be replayed without the seed. */
#include <dlfcn.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <unordered_map>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cstdint>
#include <cerrno>
#include <csignal>
#include <csetjmp>
#include <ucontext.h>
#include <execinfo.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <time.h>
#include <utime.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/uio.h>
#include <sys/file.h>
#include <cctype>
#include <poll.h>
#include <pwd.h>
#include <grp.h>
#include "simabi.h"
using std::string; using std::vector; using std::map;
typedef uint64_t u64; typedef int64_t i64;

/* ------------------------------------------------------------------ */
/* basics */

static string out;                       /* the result of the run */
static bool in_child = false;
static void emit(const char *fmt, ...)
{
  char b[4096]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n >= (int)sizeof b) n = sizeof b - 1;
  out.append(b, n); out.push_back('\n');
}
static string esc(const char *s, size_t n)
{
  string r; static const char *hx = "0123456789abcdef";
  for (size_t i = 0; i < n; i++) {
    unsigned char c = s[i];
    if (c > 32 && c < 127 && c != '%') r.push_back(c);
    else { r.push_back('%'); r.push_back(hx[c >> 4]); r.push_back(hx[c & 15]); }
  }
  if (n == 0) r = "%";
  return r;
}
static string esc(const string &s) { return esc(s.data(), s.size()); }
static string unesc(const string &s)
{
  string r; if (s == "%") return r;
  for (size_t i = 0; i < s.size(); i++)
    if (s[i] == '%' && i + 2 < s.size() + 0 && isxdigit(s[i+1])) { r.push_back((char)strtol(s.substr(i+1,2).c_str(), 0, 16)); i += 2; }
    else r.push_back(s[i]);
  return r;
}
static vector<string> splitws(const string &s)
{
  vector<string> r; size_t i = 0;
  while (i < s.size()) {
    while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) i++;
    size_t j = i; while (j < s.size() && s[j] != ' ' && s[j] != '\t') j++;
    if (j > i) r.push_back(s.substr(i, j - i));
    i = j;
  }
  return r;
}
static u64 mix(u64 x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; x ^= x >> 31; return x; }
static u64 hash4(u64 a, u64 b, u64 c, u64 d) { return mix(mix(mix(mix(a + 0x9e3779b97f4a7c15ULL) + b * 0xd6e8feb86659fd93ULL) + c * 0xa0761d6478bd642fULL) + d * 0xe7037ed1a0b428dbULL); }
static u64 evhash = 1469598103934665603ULL;
static void ev(u64 x) { evhash = (evhash ^ x) * 1099511628211ULL; evhash ^= evhash >> 29; }
static void evs(const char *s, size_t n) { for (size_t i = 0; i < n; i++) evhash = (evhash ^ (unsigned char)s[i]) * 1099511628211ULL; }

/* ------------------------------------------------------------------ */
/* decisions */

enum Cls { SCHED, SHORT_R, SHORT_W, EINTR_, ERR_R, ERR_W, ERR_OPEN, ERR_CLOSE, ERR_SEEK, ERR_META, ERR_PROC, ERR_NET,
  MALLOC, LMALLOC, GC, SLICE, POLLSIG, SYSSIG, RACESIG, CLOCK, NETDELAY, NETLOSS, NETDUP, NETCHUNK, KILL, PLACE, SHUF,
  ERR_DL, PIPECHUNK, TICK, NCLS };
static const char *clsname[NCLS] = { "sched", "short_r", "short_w", "eintr", "err_r", "err_w", "err_open", "err_close", "err_seek",
  "err_meta", "err_proc", "err_net", "malloc", "lmalloc", "gc", "slice", "pollsig", "syssig", "racesig", "clock", "netdelay",
  "netloss", "netdup", "netchunk", "kill", "place", "shuf", "err_dl", "pipechunk", "tick" };
static int clsof(const string &s) { for (int i = 0; i < NCLS; i++) if (s == clsname[i]) return i; return -1; }

struct ClsCfg { u64 ppm = 0; u64 from = 0, to = ~0ULL; u64 maxn = ~0ULL; u64 fired = 0; u64 asked = 0; };
struct Case {
  u64 seed = 1; bool replay = false;
  ClsCfg cls[NCLS];
  map<std::pair<int,int>, map<u64,u64>> forced;       /* (pid,cls) -> n -> value */
  map<string,string> opt;
  vector<string> script;
  map<string, vector<string>> ops;                    /* ops by process name */
  map<string, string> env;
  i64 o(const char *k, i64 d) const { auto i = opt.find(k); return i == opt.end() ? d : strtoll(i->second.c_str(), 0, 0); }
  string so(const char *k, const char *d) const { auto i = opt.find(k); return i == opt.end() ? string(d) : i->second; }
};
static Case C;
static bool faults_on = true;
static map<string, u64> probes;
static string decisions;                 /* recorded */

/* ------------------------------------------------------------------ */
/* the file system */

struct Inode { int type = S_IFREG; int mode = 0644; int nlink = 1; int uid = 1000; u64 ino = 0; string data; vector<std::pair<string, Inode *>> ents;
  Inode *parent = 0; i64 mtime = 0, atime = 0, ctime_ = 0; int opens = 0; const string *shared = 0; int kind = 0; struct Sock *sock = 0; struct Pipe *fifo = 0; string synced; };
static u64 next_ino = 2;
static Inode *root;
static i64 disk_free = 1LL << 40;

static const string &idata(Inode *i) { return i->shared ? *i->shared : i->data; }
static string &wdata(Inode *i) { if (i->shared) { i->data = *i->shared; i->shared = 0; } return i->data; }

/* shared mappings of files: copied to and from the file around every system call on it */
struct Map_ { char *a; size_t len; i64 off; bool w; Inode *i; struct Proc *p; string last; };
static vector<Map_> maps;
static void map_in(Inode *i)
{
  for (auto &m : maps) if (m.w && (!i || m.i == i)) {
    string &d = wdata(m.i); if (m.off >= (i64)d.size()) continue;
    size_t k = std::min<u64>(m.len, d.size() - m.off); if (memcmp(&d[m.off], m.a, k)) memcpy(&d[m.off], m.a, k);
  }
}
static void map_out(Inode *i)
{
  for (auto &m : maps) if (m.i == i) {
    const string &d = idata(i); size_t k = m.off < (i64)d.size() ? std::min<u64>(m.len, d.size() - m.off) : 0;
    if (!m.w) mprotect(m.a, m.len, PROT_READ | PROT_WRITE);
    memcpy(m.a, d.data() + m.off, k); memset(m.a + k, 0, m.len - k);
    if (!m.w) mprotect(m.a, m.len, PROT_READ);
  }
}
static void map_drop(size_t k) { map_in(maps[k].i); munmap(maps[k].a, maps[k].len); maps.erase(maps.begin() + k); }
static void map_exit(struct Proc *p) { for (size_t k = maps.size(); k-- > 0; ) if (maps[k].p == p) map_drop(k); }

struct Pipe { string buf; size_t off = 0; size_t cap = 65536; int readers = 0, writers = 0; int id = 0; u64 total = 0; size_t size() const { return buf.size() - off; }
  void take(size_t n) { off += n; if (off > 65536) { buf.erase(0, off); off = 0; } } };

struct Chunk { string data; u64 at; string from; };
struct Sock { int dom, type; bool listening = false, nonbl = false; int backlog = 0; string addr; bool bound = false; Sock *peer = 0; bool connected = false, wasconn = false;
  std::deque<Sock *> pend; std::deque<u64> pendat; std::deque<Chunk> in; size_t inq = 0; size_t cap = 8192; bool rd_shut = false, wr_shut = false, peer_closed = false; u64 eof_at = 0; u64 lastat = 0; string dest; int refs = 0; int id = 0; bool reset = false; Inode *node = 0; };

struct OFD { enum T { REG, DIR_, PIPER, PIPEW, SOCK, NUL, TTY, ZERO } t; Inode *ino = 0; i64 off = 0; int flags = 0; int refs = 1; Pipe *pipe = 0; Sock *sock = 0; string path; int lock = 0; u64 id = 0; };

/* ------------------------------------------------------------------ */
/* processes */

#define MAXFD 320
#define NSIG_ 65
struct ArenaBlk { size_t size; int lib; };
enum PState { READY, BLOCKED, FROZEN, ZOMBIE, DEAD };
typedef bool (*Pred)(void *);

struct Proc {
  string next_buf, ctl_buf;               /* what the driver was last told */
  int pid = 0, ppid = 0, lasterr = 0; string name; PState st = READY;      /* lasterr: of the last failing system call */
  ucontext_t ctx; char *stack = 0; int stackslot = -1; bool ownstack = false;
  int node = -1;                          /* node copy, or -1 for a stub */
  OFD *fd[MAXFD]; bool cloexec[MAXFD]; int maxfd = MAXFD;
  Inode *cwd = 0; vector<string> env; vector<string> argv; string prog;
  vector<char *> cargv; vector<char *> cenv;
  struct { void (*h)(int); int flags; u64 mask; } sig[NSIG_];
  u64 pend = 0, mask = 0;
  int status = 0; bool reaped = false;
  u64 cnt[NCLS]; u64 gapnext[NCLS];
  int err = 0;
  Pred pred = 0; void *parg = 0; u64 deadline = ~0ULL; bool intr = false; bool slow = false;
  int (*stub)(Proc *) = 0;
  string sobuf;                            /* stdio's stdout buffer */
  size_t opi = 0; string opname;
  u64 gcbase = 0, gcset = 0, gcplan = ~0ULL, pollplan = ~0ULL, pollbase = 0, pollset = 0;
  u64 cpu = 0, usercpu = 0;
  Proc *vparent = 0;                       /* fork emulation: the frozen parent */
  string dlerr; bool has_dlerr = false;
  bool faultable = false; bool sigtarget = false; u64 alarm_at = 0;
  u64 syscalls = 0; int insys = 0;
  int umask_ = 022; map<int,int> dlrefs; string dlflags;
  u64 mallocs = 0; int jmpdepth = 0; bool armed = false, armf = false, arms = false;
};
static vector<Proc *> procs;
static Proc *cur = 0;
static ucontext_t sched_ctx;
static u64 now_ns = 0;                     /* monotonic simulated time */
static i64 wall_skew = 0;                  /* ns */
static i64 wall_base = 1000000000LL * 1000000000LL;
static u64 steps = 0, max_steps = 2000000, switches = 0, polls_total = 0, max_polls = 400000000ULL;
static int next_pid = 100;
static bool stop_run = false; static string stop_why;
static i64 tracelev = 0;
static u64 fault_total = 0;

static void violation(const char *cls, const string &msg)
{
  emit("V %d %s %s", cur ? cur->pid : 0, cls, msg.c_str());
}
extern "C" void os_violation(const char *cls, const char *msg) { violation(cls, msg); stop_run = true; stop_why = "violation"; }

/* random number for (process, class, n): 0 means "plain outcome" */
static u64 decide_at(Proc *p, int c, u64 n)
{
  ClsCfg &k = C.cls[c];
  auto f = C.forced.find(std::make_pair(p->pid, c));
  if (f != C.forced.end()) { auto g = f->second.find(n); if (g != f->second.end()) return g->second; }
  if (C.replay || k.ppm == 0 || n < k.from || n >= k.to || k.fired >= k.maxn) return 0;
  u64 h = hash4(C.seed, p->pid, c, n);
  if (h % 1000000 >= k.ppm) return 0;
  u64 v = (h >> 20) & 0xffffffffULL;
  return v ? v : 1;
}
static void fired(Proc *p, int c, u64 n, u64 v)
{
  ClsCfg &k = C.cls[c]; k.fired++;
  char b[96]; snprintf(b, sizeof b, "D %d %s %llu %llu\n", p->pid, clsname[c], (unsigned long long)n, (unsigned long long)v);
  if (decisions.size() < (8u << 20)) decisions += b;
  if (tracelev > 0) emit("T D %d %s %llu %llu", p->pid, clsname[c], (unsigned long long)n, (unsigned long long)v);
  if (c != SCHED && c != PLACE && c != TICK) fault_total++;
  ev(c); ev(n); ev(v);
}
static u64 decide(int c)
{
  if (!cur || !cur->faultable) { if (!(cur && (c == SCHED || c == PIPECHUNK || c == PLACE))) return 0; }
  u64 n = cur->cnt[c]++; C.cls[c].asked++;
  if (!faults_on && c != SCHED && c != PLACE) return 0;
  u64 v = decide_at(cur, c, n);
  if (v) fired(cur, c, n, v);
  return v;
}
/* next n >= from at which class c fires for p, for classes asked very often */
static u64 next_point(Proc *p, int c, u64 from)
{
  u64 best = ~0ULL;
  auto f = C.forced.find(std::make_pair(p->pid, c));
  if (f != C.forced.end()) { auto g = f->second.lower_bound(from); if (g != f->second.end()) best = g->first; }
  ClsCfg &k = C.cls[c];
  if (!C.replay && k.ppm && k.fired < k.maxn) {
    if (from < k.from) from = k.from;
    /* geometric gap derived from the hash of the starting point */
    double u = ((hash4(C.seed, p->pid, 1000 + c, from) >> 11) + 1) * (1.0 / 9007199254740993.0);
    double q = k.ppm / 1e6; double g = q >= 1 ? 0 : __builtin_floor(__builtin_log(u) / __builtin_log(1 - q));
    if (g > 1e12) g = 1e12;
    u64 n = from + (u64)g;
    if (n < k.to && n < best) best = n;
  }
  return best;
}
static u64 point_value(Proc *p, int c, u64 n)
{
  auto f = C.forced.find(std::make_pair(p->pid, c));
  if (f != C.forced.end()) { auto g = f->second.find(n); if (g != f->second.end()) return g->second; }
  u64 v = (hash4(C.seed, p->pid, 2000 + c, n) >> 20) & 0xffffffffULL;
  return v ? v : 1;
}

/* ------------------------------------------------------------------ */
/* node copies */

extern "C" {
#define NODE(k) extern const struct sim_node n##k##_sim_node_api; \
  extern char __start_ndata##k[] __attribute__((weak)), __stop_ndata##k[] __attribute__((weak)), __start_nbss##k[] __attribute__((weak)), __stop_nbss##k[] __attribute__((weak));
#include "nodes.inc"
#undef NODE
}
struct NodeCopy { const sim_node *api; char *d0, *d1, *b0, *b1; string pristine; bool busy; Proc *owner; int variant; };
static vector<NodeCopy> nodes;
static void init_nodes()
{
#define NODE(k) nodes.push_back(NodeCopy{ &n##k##_sim_node_api, __start_ndata##k, __stop_ndata##k, __start_nbss##k, __stop_nbss##k, "", false, 0, NODEVAR(k) });
#include "nodes.inc"
  for (auto &n : nodes) { n.pristine.assign(n.d0, n.d1 - n.d0); }
}

/* ------------------------------------------------------------------ */
/* memory: one arena per node, addresses chosen by the simulator */

#define ARENA_BASE 0x100000000000ULL
#define ARENA_STEP 0x004000000000ULL
#define SMALL_SPAN 0x20000000ULL          /* 512 MB for small blocks, then big ones */
#define BIG_SPAN   0x800000000ULL
#define RZ 32
struct Arena {
  char *base; u64 small_top; 
  map<uintptr_t, ArenaBlk> live;         /* user address -> block */
  map<uintptr_t, size_t> freed;          /* recently freed (quarantine) */
  std::deque<std::pair<uintptr_t, size_t>> quar; size_t quarbytes;
  map<size_t, vector<uintptr_t>> bins;   /* slots by slot size */
  map<uintptr_t, size_t> bigs;           /* all big slots in use: start -> len */
  size_t bytes, libbytes, peak; u64 big_hi, big_lo, small_hi; size_t mapped_hi;
};
static vector<Arena *> arenas;
static Arena *arena_of(Proc *p) { return p->node >= 0 ? arenas[p->node] : 0; }

static void arena_reset(int k)
{
  Arena *a = arenas[k];
  char *b = a->base;
  if (a->small_top) {
    madvise(b, (a->small_top + 4095) & ~4095ULL, MADV_DONTNEED);
    for (auto &x : a->bigs) madvise((void *)x.first, x.second, MADV_DONTNEED);
    madvise(b + SMALL_SPAN, BIG_SPAN, MADV_DONTNEED);
  }
  a->live.clear(); a->freed.clear(); a->quar.clear(); a->bins.clear(); a->bigs.clear();
  a->small_top = 0; a->bytes = a->libbytes = a->peak = a->quarbytes = 0;
}
static void init_arenas()
{
  for (size_t i = 0; i < nodes.size(); i++) {
    Arena *a = new Arena();
    a->base = (char *)(ARENA_BASE + i * ARENA_STEP);
    void *r = mmap(a->base, SMALL_SPAN + BIG_SPAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (r != a->base) { perror("mmap arena"); exit(3); }
    a->small_top = 0; a->bytes = a->libbytes = a->peak = a->quarbytes = 0;
    arenas.push_back(a);
  }
}
#define BIGMIN 32768
static void *arena_alloc(Proc *p, size_t n, int lib)
{
  Arena *a = arena_of(p);
  size_t need = ((n + 15) & ~15ULL) + 2 * RZ;
  uintptr_t u;
  if (a->bytes + n > (u64)C.o("memlimit", 1LL << 31)) return 0;
  if (need < BIGMIN) {
    size_t slot = (need + 63) & ~63ULL;
    auto &bin = a->bins[slot];
    if (!bin.empty()) { u = bin.back(); bin.pop_back(); }
    else { u = (uintptr_t)a->base + a->small_top; if (a->small_top + slot > SMALL_SPAN) return 0; a->small_top += slot; }
  } else {
    size_t slot = (need + 4095) & ~4095ULL;
    u64 v = decide(PLACE);
    if (v && a->bigs.size() < 4096) {
      /* somewhere random */
      u64 lo = (uintptr_t)a->base + SMALL_SPAN, span = BIG_SPAN - slot;
      for (int t = 0;; t++) {
        u = lo + ((hash4(C.seed, v, t, 77) % (span >> 12)) << 12);
        auto it = a->bigs.upper_bound(u + slot);
        bool ok = true;
        if (it != a->bigs.begin()) { --it; if (it->first + it->second > u) ok = false; }
        if (ok) break;
        if (t > 50) return 0;
      }
    } else {
      /* first fit */
      u = (uintptr_t)a->base + SMALL_SPAN;
      for (auto &x : a->bigs) { if (x.first >= u + slot) break; if (x.first + x.second > u) u = x.first + x.second; }
      if (u + slot > (uintptr_t)a->base + SMALL_SPAN + BIG_SPAN) return 0;
    }
    a->bigs[u] = slot;
  }
  p->mallocs++;
  memset((char *)u, 0xCA, RZ);
  char *user = (char *)u + RZ;
  size_t tail = need - RZ - n;
  memset(user + n, 0xCA, tail);
  if (n < 65536) memset(user, 0xD6, n);
  else { /* fresh or reused big memory: make the contents definite */ memset(user, 0xD6, 4096); memset(user + n - 4096, 0xD6, 4096); }
  a->live[(uintptr_t)user] = ArenaBlk{ n, lib };
  a->bytes += n; if (lib) a->libbytes += n;
  if (a->bytes > a->peak) a->peak = a->bytes;
  return user;
}
static bool arena_check(Proc *p, uintptr_t user, const ArenaBlk &b)
{
  const unsigned char *s = (const unsigned char *)user - RZ, *t = (const unsigned char *)user + b.size;
  size_t tail = ((b.size + 15) & ~15ULL) - b.size + RZ;
  for (int i = 0; i < RZ; i++) if (s[i] != 0xCA) return false;
  for (size_t i = 0; i < tail; i++) if (t[i] != 0xCA) return false;
  return true;
}
static void arena_free(Proc *p, void *q)
{
  if (!q) return;
  Arena *a = arena_of(p); uintptr_t u = (uintptr_t)q;
  auto it = a->live.find(u);
  if (it == a->live.end()) {
    char m[120]; bool was = a->freed.count(u);
    snprintf(m, sizeof m, "%s", was ? "block freed twice" : "free of an address that was not allocated");
    os_violation("memory", m); return;
  }
  if (!arena_check(p, u, it->second)) { char m[120]; snprintf(m, sizeof m, "bytes outside a block of %zu were overwritten (found when freed)", it->second.size); os_violation("memory", m); }
  size_t n = it->second.size; a->bytes -= n; if (it->second.lib) a->libbytes -= n;
  a->live.erase(it);
  size_t need = ((n + 15) & ~15ULL) + 2 * RZ;
  if (n < (1u << 20)) memset(q, 0xDE, n);
  else { memset(q, 0xDE, 65536); }
  /* even poison, so that a stale pointer in it is an invalid address */
  a->freed[u] = n; a->quar.push_back({ u, n }); a->quarbytes += need;
  while (a->quarbytes > (1u << 22) || a->quar.size() > 4000) {
    auto x = a->quar.front(); a->quar.pop_front(); a->freed.erase(x.first);
    size_t nd = ((x.second + 15) & ~15ULL) + 2 * RZ; a->quarbytes -= nd;
    if (nd < BIGMIN) a->bins[(nd + 63) & ~63ULL].push_back(x.first - RZ);
    else { size_t slot = (nd + 4095) & ~4095ULL; a->bigs.erase(x.first - RZ); madvise((void *)(x.first - RZ), slot, MADV_DONTNEED); }
  }
}
static void arena_checkall(Proc *p, const char *when)
{
  Arena *a = arena_of(p); if (!a) return;
  for (auto &x : a->live) if (!arena_check(p, x.first, x.second)) {
    char m[160]; snprintf(m, sizeof m, "bytes outside a block of %zu were overwritten (found %s)", x.second.size, when); os_violation("memory", m); return; }
  for (auto &x : a->quar) {
    const unsigned char *q = (const unsigned char *)x.first; size_t n = x.second < 65536 ? x.second : 65536;
    for (size_t i = 0; i < n; i++) if (q[i] != 0xDE) { char m[160]; snprintf(m, sizeof m, "freed block of %zu was written to (found %s)", x.second, when); os_violation("memory", m); return; }
  }
}
extern "C" void os_mark_lib(void *q)
{
  Arena *a = arena_of(cur); if (!a) return; auto it = a->live.find((uintptr_t)q);
  if (it != a->live.end() && !it->second.lib) { it->second.lib = 1; a->libbytes += it->second.size; }
}
extern "C" int os_valid_block(const void *q, size_t n)
{
  Arena *a = arena_of(cur); if (!a) return 0;
  auto it = a->live.upper_bound((uintptr_t)q);
  if (it == a->live.begin()) return 0; --it;
  return (uintptr_t)q + n <= it->first + it->second.size;
}

/* ------------------------------------------------------------------ */
/* coroutines and scheduling */

#define STACK_BASE 0x200000000000ULL
#define STACK_SIZE (8u << 20)
static bool stackused[64];
static char *stack_get(int *slot)
{
  for (int i = 0; i < 64; i++) if (!stackused[i]) {
    stackused[i] = true; *slot = i;
    char *b = (char *)(STACK_BASE + (u64)i * (STACK_SIZE + 65536));
    mmap(b, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    return b;
  }
  fprintf(stderr, "sim: out of stacks\n"); exit(3);
}
static void stack_put(Proc *p) { if (p->stackslot >= 0) { stackused[p->stackslot] = false; p->stackslot = -1; } }

struct ForkImg { Proc *parent; string data, bss, stackb; char *sp; vector<std::pair<uintptr_t, string>> mem; map<uintptr_t, ArenaBlk> live; Arena asnap; u64 small_top; ucontext_t ctx; };
static map<Proc *, ForkImg *> forkimgs;     /* by frozen parent */
static void restore_image(Proc *parent);

static void to_sched()
{
  Proc *me = cur; int e = errno;
  swapcontext(&me->ctx, &sched_ctx);
  errno = e;
}

static Proc *find_pid(int pid) { for (Proc *p : procs) if (p->pid == pid && p->st != DEAD) return p; return 0; }
static void proc_exit(Proc *p, int status);
static void ofd_unref(OFD *o);
[[noreturn]] static void die(int status)
{
  Proc *p = cur;
  proc_exit(p, status);
  setcontext(&sched_ctx); abort();
}

/* signals: deliver whatever is pending and not blocked to the current process.
   The handler runs on this stack and may longjmp away: nothing here may need
   destruction. */
static int deliver_signals()
{
  int done = 0;
  for (;;) {
    Proc *p = cur;
    u64 s = p->pend & ~p->mask; if (!s) return done;
    int n = __builtin_ctzll(s);
    p->pend &= ~(1ULL << n);
    void (*h)(int) = p->sig[n].h;
    if (h == SIG_IGN) continue;
    if (h == SIG_DFL) {
      if (n == SIGCHLD || n == SIGCONT || n == SIGURG || n == SIGWINCH) continue;
      if (tracelev) emit("T SIGDEATH %d %d", p->pid, n);
      die(n);
    }
    if (C.o("gtime", 0)) emit("AT %llu", (unsigned long long)now_ns);
    emit("G %d %d", p->pid, n);
    probes["signal_handler_run"]++;
    u64 om = p->mask; u64 add = p->sig[n].mask; if (!(p->sig[n].flags & SA_NODEFER)) add |= 1ULL << n;
    if (p->sig[n].flags & SA_RESETHAND) p->sig[n].h = SIG_DFL;
    p->mask |= add;
    int e = errno; int is = p->insys; p->insys = 0;
    h(n);
    p->insys = is; errno = e;
    p->mask = om; done++;
  }
}

static bool sig_waiting(Proc *p)
{
  u64 s = p->pend & ~p->mask;
  while (s) { int n = __builtin_ctzll(s); s &= s - 1; void (*h)(int) = p->sig[n].h;
    if (h == SIG_IGN) continue; if (h == SIG_DFL && (n == SIGCHLD || n == SIGCONT || n == SIGURG || n == SIGWINCH)) continue; return true; }
  return false;
}
static void post_signal(Proc *p, int n) { p->pend |= 1ULL << n; if (p->mask >> n & 1 && p->sig[n].h != SIG_IGN && n == SIGINT) emit("HELD %d %d", p->pid, n); ev(0x516); ev(p->pid); ev(n); if (tracelev) emit("T SIG %d %d t=%llu", p->pid, n, (unsigned long long)now_ns); }

enum { WOK = 0, WINTR = 1, WTIME = 2 };
static int wait_for(Pred pr, void *arg, u64 deadline, bool slow = true)
{
  for (;;) {
    Proc *p = cur;
    if (pr && pr(arg)) return WOK;
    if (sig_waiting(p)) return WINTR;
    if (now_ns >= deadline) return WTIME;
    p->pred = pr; p->parg = arg; p->deadline = deadline; p->st = BLOCKED; p->slow = slow;
    to_sched();
  }
}

static void check_limits()
{
  if (steps > max_steps && !stop_run) { stop_run = true; stop_why = "steps"; }
}

/* entry of every system call: accounts, advances the clock, may switch */
static bool yield_on = true;
static void syscall_enter(const char *name)
{
  Proc *p = cur;
  steps++; p->syscalls++; now_ns += 1000; p->cpu += 1000;
  ev(p->pid); evs(name, strlen(name));
  check_limits();
  if (stop_run) to_sched();
  u64 v = decide(KILL);
  if (v) { if (tracelev) emit("T KILLED %d", p->pid); die(SIGKILL); }
  v = decide(TICK);
  if (v) { u64 d = v % 3 == 0 ? v % 50 : v % 3 == 1 ? v % 5000 : v % 400000; now_ns += d * 1000000ULL; }
  v = decide(CLOCK);
  if (v) { i64 d = (i64)(v % 7200) - 3600; wall_skew += d * 1000000000LL; }
  v = decide(SYSSIG);
  if (v) post_signal(p, C.o("intsig", SIGINT));
  if (yield_on) {
    int n = 0; for (Proc *q : procs) if (q != p && q->st == READY) n++;
    if (n > 0) { v = decide(SCHED); if (v) { switches++; to_sched(); } }
  }
  deliver_signals();
}
struct Sys {            /* bookkeeping only: a longjmp over it is harmless */
  int e; Sys(const char *name) { e = errno; syscall_enter(name); }
  long ret(long r) { errno = e; return r; }
  long fail(int err) { errno = err; if (cur) cur->lasterr = err; return -1; }
};
#define TR(...) do { if (tracelev > 1) emit(__VA_ARGS__); } while (0)

/* ------------------------------------------------------------------ */
/* GC, poll and race points */

static bool minor_verify_now = false;
extern "C" void os_gc_now(long *cd, int *force)
{
  Proc *p = cur; u64 n = p->gcbase + p->gcset;      /* index of this point */
  *force = 0;
  u64 f = p->gcplan;                                /* the point planned when the countdown was set */
  if (faults_on && f == n && p->faultable) { u64 v = point_value(p, GC, n); fired(p, GC, n, v); *force = 1;
    nodes[p->node].api->boost((v % 4 == 0) ? 0 : (v % 4 == 1) ? (v >> 4) % 2000 : (v % 4 == 2) ? (v >> 4) % 60000 : (v >> 4) % 100000000);
  }
  f = p->gcplan = next_point(p, GC, n + 1);
  p->gcbase = n + 1;
  u64 gap = f == ~0ULL ? 1ULL << 40 : f - (n + 1);
  p->gcset = gap; *cd = (long)gap;
}
extern "C" void os_minor_done(void)
{
  if (!cur) return;
  ev(0x6c);
  u64 v = decide(SLICE);          /* the next slice of the major collection does more */
  if (v) nodes[cur->node].api->boost((v % 4 <= 1) ? (v >> 4) % 2000 : (v % 4 == 2) ? (v >> 4) % 60000 : (v >> 4) % 100000000);
}
static u64 poll_gap(Proc *p, u64 n)
{
  u64 f = p->pollplan = p->sigtarget ? next_point(p, POLLSIG, n) : ~0ULL;
  u64 gap = f == ~0ULL ? 100000 : f - n; if (gap > 100000) gap = 100000;
  return gap;
}
extern "C" void os_poll_now(long *cd)
{
  Proc *p = cur; u64 n = p->pollbase + p->pollset;
  if (p->sigtarget && faults_on && p->pollplan == n) { u64 v = point_value(p, POLLSIG, n); fired(p, POLLSIG, n, v); post_signal(p, C.o("intsig", SIGINT)); }
  polls_total += p->pollset + 1; p->cpu += (p->pollset + 1) * 20; now_ns += (p->pollset + 1) * 20;
  if (polls_total > max_polls && !stop_run) { stop_run = true; stop_why = "polls"; }
  p->pollbase = n + 1; u64 gap = poll_gap(p, n + 1); p->pollset = gap; *cd = (long)gap;
  if (stop_run) to_sched();
  /* a long computation does not keep other processes from running */
  int others = 0; for (Proc *q : procs) if (q != p && (q->st == READY || q->st == BLOCKED)) others++;
  if (others && gap == 100000) to_sched();
  deliver_signals();
}
extern "C" void os_race(int where)
{
  Proc *p = cur; if (!p || !p->sigtarget) return;
  u64 v = decide(RACESIG);
  if (v) { probes[string("race_point_") + std::to_string(where)]++; post_signal(p, C.o("intsig", SIGINT)); deliver_signals(); }
}
extern "C" void os_probe(const char *n) { probes[n]++; }

static void arm(Proc *p)
{
  const sim_node *a = nodes[p->node].api;
  p->gcbase = 0; u64 f = p->gcplan = next_point(p, GC, 0); p->gcset = f == ~0ULL ? 1ULL << 40 : f; *a->gc_countdown = (long)p->gcset;
  p->pollbase = 0; p->pollset = poll_gap(p, 0); *a->poll_countdown = (long)p->pollset;
  a->set("poison", C.o("poison", 1)); a->set("verify", C.o("verify", 0)); a->set("verify_every", C.o("verify_every", 1));
}

/* ------------------------------------------------------------------ */
/* processes: creation, exec, exit, fork */

static Inode *mkinode(int type, int mode) { Inode *i = new Inode; i->type = type; i->mode = mode; i->ino = next_ino++; i->mtime = i->atime = i->ctime_ = (wall_base + (i64)now_ns + wall_skew); if (type == S_IFDIR) i->nlink = 2; return i; }
static OFD *mkofd(OFD::T t) { static u64 id = 0; OFD *o = new OFD; o->t = t; o->id = ++id; return o; }
static int total_ofds = 0;

static void sock_close(Sock *s);
static void inode_unref(Inode *i);
static void ofd_unref(OFD *o)
{
  if (--o->refs > 0) return;
  switch (o->t) {
  case OFD::PIPER: o->pipe->readers--; break;
  case OFD::PIPEW: o->pipe->writers--; break;
  case OFD::SOCK: sock_close(o->sock); break;
  default: break;
  }
  if (o->ino) { o->ino->opens--; inode_unref(o->ino); }
  delete o;
}
static void inode_unref(Inode *i)
{
  if (i->nlink <= 0 && i->opens <= 0 && i->type == S_IFREG) { disk_free += (i64)i->data.size(); i->data.clear(); i->nlink = -1; }
}
static void close_all(Proc *p) { for (int i = 0; i < MAXFD; i++) if (p->fd[i]) { OFD *o = p->fd[i]; p->fd[i] = 0; ofd_unref(o); } }

static Proc *new_proc(Proc *parent, const string &name)
{
  Proc *p = new Proc; memset(p->fd, 0, sizeof p->fd); memset(p->cloexec, 0, sizeof p->cloexec);
  memset(p->sig, 0, sizeof p->sig); memset(p->cnt, 0, sizeof p->cnt); memset(p->gapnext, 0, sizeof p->gapnext);
  p->pid = next_pid++; p->name = name; p->cwd = root; p->maxfd = (int)C.o("maxfd", 64); if (p->maxfd > MAXFD) p->maxfd = MAXFD;
  if (parent) {
    p->ppid = parent->pid; p->cwd = parent->cwd; p->env = parent->env; p->argv = parent->argv; p->prog = parent->prog; p->mask = parent->mask; p->umask_ = parent->umask_;
    for (int i = 0; i < NSIG_; i++) p->sig[i] = parent->sig[i];
    for (int i = 0; i < MAXFD; i++) if (parent->fd[i]) { p->fd[i] = parent->fd[i]; p->fd[i]->refs++; p->cloexec[i] = parent->cloexec[i]; }
    p->faultable = false;
  } else p->ppid = 1;
  procs.push_back(p);
  return p;
}

static void release_node(Proc *p)
{
  if (p->node < 0) return;
  NodeCopy &n = nodes[p->node];
  p->gcbase += p->gcset - (u64)std::max<long>(0, *n.api->gc_countdown); p->gcset = 0;      /* where it got to */
  p->pollbase += p->pollset - (u64)std::max<long>(0, *n.api->poll_countdown); p->pollset = 0;
  if (n.owner == p) { n.busy = false; n.owner = 0; }
  p->node = -1;
}

static void proc_exit(Proc *p, int status)
{
  int node = p->node;
  if (node >= 0 && !p->vparent && C.o("leakcheck", 1)) arena_checkall(p, "at exit");
  p->status = status; p->st = ZOMBIE;
  emit("X %d %s %d", p->pid, p->name.c_str(), status);
  ev(0xe817); ev(p->pid); ev(status);
  if (!p->vparent) map_exit(p);
  close_all(p);
  if (p->vparent) { Proc *par = p->vparent; p->vparent = 0; p->node = -1; p->stackslot = -1; restore_image(par); }
  else { release_node(p); stack_put(p); }
  Proc *par = find_pid(p->ppid);
  if (par && par->st != ZOMBIE) post_signal(par, SIGCHLD);
  for (Proc *q : procs) if (q->ppid == p->pid) q->ppid = 1;
}

/* --- fork emulation: the child borrows the parent's memory until it execs
   or exits; the parent's memory is then put back and the parent resumes. --- */
static void save_image(Proc *par, char *sp)
{
  ForkImg *f = new ForkImg; NodeCopy &n = nodes[par->node];
  f->parent = par; f->data.assign(n.d0, n.d1 - n.d0); f->bss.assign(n.b0, n.b1 - n.b0);
  f->sp = sp; f->stackb.assign(sp, (par->stack + STACK_SIZE) - sp);
  Arena *a = arenas[par->node];
  for (auto &x : a->live) f->mem.push_back({ x.first, string((char *)x.first, x.second.size) });
  f->asnap = *a;
  forkimgs[par] = f;
}
static void restore_image(Proc *par)
{
  ForkImg *f = forkimgs[par]; forkimgs.erase(par);
  NodeCopy &n = nodes[par->node];
  memcpy(n.d0, f->data.data(), f->data.size()); memcpy(n.b0, f->bss.data(), f->bss.size());
  *arenas[par->node] = f->asnap;
  for (auto &x : f->mem) { memcpy((void *)x.first, x.second.data(), x.second.size());
    memset((char *)x.first - RZ, 0xCA, RZ); size_t nsz = x.second.size(); memset((char *)x.first + nsz, 0xCA, ((nsz + 15) & ~15ULL) - nsz + RZ); }
  for (auto &x : f->asnap.quar) { memset((void *)x.first, 0xDE, x.second < 65536 ? x.second : 65536); }
  /* NB: runs on the child's (= this) stack only when that stack is about to be
     abandoned; the bytes are put back by the scheduler, on its own stack. */
  n.owner = par; n.busy = true;
  par->vparent = 0; par->st = READY;
  extern map<Proc *, ForkImg *> pendingstack; pendingstack[par] = f;
}
map<Proc *, ForkImg *> pendingstack;

extern "C" __attribute__((noinline)) int os_fork(void)
{
  Proc *par = cur;
  Proc *ch = new_proc(par, par->name + "+child");
  ch->node = par->node; ch->stack = par->stack; ch->stackslot = -1; ch->vparent = par;
  ch->faultable = C.o("faultchild", 0) != 0; ch->sobuf = par->sobuf; ch->dlrefs = par->dlrefs;
  emit("FORK %d %d", par->pid, ch->pid);
  volatile int chpid = ch->pid;
  par->jmpdepth = 0;
  if (getcontext(&par->ctx) != 0) abort();
  if (par->jmpdepth == 0) {          /* first return: we go on as the child */
    par->jmpdepth = 1; par->st = FROZEN;
    save_image(par, (char *)__builtin_frame_address(0) - 4096);
    cur = ch; ch->st = READY;
    const sim_node *a = nodes[par->node].api; long c = *a->gc_countdown;
    ch->gcbase = par->gcbase + par->gcset - (u64)(c > 0 ? c : 0); u64 f = ch->gcplan = next_point(ch, GC, ch->gcbase);
    ch->gcset = f == ~0ULL ? 1ULL << 40 : f - ch->gcbase; *a->gc_countdown = (long)ch->gcset;
    c = *a->poll_countdown; ch->pollbase = par->pollbase + par->pollset - (u64)(c > 0 ? c : 0); ch->pollset = poll_gap(ch, ch->pollbase); *a->poll_countdown = (long)ch->pollset;
    return 0;
  }
  par->jmpdepth = 0;                 /* resumed, with memory as it was */
  return chpid;
}

extern "C" void sim_flush_stdio(void);
static int (*find_stub(const string &name))(Proc *);
static Inode *walk(Proc *p, const string &path, bool follow, int *err, Inode **parent = 0, string *last = 0, int depth = 0);
static bool may(Inode *i, int bits);

static void tramp()
{
  Proc *p = cur; int r;
  if (p->stub) r = p->stub(p);
  else r = nodes[p->node].api->entry((int)p->cargv.size() - 1, p->cargv.data());
  /* return from main: like exit */
  if (!p->sobuf.empty()) sim_flush_stdio();
  die((r & 255) << 8);
}

static void start_coroutine(Proc *p)
{
  p->stack = stack_get(&p->stackslot);
  getcontext(&p->ctx); p->ctx.uc_stack.ss_sp = p->stack; p->ctx.uc_stack.ss_size = STACK_SIZE; p->ctx.uc_link = &sched_ctx;
  makecontext(&p->ctx, tramp, 0);
  p->st = READY;
}

/* load program: returns errno or 0 (then p is ready to start afresh) */
static int load_program(Proc *p, const string &path, const vector<string> &argv, const vector<string> &env)
{
  int err; Inode *i = walk(p, path, true, &err);
  if (!i) return err;
  if (i->type == S_IFDIR) return EACCES;
  if (!(i->mode & 0111)) return EACCES;
  const string &d = idata(i);
  vector<string> av = argv;
  string prog = path;
  for (int depth = 0; d.compare(0, 2, "#!") == 0 || i->data.compare(0, 2, "#!") == 0; depth++) {
    string line = idata(i).substr(2, idata(i).find('\n') - 2); auto w = splitws(line);
    if (w.empty() || depth > 3) return ENOEXEC;
    vector<string> nv = { w[0] }; for (size_t k = 1; k < w.size(); k++) nv.push_back(w[k]);
    nv.push_back(prog); for (size_t k = 1; k < av.size(); k++) nv.push_back(av[k]);
    av = nv; prog = w[0]; i = walk(p, prog, true, &err); if (!i) return err; if (!(i->mode & 0111)) return EACCES;
    if (idata(i).compare(0, 2, "#!") != 0) break;
  }
  const string &dd = idata(i);
  if (dd.compare(0, 5, "STUB ") == 0) {
    string nm = dd.substr(5); while (!nm.empty() && (nm.back() == '\n' || nm.back() == ' ')) nm.pop_back();
    int (*f)(Proc *) = find_stub(nm); if (!f) return ENOEXEC;
    p->stub = f; p->node = -1;
  } else if (dd.compare(0, 5, "NODE ") == 0) {
    int var = atoi(dd.c_str() + 5), k = -1;
    for (size_t j = 0; j < nodes.size(); j++) if (!nodes[j].busy && nodes[j].variant == var) { k = (int)j; break; }
    if (k < 0) return EAGAIN;
    nodes[k].busy = true; nodes[k].owner = p; p->node = k; p->stub = 0;
  } else return ENOEXEC;
  p->argv = av; p->env = env; p->prog = path;
  return 0;
}
static void reset_for_exec(Proc *p)
{
  for (int i = 0; i < MAXFD; i++) if (p->fd[i] && p->cloexec[i]) { OFD *o = p->fd[i]; p->fd[i] = 0; p->cloexec[i] = false; ofd_unref(o); }
  for (int i = 0; i < NSIG_; i++) if (p->sig[i].h != SIG_IGN) { p->sig[i].h = SIG_DFL; p->sig[i].flags = 0; p->sig[i].mask = 0; }
  p->sobuf.clear(); p->dlrefs.clear();
  size_t sl = p->prog.rfind('/'); p->name = p->prog.substr(sl == string::npos ? 0 : sl + 1);
  if (p->name == "camlrunm" && p->argv.size() > 1) { size_t k = 1; while (k < p->argv.size() && p->argv[k][0] == '-') k++; if (k < p->argv.size()) { string a = p->argv[k]; size_t s2 = a.rfind('/'); p->name = a.substr(s2 == string::npos ? 0 : s2 + 1); } }
  p->cargv.clear(); for (auto &a : p->argv) p->cargv.push_back((char *)a.c_str()); p->cargv.push_back(0);
  p->cenv.clear(); for (auto &a : p->env) p->cenv.push_back((char *)a.c_str()); p->cenv.push_back(0);
  if (p->node >= 0) {
    NodeCopy &n = nodes[p->node];
    memcpy(n.d0, n.pristine.data(), n.pristine.size()); memset(n.b0, 0, n.b1 - n.b0);
    arena_reset(p->node);
    memset(p->cnt, 0, sizeof p->cnt); p->mallocs = 0;
    p->faultable = true; p->sigtarget = C.o("sigtarget", 1) != 0;
    string only = C.so("faultproc", ""); if (!only.empty() && ("," + only + ",").find("," + p->name + ",") == string::npos) p->faultable = false;
    p->armed = C.o("arm", 0) != 0; if (p->armed) { p->armf = p->faultable; p->arms = p->sigtarget; p->faultable = p->sigtarget = false; }
    arm(p);
  } else { p->faultable = false; }
  emit("EXEC %d %s", p->pid, esc(p->name).c_str());
}

static int spawn(Proc *parent, const string &path, const vector<string> &argv, const vector<string> &env, Proc **res)
{
  Proc *p = new_proc(parent, path);
  int e = load_program(p, path, argv, env);
  if (e) { close_all(p); p->st = DEAD; procs.erase(std::find(procs.begin(), procs.end(), p)); next_pid--; *res = 0; return e; }
  reset_for_exec(p);
  if (p->faultable && !C.so("opsname", "").empty()) {}
  start_coroutine(p); *res = p; return 0;
}

static u64 next_net_event();
static int stub_tool(Proc *p); static int stub_sh(Proc *p);
static void schedule()
{
  for (;;) {
    if (stop_run) return;
    for (auto &x : pendingstack) { ForkImg *f = x.second; memcpy(f->sp, f->stackb.data(), f->stackb.size()); delete f; }
    pendingstack.clear();
    /* wake what can be woken */
    vector<Proc *> run; int alive = 0; u64 nextt = ~0ULL;
    for (Proc *p : procs) {
      if (p->alarm_at && now_ns >= p->alarm_at) { p->alarm_at = 0; post_signal(p, SIGALRM); }
      if (p->st == BLOCKED) {
        if ((p->pred && p->pred(p->parg)) || now_ns >= p->deadline || sig_waiting(p)) p->st = READY;
        else { if (p->deadline < nextt) nextt = p->deadline; }
      }
      if (p->alarm_at && p->alarm_at < nextt) nextt = p->alarm_at;
      if (p->st == READY) run.push_back(p);
      if (p->st == READY || p->st == BLOCKED || p->st == FROZEN) alive++;
    }
    if (alive == 0) return;
    if (run.empty()) {
      u64 t = next_net_event(); if (t < nextt) nextt = t;
      if (nextt == ~0ULL) { stop_run = true; 
        /* helper processes still waiting at the end are not a deadlock */
        bool real = false; for (Proc *p : procs) if (p->st == BLOCKED && (p->node >= 0 || p->name == "script" || p->stub == stub_tool || p->stub == stub_sh)) real = true;
        stop_why = real ? "deadlock" : "end";
        for (Proc *p : procs) if (p->st == BLOCKED) emit("BLOCKED %d %s", p->pid, p->name.c_str());
        return; }
      if (nextt > now_ns) now_ns = nextt; else now_ns += 1000;
      continue;
    }
    Proc *pick;
    if (run.size() == 1) pick = run[0];
    else {
      /* default: after the last one that ran, in pid order */
      size_t k = 0; for (size_t i = 0; i < run.size(); i++) if (cur && run[i]->pid > cur->pid) { k = i; break; }
      static Proc schedproc; schedproc.pid = 0;
      u64 n = schedproc.cnt[SCHED]++; C.cls[SCHED].asked++;
      u64 v = decide_at(&schedproc, SCHED, n);
      if (v) { fired(&schedproc, SCHED, n, v); k = v % run.size(); }
      pick = run[k];
    }
    cur = pick; ev(0x5c); ev(pick->pid);
    swapcontext(&sched_ctx, &pick->ctx);
  }
}

/* ------------------------------------------------------------------ */
/* paths */

static bool may(Inode *i, int bits) { if (i->uid == 1000) return ((i->mode >> 6) & bits) == bits; return (i->mode & bits) == bits; }
static Inode *lookup(Inode *d, const string &n)
{
  if (n == ".") return d; if (n == "..") return d->parent ? d->parent : d;
  for (auto &e : d->ents) if (e.first == n) return e.second; return 0;
}
static Inode *walk(Proc *p, const string &path, bool follow, int *err, Inode **parent, string *last, int depth)
{
  if (path.empty()) { *err = ENOENT; return 0; }
  if (path.size() >= 4096) { *err = ENAMETOOLONG; return 0; }
  if (depth > 8) { *err = ELOOP; return 0; }
  Inode *d = path[0] == '/' ? root : p->cwd;
  vector<string> comp; size_t i = 0; bool trailing = path.size() > 1 && path.back() == '/';
  while (i < path.size()) { while (i < path.size() && path[i] == '/') i++; size_t j = i; while (j < path.size() && path[j] != '/') j++; if (j > i) comp.push_back(path.substr(i, j - i)); i = j; }
  if (parent) *parent = d; if (last) *last = ".";
  if (comp.empty()) { return d; }
  for (size_t k = 0; k < comp.size(); k++) {
    bool fin = k + 1 == comp.size();
    if (d->type != S_IFDIR) { *err = ENOTDIR; return 0; }
    if (!may(d, 1)) { *err = EACCES; return 0; }
    if (comp[k].size() > 255) { *err = ENAMETOOLONG; return 0; }
    Inode *n = lookup(d, comp[k]);
    if (fin) { if (parent) *parent = d; if (last) *last = comp[k]; }
    if (!n) { *err = ENOENT; if (!fin && parent) *parent = 0; return 0; }
    if (n->type == S_IFLNK && (!fin || follow || trailing)) {
      string t = n->data; Inode *save = p->cwd; p->cwd = d; int e2 = 0; Inode *pp = 0; string ll;
      Inode *m = walk(p, t, true, &e2, &pp, &ll, depth + 1); p->cwd = save;
      if (!m) { *err = e2; if (fin) { if (parent) *parent = pp; if (last) *last = ll; } else if (parent) *parent = 0; return 0; }
      if (fin && parent) { *parent = pp; if (last) *last = ll; }
      n = m;
    }
    if (fin && trailing && n->type != S_IFDIR) { *err = ENOTDIR; return 0; }
    d = n;
  }
  return d;
}
static string path_of(Inode *d)
{
  string r; int guard = 0;
  while (d != root && d && guard++ < 100) { Inode *q = d->parent; string nm = "?"; if (q) for (auto &e : q->ents) if (e.second == d) nm = e.first; r = "/" + nm + r; d = q; }
  return r.empty() ? "/" : r;
}
static i64 wall() { return wall_base + (i64)now_ns + wall_skew; }
static void add_ent(Inode *d, const string &n, Inode *i) { d->ents.push_back({ n, i }); d->mtime = wall(); if (i->type == S_IFDIR) { i->parent = d; d->nlink++; } }
static void del_ent(Inode *d, const string &n) { for (size_t k = 0; k < d->ents.size(); k++) if (d->ents[k].first == n) { if (d->ents[k].second->type == S_IFDIR) d->nlink--; d->ents.erase(d->ents.begin() + k); break; } d->mtime = wall(); }

static Inode *put_path(const string &path, int type, int mode)
{
  static Proc tmp; tmp.cwd = root; int err; Inode *d = root; size_t i = 0; vector<string> comp;
  while (i < path.size()) { while (i < path.size() && path[i] == '/') i++; size_t j = i; while (j < path.size() && path[j] != '/') j++; if (j > i) comp.push_back(path.substr(i, j - i)); i = j; }
  (void)err;
  for (size_t k = 0; k < comp.size(); k++) {
    Inode *n = lookup(d, comp[k]);
    if (k + 1 == comp.size()) { if (!n) { n = mkinode(type, mode); add_ent(d, comp[k], n); } else if (type == S_IFREG && n->type == S_IFREG) { n->data.clear(); n->shared = 0; n->mode = mode; } return n; }
    if (!n) { n = mkinode(S_IFDIR, 0755); add_ent(d, comp[k], n); }
    d = n;
  }
  return d;
}
static Inode *get_path(const string &path) { static Proc tmp; tmp.cwd = root; int err; return walk(&tmp, path, true, &err); }

/* ------------------------------------------------------------------ */
/* system calls on descriptors */

static int pick_err(u64 v, std::initializer_list<int> l) { auto it = l.begin(); std::advance(it, (v >> 3) % l.size()); return *it; }
static OFD *getfd(int fd) { if (fd < 0 || fd >= MAXFD) return 0; return cur->fd[fd]; }
static int newfd(OFD *o, int from = 0)
{
  for (int i = from; i < cur->maxfd; i++) if (!cur->fd[i]) { cur->fd[i] = o; cur->cloexec[i] = false; return i; }
  return -1;
}
struct RdArg { OFD *o; size_t n; };
static size_t sock_avail(Sock *s);
static bool sock_eof(Sock *s);
static bool pr_pipe_readable(void *a) { OFD *o = (OFD *)a; return o->pipe->size() > 0 || o->pipe->writers == 0; }
static bool pr_pipe_writable(void *a) { OFD *o = (OFD *)a; return o->pipe->size() < o->pipe->cap || o->pipe->readers == 0; }

static void io_event(const char *what, int fd, OFD *o, const char *buf, long n, i64 off)
{
  ev(n); if (n > 0) evs(buf, n < 64 ? n : 64);
  if (tracelev > 1) emit("T %s pid=%d fd=%d n=%ld off=%lld t=%llu", what, cur->pid, fd, n, (long long)off, (unsigned long long)now_ns);
}
static long sock_recv(OFD *o, char *buf, size_t n, int flags, string *from);
static long sock_send(OFD *o, const char *buf, size_t n, int flags, const string *to);

static long do_read(int fd, char *buf, size_t n, i64 at, bool useoff)
{
  OFD *o = getfd(fd);
  if (!o) return -EBADF;
  if (o->t == OFD::PIPEW || (o->t == OFD::REG && (o->flags & O_ACCMODE) == O_WRONLY)) return -EBADF;
  if (o->t == OFD::DIR_) return -EISDIR;
  u64 v;
  if (n == 0) return 0;
  if (o->t == OFD::NUL) return 0;
  if ((o->t == OFD::REG || !C.o("errfiles", 0)) && (v = decide(ERR_R))) { probes["err_read"]++; return -pick_err(v, { EIO, EIO, ENOMEM }); }
  bool slow = o->t == OFD::PIPER || o->t == OFD::SOCK || o->t == OFD::TTY;
  if ((slow || C.o("eintr_files", 1)) && (v = decide(EINTR_))) { probes["eintr_read"]++; return -EINTR; }
  if (o->t == OFD::REG) {
    if (maps.size()) map_in(o->ino);
    const string &d = idata(o->ino); i64 off = useoff ? at : o->off;
    if (off >= (i64)d.size()) return 0;
    size_t k = std::min<u64>(n, d.size() - off);
    if (k > 1 && (v = decide(SHORT_R))) { k = 1 + v % (k - 1); probes["short_read"]++; }
    memcpy(buf, d.data() + off, k); if (!useoff) o->off = off + k;
    o->ino->atime = wall();
    return k;
  }
  if (o->t == OFD::SOCK) return sock_recv(o, buf, n, 0, 0);
  if (o->t == OFD::PIPER) {
    Pipe *p = o->pipe;
    if (p->size() == 0) {
      if (p->writers == 0) return 0;
      if (o->flags & O_NONBLOCK) { probes["nonblocking_read_empty"]++; return -EAGAIN; }
      probes["read_blocked"]++;
      int w = wait_for(pr_pipe_readable, o, ~0ULL);
      if (w == WINTR) { probes["read_interrupted"]++; deliver_signals(); return -EINTR; }
      if (p->size() == 0) return 0;
    }
    size_t k = std::min(n, p->size());
    if (k > 1 && (v = decide(SHORT_R))) { k = 1 + v % (k - 1); probes["short_read"]++; }
    memcpy(buf, p->buf.data() + p->off, k); p->take(k);
    return k;
  }
  return -EINVAL;
}
static long do_write(int fd, const char *buf, size_t n, i64 at, bool useoff)
{
  OFD *o = getfd(fd);
  if (!o) return -EBADF;
  if (o->t == OFD::PIPER || o->t == OFD::DIR_ || (o->t == OFD::REG && (o->flags & O_ACCMODE) == O_RDONLY)) return -EBADF;
  u64 v;
  if (o->t == OFD::NUL) return n;
  if (n == 0) return 0;
  bool slow = o->t == OFD::PIPEW || o->t == OFD::SOCK;
  if ((v = decide(ERR_W))) { probes["err_write"]++; return -pick_err(v, { ENOSPC, EIO, EIO }); }
  if ((slow || C.o("eintr_files", 1)) && (v = decide(EINTR_))) { probes["eintr_write"]++; return -EINTR; }
  if (o->t == OFD::REG) {
    if (maps.size()) map_in(o->ino);
    string &d = wdata(o->ino); i64 off = useoff ? at : (o->flags & O_APPEND) ? (i64)d.size() : o->off;
    size_t k = n;
    if (k > 1 && (v = decide(SHORT_W))) { k = 1 + v % (k - 1); probes["short_write"]++; }
    i64 grow = off + (i64)k - (i64)d.size();
    if (grow > 0 && grow > disk_free) {
      i64 can = (i64)k - (grow - disk_free);
      if (can <= 0) { probes["disk_full"]++; return -ENOSPC; }
      probes["disk_full_partial"]++; k = can; grow = off + (i64)k - (i64)d.size(); if (grow < 0) grow = 0;
    }
    if (off > (1LL << 28)) return -EFBIG;
    if (grow > 0) { disk_free -= grow; d.resize(off + k, '\0'); }
    memcpy(&d[off], buf, k); if (!useoff) o->off = off + k;
    if (maps.size()) map_out(o->ino);
    o->ino->mtime = wall();
    return k;
  }
  if (o->t == OFD::SOCK) return sock_send(o, buf, n, 0, 0);
  if (o->t == OFD::PIPEW) {
    Pipe *p = o->pipe; size_t done = 0;
    for (;;) {
      if (p->readers == 0) { if (done) return done; probes["epipe"]++; post_signal(cur, SIGPIPE); deliver_signals(); return -EPIPE; }
      size_t room = p->cap > p->size() ? p->cap - p->size() : 0;
      /* writes of at most PIPE_BUF bytes are atomic */
      if (room > 0 && (room >= n - done || n > 4096)) {
        size_t k = std::min(room, n - done);
        if (n > 1 && k > 1 && (v = decide(SHORT_W))) { k = 1 + v % (k - 1); probes["short_write"]++; p->buf.append(buf + done, k); p->total += k; return done + k; }
        p->buf.append(buf + done, k); p->total += k; done += k;
        if (done == n) return done;
        continue;
      }
      if (o->flags & O_NONBLOCK) return done ? (long)done : -EAGAIN;
      probes["write_blocked"]++;
      /* block until there is room */
      static struct { OFD *o; size_t need; } wa[64]; int slot = cur->pid & 63; wa[slot].o = o; wa[slot].need = n > 4096 ? 1 : std::min(n - done, p->cap);
      int w = wait_for([](void *a) -> bool { auto *x = (decltype(&wa[0]))a; Pipe *q = x->o->pipe; return q->readers == 0 || (q->cap > q->size() && q->cap - q->size() >= x->need); }, &wa[slot], ~0ULL);
      if (w == WINTR) { deliver_signals(); return done ? (long)done : -EINTR; }
      if (n <= 4096 && p->cap < n) { /* tiny simulated pipe: fall back to pieces */ size_t k = std::min(p->cap - p->size(), n - done); p->buf.append(buf + done, k); p->total += k; done += k; if (done == n) return done; }
    }
  }
  return -EINVAL;
}

#define SYSRET(r) do { long r_ = (r); if (r_ < 0) return S_.fail((int)-r_); return S_.ret(r_); } while (0)
extern "C" {
void *sim_host_malloc(size_t n) { return malloc(n); }
void sim_host_free(void *p) { free(p); }
void *sim_host_realloc(void *p, size_t n) { return realloc(p, n); }

ssize_t sim_read(int fd, void *buf, size_t n) { Sys S_("read"); OFD *o = getfd(fd); long r = do_read(fd, (char *)buf, n, 0, false); io_event("READ", fd, o, (char *)buf, r, o ? o->off : -1); SYSRET(r); }
ssize_t sim_pread(int fd, void *buf, size_t n, off_t off) { Sys S_("pread"); long r = do_read(fd, (char *)buf, n, off, true); SYSRET(r); }
ssize_t sim_pread64(int fd, void *buf, size_t n, off_t off) { return sim_pread(fd, buf, n, off); }
ssize_t sim_write(int fd, const void *buf, size_t n) { Sys S_("write"); OFD *o = getfd(fd); long r = do_write(fd, (const char *)buf, n, 0, false); io_event("WRITE", fd, o, (const char *)buf, r, o ? o->off : -1);
  if (tracelev > 2) emit("T DATA %s", esc((const char *)buf, r > 0 ? r : 0).c_str()); SYSRET(r); }
ssize_t sim_pwrite(int fd, const void *buf, size_t n, off_t off) { Sys S_("pwrite"); long r = do_write(fd, (const char *)buf, n, off, true); SYSRET(r); }
ssize_t sim_pwrite64(int fd, const void *buf, size_t n, off_t off) { return sim_pwrite(fd, buf, n, off); }
ssize_t sim_readv(int fd, const struct iovec *v, int k) { long t = 0; for (int i = 0; i < k; i++) { if (!v[i].iov_len) continue; long r = sim_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if (r < (long)v[i].iov_len) break; } return t; }
ssize_t sim_writev(int fd, const struct iovec *v, int k) { long t = 0; for (int i = 0; i < k; i++) { if (!v[i].iov_len) continue; long r = sim_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if (r < (long)v[i].iov_len) break; } return t; }

off_t sim_lseek(int fd, off_t off, int wh)
{
  Sys S_("lseek"); OFD *o = getfd(fd); u64 v;
  if (!o) return S_.fail(EBADF);
  if (o->t != OFD::REG) return S_.fail(o->t == OFD::DIR_ ? EINVAL : ESPIPE);
  if ((v = decide(ERR_SEEK))) return S_.fail(pick_err(v, { EIO, EOVERFLOW }));
  i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o->off : (i64)idata(o->ino).size();
  i64 r = base + off; if (r < 0) return S_.fail(EINVAL);
  o->off = r; if (tracelev > 1) emit("T LSEEK pid=%d fd=%d %lld", cur->pid, fd, (long long)r);
  return S_.ret(r);
}
off_t sim_lseek64(int fd, off_t off, int wh) { return sim_lseek(fd, off, wh); }

static bool pr_fifo_r(void *a) { return ((OFD *)a)->pipe->writers > 0; }

static int do_open(const char *path, int flags, int mode)
{
  u64 v; if ((v = decide(ERR_OPEN))) { probes["err_open"]++; return -pick_err(v, { EMFILE, ENFILE, EACCES, EIO, ENOMEM, EINTR }); }
  int err = 0; Inode *par = 0; string last; Inode *i = walk(cur, path, !(flags & O_NOFOLLOW), &err, &par, &last);
  int acc = flags & O_ACCMODE;
  bool created = false;
  if (i && (flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
  if (!i) {
    if (err != ENOENT || !(flags & O_CREAT) || !par) return -err;
    if (path[strlen(path) - 1] == '/') return -EISDIR;
    if (!may(par, 3)) return -EACCES;
    if (disk_free <= 0) { probes["disk_full"]++; return -ENOSPC; }
    created = true;
  } else {
    if (i->type == S_IFLNK) return -ELOOP;
    if (i->type == S_IFDIR && (acc != O_RDONLY || (flags & O_CREAT))) return -EISDIR;
    if ((flags & O_DIRECTORY) && i->type != S_IFDIR) return -ENOTDIR;
    if (i->kind == 0) {
      if (acc != O_WRONLY && !may(i, 4)) return -EACCES;
      if (acc != O_RDONLY && !may(i, 2)) return -EACCES;
    }
    if (i->type == S_IFSOCK) return -ENXIO;
  }
  int k = -1; for (int j = 0; j < cur->maxfd; j++) if (!cur->fd[j]) { k = j; break; }
  if (k < 0) { probes["emfile"]++; return -EMFILE; }
  if (created) { i = mkinode(S_IFREG, mode & ~cur->umask_ & 07777); add_ent(par, last, i); }
  OFD *o;
  if (i->kind == 1) o = mkofd(OFD::NUL);
  else if (i->type == S_IFIFO) {
    if (!i->fifo) i->fifo = new Pipe;
    o = mkofd(acc == O_RDONLY ? OFD::PIPER : OFD::PIPEW); o->pipe = i->fifo; if (acc == O_RDONLY) { i->fifo->readers++; if (i->kind == 5) { i->kind = 6; i->fifo->readers--; } } else { i->fifo->writers++; if (i->kind == 3) { i->kind = 4; i->fifo->writers--; } }
  } else {
    o = mkofd(i->type == S_IFDIR ? OFD::DIR_ : OFD::REG); o->ino = i; i->opens++;
    if ((flags & O_TRUNC) && i->type == S_IFREG && acc != O_RDONLY) { disk_free += (i64)idata(i).size(); wdata(i).clear(); i->mtime = wall(); }
  }
  o->flags = flags & ~(O_CREAT | O_EXCL | O_TRUNC); o->path = path;
  cur->fd[k] = o; cur->cloexec[k] = flags & O_CLOEXEC;
  if (tracelev > 1) emit("T OPEN pid=%d %s fl=%o -> %d", cur->pid, path, flags, k);
  return k;
}
int sim_open(const char *path, int flags, ...)
{
  int mode = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
  Sys S_("open"); evs(path, strlen(path)); int r = do_open(path, flags, mode); SYSRET(r);
}
int sim_open64(const char *path, int flags, ...) { int mode = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } return sim_open(path, flags, mode); }
int sim___open_2(const char *path, int flags) { return sim_open(path, flags); }
int sim_openat(int, const char *path, int flags, ...) { int mode = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } return sim_open(path, flags, mode); }
int sim_creat(const char *path, int mode) { return sim_open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int sim_close(int fd)
{
  Sys S_("close"); OFD *o = getfd(fd); if (tracelev > 1) emit("T CLOSE pid=%d fd=%d", cur->pid, fd);
  if (!o) { probes["close_ebadf"]++; return S_.fail(EBADF); }
  u64 v = decide(ERR_CLOSE);
  cur->fd[fd] = 0; cur->cloexec[fd] = false; ofd_unref(o);     /* Linux: closed even if it fails */
  if (v) { probes["err_close"]++; return S_.fail(pick_err(v, { EIO, ENOSPC })); }
  return S_.ret(0);
}
int sim_dup2(int a, int b)
{
  Sys S_("dup2"); OFD *o = getfd(a); if (!o || b < 0 || b >= MAXFD) return S_.fail(EBADF);
  if (a == b) return S_.ret(b);
  if (cur->fd[b]) { OFD *x = cur->fd[b]; cur->fd[b] = 0; ofd_unref(x); }
  o->refs++; cur->fd[b] = o; cur->cloexec[b] = false; return S_.ret(b);
}
int sim_dup3(int a, int b, int fl) { int r = sim_dup2(a, b); if (r >= 0 && (fl & O_CLOEXEC)) cur->cloexec[b] = true; return r; }
int sim_dup(int a) { Sys S_("dup"); OFD *o = getfd(a); if (!o) return S_.fail(EBADF); int k = newfd(o); if (k < 0) return S_.fail(EMFILE); o->refs++; return S_.ret(k); }
int sim_pipe2(int *p, int fl)
{
  Sys S_("pipe"); u64 v; if ((v = decide(ERR_PROC))) { probes["err_pipe"]++; return S_.fail(pick_err(v, { EMFILE, ENFILE })); }
  int a = -1, b = -1; for (int i = 0; i < cur->maxfd; i++) if (!cur->fd[i]) { if (a < 0) a = i; else { b = i; break; } }
  if (b < 0) return S_.fail(EMFILE);
  static int pid_ = 0; Pipe *q = new Pipe; q->id = ++pid_; q->cap = (size_t)C.o("pipecap", 65536); q->readers = q->writers = 1;
  OFD *r = mkofd(OFD::PIPER), *w = mkofd(OFD::PIPEW); r->pipe = w->pipe = q; r->flags = O_RDONLY | (fl & O_NONBLOCK); w->flags = O_WRONLY | (fl & O_NONBLOCK);
  cur->fd[a] = r; cur->fd[b] = w; cur->cloexec[a] = cur->cloexec[b] = (fl & O_CLOEXEC) != 0; p[0] = a; p[1] = b; return S_.ret(0);
}
int sim_pipe(int *p) { return sim_pipe2(p, 0); }
int sim_fcntl(int fd, int cmd, ...)
{
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  Sys S_("fcntl"); OFD *o = getfd(fd); if (!o) return S_.fail(EBADF);
  switch (cmd) {
  case F_GETFL: return S_.ret(o->flags);
  case F_SETFL: { u64 v = decide(ERR_META); if (v && (v & 7) == 0) return S_.fail(EINTR); o->flags = (o->flags & ~(O_NONBLOCK | O_APPEND)) | (arg & (O_NONBLOCK | O_APPEND)); return S_.ret(0); }
  case F_GETFD: return S_.ret(cur->cloexec[fd] ? FD_CLOEXEC : 0);
  case F_SETFD: cur->cloexec[fd] = arg & FD_CLOEXEC; return S_.ret(0);
  case F_DUPFD: case F_DUPFD_CLOEXEC: { int k = newfd(o, arg); if (k < 0) return S_.fail(EMFILE); o->refs++; cur->cloexec[k] = cmd == F_DUPFD_CLOEXEC; return S_.ret(k); }
  case F_SETLK: case F_SETLKW: case F_GETLK: {
    struct flock *fl = (struct flock *)arg; if (!o->ino) return S_.fail(EINVAL);
    if (cmd == F_GETLK) { fl->l_type = F_UNLCK; return S_.ret(0); }
    if (fl->l_type == F_UNLCK) { o->lock = 0; return S_.ret(0); }
    for (Proc *q : procs) if (q != cur) for (int i = 0; i < MAXFD; i++) { OFD *x = q->fd[i]; if (x && x != o && x->ino == o->ino && x->lock && (x->lock == F_WRLCK || fl->l_type == F_WRLCK)) return S_.fail(EAGAIN); }
    o->lock = fl->l_type; return S_.ret(0); }
  }
  return S_.fail(EINVAL);
}
int sim_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return sim_fcntl(fd, cmd, arg); }
int sim_flock(int fd, int op)
{
  Sys S_("flock"); OFD *o = getfd(fd); if (!o || !o->ino) return S_.fail(EBADF);
  int want = (op & LOCK_SH) ? 1 : (op & LOCK_EX) ? 2 : 0;
  if (!want) { o->lock = 0; return S_.ret(0); }
  for (;;) {
    bool busy = false;
    for (Proc *q : procs) for (int i = 0; i < MAXFD; i++) { OFD *x = q->fd[i]; if (x && x != o && x->ino == o->ino && x->lock && (x->lock == 2 || want == 2)) busy = true; }
    if (!busy) { o->lock = want; return S_.ret(0); }
    probes["lock_contended"]++;
    if (op & LOCK_NB) return S_.fail(EWOULDBLOCK);
    wait_for(0, 0, now_ns + 1000000);
  }
}
int sim_lockf(int fd, int cmd, off_t len) { Sys S_("lockf"); OFD *o = getfd(fd); if (!o) return S_.fail(EBADF); return S_.ret(0); }
int sim_ioctl(int, unsigned long, ...) { Sys S_("ioctl"); return S_.fail(ENOTTY); }
int sim_isatty(int fd) { Sys S_("isatty"); OFD *o = getfd(fd); if (o && o->t == OFD::TTY) return S_.ret(1); S_.fail(ENOTTY); return 0; }
int sim_fsync(int fd) { Sys S_("fsync"); OFD *o = getfd(fd); if (!o) return S_.fail(EBADF); u64 v = decide(ERR_W); if (v) return S_.fail(EIO); probes["fsync"]++; if (o->ino && o->t == OFD::REG) map_in(o->ino), o->ino->synced = idata(o->ino); return S_.ret(0); }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
void sim_sync(void) {}
int sim_ftruncate(int fd, off_t n)
{
  Sys S_("ftruncate"); OFD *o = getfd(fd); if (!o || o->t != OFD::REG) return S_.fail(EBADF); if (n < 0) return S_.fail(EINVAL);
  if ((o->flags & O_ACCMODE) == O_RDONLY) return S_.fail(EINVAL);
  i64 grow = n - (i64)idata(o->ino).size(); if (grow > 0 && grow > disk_free) { probes["disk_full"]++; return S_.fail(ENOSPC); }
  map_in(o->ino); disk_free -= grow; wdata(o->ino).resize(n, '\0'); map_out(o->ino); o->ino->mtime = wall(); return S_.ret(0);
}
int sim_ftruncate64(int fd, off_t n) { return sim_ftruncate(fd, n); }
int sim_posix_fallocate(int, off_t, off_t) { return EOPNOTSUPP; }
void *sim_mmap(void *, size_t n, int prot, int fl, int fd, off_t off)
{
  Sys S_("mmap"); OFD *o = getfd(fd);
  if ((fl & MAP_ANONYMOUS) || !(fl & MAP_SHARED) || !o || o->t != OFD::REG) { S_.fail(ENODEV); return MAP_FAILED; }
  bool w = prot & PROT_WRITE; if (w && (o->flags & O_ACCMODE) != O_RDWR) { S_.fail(EACCES); return MAP_FAILED; }
  if (decide(LMALLOC)) { probes["mmap_refused"]++; S_.fail(ENOMEM); return MAP_FAILED; }
  char *a = (char *)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (a == MAP_FAILED) { S_.fail(ENOMEM); return MAP_FAILED; }
  if (!w) mprotect(a, n, PROT_READ);
  map_in(o->ino); maps.push_back(Map_{ a, n, (i64)off, w, o->ino, cur, "" }); map_out(o->ino); probes["mmap"]++; S_.ret(0); return a;
}
void *sim_mmap64(void *a, size_t b, int c, int d, int e, off_t f) { return sim_mmap(a, b, c, d, e, f); }
int sim_munmap(void *a, size_t n) { Sys S_("munmap"); for (size_t k = 0; k < maps.size(); k++) if (maps[k].a == a) { map_drop(k); return S_.ret(0); } return S_.fail(EINVAL); }
int sim_msync(void *a, size_t, int) { Sys S_("msync"); for (auto &m : maps) if (m.a == a) { if (decide(ERR_W)) return S_.fail(EIO); map_in(m.i); m.i->synced = idata(m.i); probes["fsync"]++; return S_.ret(0); } return S_.fail(ENOMEM); }

/* --- metadata --- */
static void fill_stat(Inode *i, struct stat *st)
{
  memset(st, 0, sizeof *st); st->st_dev = 0x801; st->st_ino = i->ino; st->st_mode = i->type | i->mode; st->st_nlink = i->nlink < 0 ? 0 : i->nlink; st->st_uid = i->uid; st->st_gid = i->uid;
  st->st_size = i->type == S_IFDIR ? 4096 : (off_t)idata(i).size(); st->st_blksize = 512 << (C.o("blkshift", 3)); st->st_blocks = (st->st_size + 511) / 512;
  st->st_mtim.tv_sec = i->mtime / 1000000000; st->st_mtim.tv_nsec = i->mtime % 1000000000; st->st_atim.tv_sec = i->atime / 1000000000; st->st_atim.tv_nsec = i->atime % 1000000000; st->st_ctim = st->st_mtim;
}
#define META(nm) Sys S_(nm); { u64 v_ = decide(ERR_META); if (v_) { probes["err_meta"]++; return S_.fail(pick_err(v_, { EIO, EACCES, ENOMEM, EIO })); } }
int sim_stat(const char *p, struct stat *st) { META("stat"); int err; Inode *i = walk(cur, p, true, &err); if (!i) return S_.fail(err); fill_stat(i, st); return S_.ret(0); }
int sim_lstat(const char *p, struct stat *st) { META("lstat"); int err; Inode *i = walk(cur, p, false, &err); if (!i) return S_.fail(err); fill_stat(i, st); return S_.ret(0); }
int sim_fstat(int fd, struct stat *st)
{
  Sys S_("fstat"); OFD *o = getfd(fd); if (!o) return S_.fail(EBADF);
  if (o->ino) fill_stat(o->ino, st); else { memset(st, 0, sizeof *st); st->st_mode = o->t == OFD::SOCK ? S_IFSOCK : o->t == OFD::TTY || o->t == OFD::NUL ? S_IFCHR : S_IFIFO; st->st_blksize = 4096; }
  return S_.ret(0);
}
int sim_stat64(const char *p, struct stat *st) { return sim_stat(p, st); }
int sim_lstat64(const char *p, struct stat *st) { return sim_lstat(p, st); }
int sim_fstat64(int fd, struct stat *st) { return sim_fstat(fd, st); }
int sim___xstat(int, const char *p, struct stat *st) { return sim_stat(p, st); }
int sim___lxstat(int, const char *p, struct stat *st) { return sim_lstat(p, st); }
int sim___fxstat(int, int fd, struct stat *st) { return sim_fstat(fd, st); }
int sim_access(const char *p, int m) { META("access"); int err; Inode *i = walk(cur, p, true, &err); if (!i) return S_.fail(err); if (m && !may(i, m)) return S_.fail(EACCES); return S_.ret(0); }
int sim_chmod(const char *p, mode_t m) { META("chmod"); int err; Inode *i = walk(cur, p, true, &err); if (!i) return S_.fail(err); if (i->uid != 1000) return S_.fail(EPERM); i->mode = m & 07777; return S_.ret(0); }
int sim_fchmod(int fd, mode_t m) { META("fchmod"); OFD *o = getfd(fd); if (!o || !o->ino) return S_.fail(EBADF); o->ino->mode = m & 07777; return S_.ret(0); }
int sim_fchown(int fd, uid_t, gid_t) { Sys S_("fchown"); if (!getfd(fd)) return S_.fail(EBADF); return S_.ret(0); }
mode_t sim_umask(mode_t m) { int o = cur->umask_; cur->umask_ = m & 0777; return o; }
int sim_unlink(const char *p)
{
  META("unlink"); int err; Inode *par = 0; string last; Inode *i = walk(cur, p, false, &err, &par, &last); if (!i) return S_.fail(err);
  if (i->type == S_IFDIR) return S_.fail(EISDIR); if (!may(par, 3)) return S_.fail(EACCES);
  del_ent(par, last); i->nlink--; i->shared ? (void)(i->data = *i->shared, i->shared = 0) : (void)0; if (i->nlink == 0 && i->opens <= 0) inode_unref(i);
  ev(0xdead); evs(p, strlen(p)); if (tracelev > 1) emit("T UNLINK pid=%d %s", cur->pid, p);
  return S_.ret(0);
}
int sim_rmdir(const char *p)
{
  META("rmdir"); int err; Inode *par = 0; string last; Inode *i = walk(cur, p, false, &err, &par, &last); if (!i) return S_.fail(err);
  if (i->type != S_IFDIR) return S_.fail(ENOTDIR); if (last == ".") return S_.fail(i == root ? EBUSY : EINVAL); if (last == "..") return S_.fail(ENOTEMPTY); if (!i->ents.empty()) return S_.fail(ENOTEMPTY); if (i == root) return S_.fail(EBUSY); if (!may(par, 3)) return S_.fail(EACCES);
  del_ent(par, last); i->nlink = 0; return S_.ret(0);
}
int sim_remove(const char *p) { struct stat st; if (sim_lstat(p, &st) < 0) return -1; return S_ISDIR(st.st_mode) ? sim_rmdir(p) : sim_unlink(p); }
int sim_mkdir(const char *p, mode_t m)
{
  META("mkdir"); int err; Inode *par = 0; string last; string ps = p; while (ps.size() > 1 && ps.back() == '/') ps.pop_back();
  Inode *i = walk(cur, ps, false, &err, &par, &last); if (i) return S_.fail(EEXIST); if (err != ENOENT || !par) return S_.fail(err); if (!may(par, 3)) return S_.fail(EACCES);
  if (disk_free <= 0) return S_.fail(ENOSPC);
  add_ent(par, last, mkinode(S_IFDIR, m & ~cur->umask_ & 07777)); return S_.ret(0);
}
int sim_rename(const char *a, const char *b)
{
  META("rename"); int err; Inode *pa = 0, *pb = 0; string la, lb; Inode *i = walk(cur, a, false, &err, &pa, &la); if (!i) return S_.fail(err);
  string bs = b; if (i->type == S_IFDIR) while (bs.size() > 1 && bs.back() == '/') bs.pop_back();
  Inode *j = walk(cur, bs, false, &err, &pb, &lb); if (!j && (err != ENOENT || !pb)) return S_.fail(err);
  if (!may(pa, 3) || !may(pb, 3)) return S_.fail(EACCES);
  if (la == "." || la == ".." || lb == "." || lb == "..") return S_.fail(EBUSY);
  if (i == j) return S_.ret(0);
  if (i->type == S_IFDIR) for (Inode *d = pb; d; d = d == root ? 0 : d->parent) if (d == i) return S_.fail(EINVAL);
  if (j) {
    if (j->type == S_IFDIR && i->type != S_IFDIR) return S_.fail(EISDIR); if (j->type != S_IFDIR && i->type == S_IFDIR) return S_.fail(ENOTDIR); if (j->type == S_IFDIR && !j->ents.empty()) return S_.fail(ENOTEMPTY);
    del_ent(pb, lb); j->nlink--; if (j->nlink <= 0 && j->opens <= 0) inode_unref(j);
  }
  del_ent(pa, la); add_ent(pb, lb, i); if (tracelev > 1) emit("T RENAME pid=%d %s %s", cur->pid, a, b); return S_.ret(0);
}
int sim_link(const char *a, const char *b) { META("link"); int err; Inode *i = walk(cur, a, false, &err); if (!i) return S_.fail(err); Inode *pb = 0; string lb; Inode *j = walk(cur, b, false, &err, &pb, &lb); if (j) return S_.fail(EEXIST); if (err != ENOENT || !pb) return S_.fail(err); if (i->type == S_IFDIR) return S_.fail(EPERM); i->nlink++; add_ent(pb, lb, i); return S_.ret(0); }
int sim_symlink(const char *a, const char *b) { META("symlink"); int err; Inode *pb = 0; string lb; Inode *j = walk(cur, b, false, &err, &pb, &lb); if (j) return S_.fail(EEXIST); if (err != ENOENT || !pb) return S_.fail(err); if (!may(pb, 3)) return S_.fail(EACCES); Inode *i = mkinode(S_IFLNK, 0777); i->data = a; add_ent(pb, lb, i); return S_.ret(0); }
ssize_t sim_readlink(const char *p, char *buf, size_t n) { META("readlink"); int err; Inode *i = walk(cur, p, false, &err); if (!i) return S_.fail(err); if (i->type != S_IFLNK) return S_.fail(EINVAL); size_t k = std::min(n, i->data.size()); memcpy(buf, i->data.data(), k); return S_.ret(k); }
int sim_chdir(const char *p) { META("chdir"); int err; Inode *i = walk(cur, p, true, &err); if (!i) return S_.fail(err); if (i->type != S_IFDIR) return S_.fail(ENOTDIR); if (!may(i, 1)) return S_.fail(EACCES); cur->cwd = i; return S_.ret(0); }
void *sim_malloc(size_t n);
char *sim_getcwd(char *buf, size_t n)
{
  Sys S_("getcwd"); u64 v = decide(ERR_META); if (v) { S_.fail(EACCES); return 0; }
  if (cur->cwd != root && cur->cwd->nlink == 0) { S_.fail(ENOENT); return 0; }
  string s = path_of(cur->cwd); if (!buf) { if (n == 0) n = s.size() + 1; buf = (char *)sim_malloc(n); }
  if (s.size() + 1 > n) { S_.fail(ERANGE); return 0; } memcpy(buf, s.c_str(), s.size() + 1); errno = S_.e; return buf;
}
char *sim_realpath(const char *p, char *buf)
{
  Sys S_("realpath"); u64 v = decide(ERR_META); if (v) { S_.fail(pick_err(v, { EIO, EACCES })); return 0; }
  int err; Inode *i = walk(cur, p, true, &err); if (!i) { S_.fail(err); return 0; }
  string s; if (i->type == S_IFDIR) s = path_of(i); else { Inode *par = 0; string last; walk(cur, p, true, &err, &par, &last); s = path_of(par); if (s != "/") s += "/"; s += last; }
  if (!buf) buf = (char *)sim_malloc(4096); if (s.size() >= 4096) { S_.fail(ENAMETOOLONG); return 0; } memcpy(buf, s.c_str(), s.size() + 1); errno = S_.e; return buf;
}
char *sim___realpath_chk(const char *p, char *buf, size_t) { return sim_realpath(p, buf); }
int sim_utime(const char *p, const struct utimbuf *t) { META("utime"); int err; Inode *i = walk(cur, p, true, &err); if (!i) return S_.fail(err); if (t) { i->mtime = (i64)t->modtime * 1000000000LL; i->atime = (i64)t->actime * 1000000000LL; } else i->mtime = i->atime = wall(); return S_.ret(0); }
int sim_utimes(const char *p, const struct timeval *t) { META("utimes"); int err; Inode *i = walk(cur, p, true, &err); if (!i) return S_.fail(err); if (t) { i->atime = t[0].tv_sec * 1000000000LL + t[0].tv_usec * 1000; i->mtime = t[1].tv_sec * 1000000000LL + t[1].tv_usec * 1000; } else i->mtime = i->atime = wall(); return S_.ret(0); }

/* directories: a DIR is a snapshot reader over the inode */
struct SimDir { int magic; int fd; Inode *ino; vector<string> *order; size_t pos; struct dirent de; Proc *owner; };
static std::set<SimDir *> open_dirs;
static void dir_fill(SimDir *d) { d->order->clear(); d->order->push_back("."); d->order->push_back(".."); for (auto &e : d->ino->ents) d->order->push_back(e.first);
  u64 v = decide(SHUF); if (v && d->order->size() > 1) for (size_t i = d->order->size() - 1; i > 0; i--) std::swap((*d->order)[i], (*d->order)[hash4(v, i, 1, 2) % (i + 1)]); d->pos = 0; }
void *sim_opendir(const char *p)
{
  Sys S_("opendir"); u64 v = decide(ERR_META); if (v) { probes["err_meta"]++; S_.fail(pick_err(v, { EMFILE, EACCES, ENOMEM })); return 0; }
  int err; Inode *i = walk(cur, p, true, &err); if (!i) { S_.fail(err); return 0; } if (i->type != S_IFDIR) { S_.fail(ENOTDIR); return 0; } if (!may(i, 4)) { S_.fail(EACCES); return 0; }
  OFD *o = mkofd(OFD::DIR_); o->ino = i; i->opens++; int k = newfd(o); if (k < 0) { o->refs = 1; ofd_unref(o); S_.fail(EMFILE); return 0; }
  SimDir *d = new SimDir; d->magic = 0xd1d1; d->fd = k; d->ino = i; d->order = new vector<string>; d->owner = cur; dir_fill(d); open_dirs.insert(d); errno = S_.e; return d;
}
struct dirent *sim_readdir(void *x)
{
  Sys S_("readdir"); SimDir *d = (SimDir *)x; if (!open_dirs.count(d)) { os_violation("memory", "readdir on a closed directory"); S_.fail(EBADF); return 0; }
  u64 v = decide(ERR_R); if (v) { S_.fail(EIO); return 0; }
  /* entries removed since the snapshot may or may not be seen */
  while (d->pos < d->order->size()) { const string &nm = (*d->order)[d->pos++]; if (nm != "." && nm != ".." && !lookup(d->ino, nm)) continue;
    memset(&d->de, 0, sizeof d->de); d->de.d_ino = 1; strncpy(d->de.d_name, nm.c_str(), 255); errno = S_.e; return &d->de; }
  errno = S_.e; return 0;
}
struct dirent *sim_readdir64(void *x) { return sim_readdir(x); }
void sim_rewinddir(void *x) { Sys S_("rewinddir"); SimDir *d = (SimDir *)x; if (!open_dirs.count(d)) { os_violation("memory", "rewinddir on a closed directory"); return; } dir_fill(d); errno = S_.e; }
int sim_closedir(void *x)
{
  Sys S_("closedir"); SimDir *d = (SimDir *)x; if (!open_dirs.count(d)) { os_violation("memory", "closedir on a closed directory"); return S_.fail(EBADF); }
  if (cur->fd[d->fd]) { OFD *o = cur->fd[d->fd]; cur->fd[d->fd] = 0; ofd_unref(o); } open_dirs.erase(d); delete d->order; delete d; return S_.ret(0);
}

static int tmpn = 0;
char *sim_tmpnam(char *buf)
{
  Sys S_("tmpnam"); if (C.o("tmpfail", 0)) { u64 v = decide(ERR_META); if (v) { probes["err_tmpnam"]++; errno = EEXIST; return 0; } } static char b2[64]; if (!buf) buf = b2;
  for (;;) { snprintf(buf, 20, "/tmp/file%06llx", (unsigned long long)(hash4(C.seed & 0, 7, 8, ++tmpn) & 0xffffff)); if (!get_path(buf)) break; }
  errno = S_.e; return buf;
}
int sim_mkstemp(char *t) { size_t n = strlen(t); for (;;) { char b[8]; snprintf(b, 7, "%06llx", (unsigned long long)(hash4(1, 7, 9, ++tmpn) & 0xffffff)); memcpy(t + n - 6, b, 6); int fd = sim_open(t, O_CREAT | O_EXCL | O_RDWR, 0600); if (fd >= 0 || errno != EEXIST) return fd; } }
int sim_mkstemp64(char *t) { return sim_mkstemp(t); }

/* --- time --- */
time_t sim_time(time_t *t) { Sys S_("time"); i64 w = wall(); i64 s = w >= 0 ? w / 1000000000 : -((-w + 999999999) / 1000000000); if (t) *t = s; errno = S_.e; return s; }
int sim_gettimeofday(struct timeval *tv, void *) { Sys S_("gettimeofday"); i64 w = wall(); i64 s = w / 1000000000, r = w % 1000000000; if (r < 0) { r += 1000000000; s--; } tv->tv_sec = s; tv->tv_usec = r / 1000; if (tracelev || C.o("logtime", 0)) emit("TOD %d %lld %lld", cur->pid, (long long)s, (long long)(r / 1000)); return S_.ret(0); }
int sim_clock_gettime(clockid_t id, struct timespec *ts) { Sys S_("clock_gettime"); i64 w = id == CLOCK_REALTIME ? wall() : (i64)now_ns; i64 s = w / 1000000000, r = w % 1000000000; if (r < 0) { r += 1000000000; s--; } ts->tv_sec = s; ts->tv_nsec = r; return S_.ret(0); }
static void fill_ru(struct rusage *ru) { memset(ru, 0, sizeof *ru); u64 c = cur->cpu + (u64)C.o("cpubase", 0); u64 sys = (u64)((unsigned __int128)c * (u64)C.o("sysshare", 25) / 100), usr = c - sys; ru->ru_utime.tv_sec = usr / 1000000000; ru->ru_utime.tv_usec = usr / 1000 % 1000000; ru->ru_stime.tv_sec = sys / 1000000000; ru->ru_stime.tv_usec = sys / 1000 % 1000000; }
int sim_getrusage(int who, struct rusage *ru) { Sys S_("getrusage"); fill_ru(ru); if (C.o("logtime", 0)) emit("RU %d %lld %lld %lld %lld", cur->pid, (long long)ru->ru_utime.tv_sec, (long long)ru->ru_utime.tv_usec, (long long)ru->ru_stime.tv_sec, (long long)ru->ru_stime.tv_usec); return S_.ret(0); }
clock_t sim_times(struct tms *t) { Sys S_("times"); memset(t, 0, sizeof *t); u64 sys = (u64)((unsigned __int128)cur->cpu * (u64)C.o("sysshare", 25) / 100); t->tms_utime = (cur->cpu - sys) / 10000000; t->tms_stime = sys / 10000000; errno = S_.e; return now_ns / 10000000; }
clock_t sim_clock(void) { return cur->cpu / 1000; }
int sim_nanosleep(const struct timespec *a, struct timespec *b)
{
  Sys S_("sleep"); if (a->tv_nsec < 0 || a->tv_nsec >= 1000000000 || a->tv_sec < 0) return S_.fail(EINVAL);
  u64 end = now_ns + (u64)a->tv_sec * 1000000000ULL + a->tv_nsec; u64 v; if (a->tv_sec > 0x7fffffff) end = ~0ULL - 1;
  if ((v = decide(EINTR_)) && end > now_ns) { probes["eintr_sleep"]++; u64 left = end - now_ns; now_ns += v % (left ? left : 1); left = end - now_ns; if (b) { b->tv_sec = left / 1000000000; b->tv_nsec = left % 1000000000; } return S_.fail(EINTR); }
  int w = wait_for(0, 0, end);
  if (w == WINTR) { u64 left = end > now_ns ? end - now_ns : 0; if (b) { b->tv_sec = left / 1000000000; b->tv_nsec = left % 1000000000; } deliver_signals(); return S_.fail(EINTR); }
  return S_.ret(0);
}
int sim_clock_nanosleep(clockid_t, int flags, const struct timespec *a, struct timespec *b) { return sim_nanosleep(a, b) < 0 ? errno : 0; }
unsigned sim_sleep(unsigned s) { struct timespec a = { (time_t)s, 0 }, b = { 0, 0 }; int e = errno; if (sim_nanosleep(&a, &b) < 0) return b.tv_sec + (b.tv_nsec ? 1 : 0); errno = e; return 0; }
int sim_usleep(useconds_t u) { struct timespec a = { (time_t)(u / 1000000), (long)(u % 1000000) * 1000 }; return sim_nanosleep(&a, 0); }
unsigned sim_alarm(unsigned s) { cur->alarm_at = s ? now_ns + s * 1000000000ULL : 0; return 0; }

/* --- signals and processes --- */
int sim_sigaction(int n, const struct sigaction *a, struct sigaction *o)
{
  Sys S_("sigaction"); if (n < 1 || n > 64 || n == SIGKILL || n == SIGSTOP) return S_.fail(EINVAL);
  if (o) { memset(o, 0, sizeof *o); o->sa_handler = cur->sig[n].h; o->sa_flags = cur->sig[n].flags; }
  if (a) { cur->sig[n].h = a->sa_handler; cur->sig[n].flags = a->sa_flags; u64 m = 0; for (int i = 1; i < 64; i++) if (sigismember(&a->sa_mask, i) == 1) m |= 1ULL << i; cur->sig[n].mask = m; }
  return S_.ret(0);
}
typedef void (*sh_t)(int);
sh_t sim_signal(int n, sh_t h) { Sys S_("signal"); if (n < 1 || n > 64) { S_.fail(EINVAL); return SIG_ERR; } sh_t o = cur->sig[n].h; cur->sig[n].h = h; cur->sig[n].flags = SA_RESTART; cur->sig[n].mask = 0; errno = S_.e; return o; }
sh_t sim___sysv_signal(int n, sh_t h) { sh_t o = sim_signal(n, h); cur->sig[n].flags = SA_RESETHAND | SA_NODEFER; return o; }
int sim_sigprocmask(int how, const sigset_t *s, sigset_t *o)
{
  Sys S_("sigprocmask"); if (o) { sigemptyset(o); for (int i = 1; i < 64; i++) if (cur->mask >> i & 1) sigaddset(o, i); }
  if (s) { u64 m = 0; for (int i = 1; i < 64; i++) if (sigismember(s, i) == 1) m |= 1ULL << i; if (how == SIG_BLOCK) cur->mask |= m; else if (how == SIG_UNBLOCK) cur->mask &= ~m; else cur->mask = m; }
  deliver_signals(); return S_.ret(0);
}
int sim_pthread_sigmask(int how, const sigset_t *s, sigset_t *o) { return sim_sigprocmask(how, s, o); }
int sim_kill(int pid, int sig)
{
  Sys S_("kill"); if (sig < 0 || sig > 64) return S_.fail(EINVAL); Proc *p = find_pid(pid); if (!p) return S_.fail(ESRCH);
  emit("KILL %d %d %d", cur->pid, pid, sig);
  if (sig && p->st != ZOMBIE) {
    if (sig == SIGKILL) { if (p == cur) die(SIGKILL); if (p->st == FROZEN) { post_signal(p, SIGKILL); return S_.ret(0); } Proc *me = cur; cur = p; proc_exit(p, SIGKILL); cur = me; }
    else post_signal(p, sig);
  }
  deliver_signals(); return S_.ret(0);
}
int sim_raise(int s) { return sim_kill(cur->pid, s); }
int sim_getpid(void) { return cur->pid; }
int sim_getppid(void) { return cur->ppid; }
unsigned sim_getuid(void) { return 1000; } unsigned sim_geteuid(void) { return 1000; } unsigned sim_getgid(void) { return 1000; } unsigned sim_getegid(void) { return 1000; }
struct passwd *sim_getpwuid(uid_t) { return 0; }
void sim_flush_stdio(void) { Proc *p = cur; string b = p->sobuf; p->sobuf.clear(); size_t k = b.size(), d = 0; while (d < k) { long r = do_write(1, b.data() + d, k - d, 0, false); if (r == -EINTR) continue; if (r <= 0) break; d += r; } }
void sim_exit(int st) { if (!cur->sobuf.empty()) sim_flush_stdio(); if (tracelev) emit("T EXIT %d %d", cur->pid, st); die((st & 255) << 8); }
void sim__exit(int st) { die((st & 255) << 8); }
void sim__Exit(int st) { die((st & 255) << 8); }
void sim_abort(void) { emit("ABORT %d", cur->pid); die(SIGABRT); }
void sim___assert_fail(const char *a, const char *f, unsigned l, const char *fn) { emit("ASSERT %d %s", cur->pid, a); die(SIGABRT); }
int sim_atexit(void (*)(void)) { return 0; }
int sim_fork(void)
{
  Sys S_("fork"); u64 v; if ((v = decide(ERR_PROC))) { probes["err_fork"]++; return S_.fail(pick_err(v, { EAGAIN, ENOMEM })); }
  if (cur->vparent) return S_.fail(EAGAIN);
  return os_fork();
}
int sim_vfork(void) { return sim_fork(); }
static int do_exec(const char *path, char *const *argv, char *const *envp)
{
  Proc *p = cur; int e;
  {
    vector<string> av, ev_; for (; argv && *argv; argv++) av.push_back(*argv); for (; envp && *envp; envp++) ev_.push_back(*envp);
    int onode = p->node; bool shared = p->vparent != 0;
    /* an own node is given up before a new one is sought */
    Proc tmp; tmp.cwd = p->cwd; (void)tmp;
    p->node = -1; NodeCopy *on = onode >= 0 ? &nodes[onode] : 0; if (on && !shared) { on->busy = false; on->owner = 0; }
    e = load_program(p, path, av, ev_);
    if (e) { p->node = onode; if (on && !shared) { on->busy = true; on->owner = p; } }
    else if (shared) { Proc *par = p->vparent; p->vparent = 0; p->stackslot = -1; restore_image(par); }
    else { stack_put(p); }
  }
  if (e) return e;
  reset_for_exec(p); start_coroutine(p);
  setcontext(&sched_ctx); abort();
}
int sim_execve(const char *path, char *const *argv, char *const *envp)
{
  Sys S_("execve"); u64 v = decide(ERR_PROC); if (v) { probes["err_exec"]++; return S_.fail(pick_err(v, { ENOMEM, E2BIG, EIO })); }
  int e = do_exec(path, argv, envp); return S_.fail(e);
}
int sim_execv(const char *path, char *const *argv) { static char *ev_[256]; int i = 0; for (auto &s : cur->env) if (i < 255) ev_[i++] = (char *)s.c_str(); ev_[i] = 0; return sim_execve(path, argv, ev_); }
int sim_execvp(const char *f, char *const *argv)
{
  if (strchr(f, '/')) return sim_execv(f, argv);
  const char *pp = "/bin"; for (auto &s : cur->env) if (s.compare(0, 5, "PATH=") == 0) pp = s.c_str() + 5;
  static char b[4096]; while (*pp) { const char *q = pp; while (*q && *q != ':') q++; snprintf(b, sizeof b, "%.*s/%s", (int)(q - pp), pp, f); if (get_path(b)) return sim_execv(b, argv); pp = *q ? q + 1 : q; }
  errno = ENOENT; return -1;
}
struct WArg { int pid; Proc *me; Proc *found; };
static Proc *find_zombie(Proc *me, int pid, bool *any) { *any = false; Proc *z = 0; for (Proc *p : procs) if (p->ppid == me->pid && (pid <= 0 || p->pid == pid) && p->st != DEAD) { *any = true; if (p->st == ZOMBIE && !z) z = p; } return z; }
int sim_waitpid(int pid, int *st, int opt)
{
  Sys S_("waitpid"); bool any; if (pid < -1) pid = -1; 
  u64 v = decide(EINTR_); if (v) { probes["eintr_wait"]++; return S_.fail(EINTR); }
  static WArg wa[64]; WArg *w = &wa[cur->pid & 63]; w->pid = pid; w->me = cur;
  for (;;) {
    Proc *z = find_zombie(cur, pid, &any);
    if (!any) return S_.fail(ECHILD);
    if (z) { if (st) *st = z->status; z->st = DEAD; emit("REAP %d %d", cur->pid, z->pid); return S_.ret(z->pid); }
    if (opt & WNOHANG) return S_.ret(0);
    int r = wait_for([](void *a) -> bool { WArg *w = (WArg *)a; bool any; Proc *z = find_zombie(w->me, w->pid, &any); return z || !any; }, w, ~0ULL);
    if (r == WINTR) { deliver_signals(); return S_.fail(EINTR); }
  }
}
int sim_wait(int *st) { return sim_waitpid(-1, st, 0); }
int sim_wait4(int pid, int *st, int opt, struct rusage *) { return sim_waitpid(pid, st, opt); }
int sim_system(const char *cmd)
{
  if (!cmd) return 1;
  Proc *ch = 0; Proc *me = cur;
  {
    Sys S_("system"); u64 v = decide(ERR_PROC); if (v) { probes["err_system"]++; return S_.fail(pick_err(v, { EAGAIN, ENOMEM })); }
  }
  {
    int e = spawn(me, "/bin/sh", { "sh", "-c", cmd }, me->env, &ch);
    if (e) return 127 << 8;
    ch->ppid = me->pid;
  }
  /* SIGINT and SIGQUIT are ignored, SIGCHLD blocked while waiting */
  auto si = me->sig[SIGINT]; auto sq = me->sig[SIGQUIT]; me->sig[SIGINT].h = SIG_IGN; me->sig[SIGQUIT].h = SIG_IGN; u64 om = me->mask; me->mask |= 1ULL << SIGCHLD;
  ch->sig[SIGINT] = si; if (si.h != SIG_IGN) ch->sig[SIGINT].h = SIG_DFL;
  static WArg wa[64]; WArg *w = &wa[me->pid & 63]; w->pid = ch->pid; w->me = me; int st = 0;
  for (;;) { bool any; Proc *z = find_zombie(me, w->pid, &any); if (z) { st = z->status; z->st = DEAD; break; } wait_for([](void *a) -> bool { WArg *w = (WArg *)a; bool any; Proc *z = find_zombie(w->me, w->pid, &any); return z || !any; }, w, ~0ULL); if (sig_waiting(me)) deliver_signals(); }
  me->sig[SIGINT] = si; me->sig[SIGQUIT] = sq; me->mask = om; me->pend &= ~(1ULL << SIGCHLD);
  return st;
}
char *sim_getenv(const char *n) { size_t k = strlen(n); for (auto &s : cur->env) if (s.size() > k && s.compare(0, k, n) == 0 && s[k] == '=') return (char *)s.c_str() + k + 1; return 0; }
char *sim_secure_getenv(const char *n) { return sim_getenv(n); }
int sim_uname(struct utsname *u) { META("uname"); memset(u, 0, sizeof *u); strcpy(u->sysname, "Linux"); strcpy(u->release, "6.1.0-sim"); strcpy(u->machine, "x86_64"); strcpy(u->nodename, "sim"); strcpy(u->version, "1"); return S_.ret(0); }
long sim_sysconf(int n) { if (n == _SC_PAGESIZE) return 4096; if (n == _SC_OPEN_MAX) return MAXFD; return -1; }
int sim_getpagesize(void) { return 4096; }

/* --- allocation --- */
static void *do_malloc(size_t n, int lib)
{
  Proc *p = cur; if (!p) return malloc(n);
  if (p->node < 0) { fprintf(stderr, "sim: malloc in a stub\n"); abort(); }
  u64 v = decide(lib ? LMALLOC : MALLOC);
  if (v) { probes[lib ? "lib_malloc_refused" : "malloc_refused"]++; errno = ENOMEM; return 0; }
  if (n == 0) n = 1;
  int e = errno; void *r = arena_alloc(p, n, lib); errno = r ? e : ENOMEM; if (!r) probes["memory_limit_hit"]++;
  if (tracelev > 3) emit("T MALLOC pid=%d %zu -> %p", p->pid, n, r);
  return r;
}
static void *do_realloc(void *q, size_t n, int lib)
{
  if (!q) return do_malloc(n, lib);
  Arena *a = arena_of(cur); auto it = a->live.find((uintptr_t)q);
  if (it == a->live.end()) { os_violation("memory", a->freed.count((uintptr_t)q) ? "realloc of a freed block" : "realloc of an address that was not allocated"); return 0; }
  size_t old = it->second.size;
  void *r = do_malloc(n, lib); if (!r) return 0;
  memcpy(r, q, std::min(old, n)); arena_free(cur, q); return r;
}
void *sim_malloc(size_t n) { return do_malloc(n, 0); }
void *sim_calloc(size_t a, size_t b) { if (b && a > (size_t)-1 / b) return 0; void *r = do_malloc(a * b, 0); if (r) memset(r, 0, a * b); return r; }
void *sim_realloc(void *q, size_t n) { return do_realloc(q, n, 0); }
void sim_free(void *q) { int e = errno; arena_free(cur, q); errno = e; }
void *sim_lmalloc(size_t n) { return do_malloc(n, 1); }
void *sim_lcalloc(size_t a, size_t b) { if (b && a > (size_t)-1 / b) return 0; void *r = do_malloc(a * b, 1); if (r) memset(r, 0, a * b); return r; }
void *sim_lrealloc(void *q, size_t n) { return do_realloc(q, n, 1); }
void sim_lfree(void *q) { sim_free(q); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)do_malloc(n, 0); if (r) memcpy(r, s, n); return r; }
char *sim_lstrdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)do_malloc(n, 1); if (r) memcpy(r, s, n); return r; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = (char *)do_malloc(n + 1, 0); if (r) { memcpy(r, s, n); r[n] = 0; } return r; }
void *sim_memalign(size_t al, size_t n) { return do_malloc(n, 0); }
void *sim_aligned_alloc(size_t al, size_t n) { return do_malloc(n, 0); }
int sim_posix_memalign(void **r, size_t al, size_t n) { *r = do_malloc(n, 0); return *r ? 0 : ENOMEM; }
void *sim_reallocarray(void *q, size_t a, size_t b) { return do_realloc(q, a * b, 0); }

/* --- stdio, as far as the runtime uses it --- */
static char simfiles[3];
void *sim_stdin = &simfiles[0], *sim_stdout = &simfiles[1], *sim_stderr = &simfiles[2];
static int stdio_out(void *f, const char *b, size_t n)
{
  if (f == sim_stdout) { cur->sobuf.append(b, n); return (int)n; }
  size_t d = 0; while (d < n) { Sys S_("write"); long r = do_write(2, b + d, n - d, 0, false); if (r == -EINTR) continue; if (r <= 0) return -1; d += r; }
  return (int)n;
}
int sim_vfprintf(void *f, const char *fmt, va_list ap) { vector<char> b(16384); int n = vsnprintf(b.data(), b.size(), fmt, ap); if (n > (int)b.size() - 1) n = b.size() - 1; return stdio_out(f, b.data(), n); }
int sim_fprintf(void *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(f, fmt, ap); va_end(ap); return r; }
int sim_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(sim_stdout, fmt, ap); va_end(ap); return r; }
int sim_vprintf(const char *fmt, va_list ap) { return sim_vfprintf(sim_stdout, fmt, ap); }
int sim___fprintf_chk(void *f, int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(f, fmt, ap); va_end(ap); return r; }
int sim___vfprintf_chk(void *f, int, const char *fmt, va_list ap) { return sim_vfprintf(f, fmt, ap); }
int sim___printf_chk(int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(sim_stdout, fmt, ap); va_end(ap); return r; }
int sim_fputs(const char *s, void *f) { return stdio_out(f, s, strlen(s)); }
int sim_puts(const char *s) { stdio_out(sim_stdout, s, strlen(s)); return stdio_out(sim_stdout, "\n", 1); }
int sim_fputc(int c, void *f) { char b = c; return stdio_out(f, &b, 1); }
int sim_putc(int c, void *f) { return sim_fputc(c, f); }
int sim_putchar(int c) { return sim_fputc(c, sim_stdout); }
size_t sim_fwrite(const void *b, size_t s, size_t n, void *f) { return stdio_out(f, (const char *)b, s * n) < 0 ? 0 : n; }
int sim_fflush(void *f) { if (f == sim_stdout || !f) sim_flush_stdio(); return 0; }
void *sim_fopen(const char *, const char *) { errno = ENOENT; return 0; }
void *sim_fopen64(const char *, const char *) { errno = ENOENT; return 0; }
void *sim_fdopen(int, const char *) { errno = EINVAL; return 0; }
int sim_fclose(void *) { return 0; }
void sim_perror(const char *s) { int e = errno; static char b[512]; snprintf(b, sizeof b, "%s: %s\n", s, strerror(e)); stdio_out(sim_stderr, b, strlen(b)); }
int sim_getc(void *) { return -1; } int sim_fgetc(void *) { return -1; } char *sim_fgets(char *, int, void *) { return 0; } size_t sim_fread(void *, size_t, size_t, void *) { return 0; }
int sim_ferror(void *) { return 0; } int sim_feof(void *) { return 1; } int sim_fileno(void *f) { return f == sim_stdin ? 0 : f == sim_stdout ? 1 : 2; }

/* --- dynamic linking --- */
static char libhandles[64][16] __attribute__((aligned(16)));
static char simlibhandle[16] __attribute__((aligned(16)));
void *sim_dlopen(const char *name, int flags)
{
  Sys S_("dlopen"); const char *b = strrchr(name, '/'); b = b ? b + 1 : name;
  ev(0xd1); u64 v = strcmp(b, "libsim.so") ? decide(ERR_DL) : 0;
  int k = v ? -1 : nodes[cur->node].api->liblookup(b);
  if (tracelev > 1) emit("T DLOPEN %s flags=%d -> %d", name, flags, k);
  if (k < 0) { probes["dlopen_failed"]++; cur->dlerr = string(name) + ": cannot open shared object file: " + (v ? "Cannot allocate memory" : "No such file or directory"); cur->has_dlerr = true; return 0; }
  if (k == 40 || k == 41) { if (cur->dlrefs[k] == 0) ((void (*)(void))nodes[cur->node].api->libsym(k, "_init"))(); cur->dlflags = string(b) + " " + ((flags & 3) == RTLD_NOW ? "now" : (flags & 3) == RTLD_LAZY ? "lazy" : "?") + (flags & RTLD_GLOBAL ? " global" : flags & ~(3 | RTLD_GLOBAL) ? " ?" : " local"); }
  cur->dlrefs[k]++; return k == 1000 ? simlibhandle : libhandles[k];
}
static int lib_of(void *h) { if (h == simlibhandle) return 1000; i64 d = (char *)h - libhandles[0]; if (d >= 0 && d < (i64)sizeof libhandles && d % 16 == 0) return (int)(d / 16); return -1; }
void *sim_dlsym(void *h, const char *s)
{
  Sys S_("dlsym"); int k = lib_of(h); u64 v = k != 1000 ? decide(ERR_DL) : 0;
  if (k < 0 || cur->dlrefs[k] <= 0) { os_violation("dl", "dlsym on a handle that is not open"); return 0; }
  void *r = v ? 0 : nodes[cur->node].api->libsym(k, s);
  if (!r) { probes["dlsym_failed"]++; cur->dlerr = string("undefined symbol: ") + s; cur->has_dlerr = true; } 
  else errno = S_.e;
  return r;
}
int sim_dlclose(void *h) { Sys S_("dlclose"); int k = lib_of(h); if (k < 0 || cur->dlrefs[k] <= 0) { os_violation("dl", "dlclose of a handle that is not open"); return -1; } cur->dlrefs[k]--; return S_.ret(0); }
void os_dl_use(int lib) { if (cur->dlrefs[lib] <= 0) os_violation("dl", "a function of a library that is not loaded was called"); }
void os_dl_stale(void) { cur->dlerr = "stale error"; cur->has_dlerr = true; }
char *sim_dlerror(void) { static char b[512]; if (!cur->has_dlerr) return 0; cur->has_dlerr = false; snprintf(b, sizeof b, "%s", cur->dlerr.c_str()); return b; }
} /* extern "C" */

/* ------------------------------------------------------------------ */
/* sockets */

static map<string, Sock *> bound;
static vector<Sock *> socks;
static Sock *mksock(int dom, int type) { static int id = 0; Sock *s = new Sock; s->dom = dom; s->type = type; s->id = ++id; s->refs = 1; s->cap = (size_t)C.o("sockcap", 8192); socks.push_back(s); return s; }
static size_t sock_avail(Sock *s) { size_t n = 0; for (auto &c : s->in) { if (c.at > now_ns) break; n += c.data.size(); } return n; }
static bool sock_eof(Sock *s) { return (s->peer_closed && now_ns >= s->eof_at && s->in.empty()) || s->rd_shut; }
static bool sock_readable(Sock *s)
{
  if (s->listening) return !s->pend.empty() && s->pendat.front() <= now_ns;
  if (!s->in.empty() && s->in.front().at <= now_ns) return true;
  if (s->type == SOCK_STREAM) return sock_eof(s) || s->reset || (!s->connected && !s->peer_closed);
  return s->rd_shut;
}
static bool sock_writable(Sock *s)
{
  if (s->listening) return false;
  if (s->type == SOCK_STREAM) {
    if (!s->peer) return true;                    /* an error is reported at once */
    if (s->wr_shut || s->peer->rd_shut) return true;
    return s->peer->inq < s->peer->cap;
  }
  return true;
}
static u64 next_net_event()
{
  u64 t = ~0ULL;
  for (Sock *s : socks) {
    for (auto &c : s->in) if (c.at > now_ns && c.at < t) t = c.at;
    for (u64 x : s->pendat) if (x > now_ns && x < t) t = x;
    if (s->peer_closed && s->eof_at > now_ns && s->eof_at < t) t = s->eof_at;
  }
  return t;
}
static u64 net_at(Sock *to, bool ordered)
{
  u64 d = (u64)C.o("netlat", 20000); u64 v = decide(NETDELAY);
  if (v) { probes["net_delay"]++; u64 hi = (u64)C.o("netdelaymax", 50000000); d += v % hi; }
  u64 at = now_ns + d;
  if (ordered) { if (at < to->lastat) at = to->lastat; to->lastat = at; }
  return at;
}
static void sock_sendeof(Sock *s)
{
  if (s->peer && !s->peer->peer_closed) { s->peer->peer_closed = true; s->peer->eof_at = net_at(s->peer, true); }
}
static void sock_close(Sock *s)
{
  if (s->type == SOCK_STREAM) {
    bool unread = !s->in.empty();
    sock_sendeof(s);
    if (s->peer) { if (unread && s->dom == AF_INET) { s->peer->reset = true; } s->peer->peer = 0; s->peer = 0; }
    for (Sock *q : s->pend) { sock_close(q); }
    s->pend.clear(); s->pendat.clear();
  }
  if (s->bound) { auto i = bound.find(s->addr); if (i != bound.end() && i->second == s) bound.erase(i); }
  s->in.clear(); s->inq = 0; s->connected = false;
  for (size_t i = 0; i < socks.size(); i++) if (socks[i] == s) { socks.erase(socks.begin() + i); break; }
}
static bool pr_sock_readable(void *a) { return sock_readable((Sock *)a); }
static bool pr_sock_writable(void *a) { return sock_writable((Sock *)a); }

static long sock_recv(OFD *o, char *buf, size_t n, int flags, string *from)
{
  Sock *s = o->sock; bool nb = (o->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT); u64 v;
  if (flags & MSG_OOB) return -EINVAL;
  if (s->listening) return -ENOTCONN;
  if (s->type == SOCK_STREAM && !s->connected && !s->wasconn) return s->dom == AF_UNIX ? -EINVAL : -ENOTCONN;
  for (;;) {
    if (!s->in.empty() && s->in.front().at <= now_ns && !s->rd_shut) break;
    if (s->type == SOCK_STREAM) { if (s->reset) { s->reset = false; probes["connection_reset"]++; return -ECONNRESET; } if (sock_eof(s)) return 0; }
    else if (s->rd_shut) return 0;
    if (nb) return -EAGAIN;
    probes["recv_blocked"]++;
    int w = wait_for(pr_sock_readable, s, ~0ULL);
    if (w == WINTR) { probes["recv_interrupted"]++; deliver_signals(); return -EINTR; }
  }
  if (s->type == SOCK_DGRAM) {
    Chunk c = s->in.front(); size_t k = std::min(n, c.data.size()); memcpy(buf, c.data.data(), k); if (from) *from = c.from;
    if (k < c.data.size()) probes["datagram_truncated"]++;
    if (!(flags & MSG_PEEK)) { s->inq -= c.data.size(); s->in.pop_front(); }
    return k;
  }
  size_t av = sock_avail(s), k = std::min(n, av);
  if (k > 1 && (v = decide(NETCHUNK))) { probes["short_recv"]++; k = 1 + v % (k - 1); }
  size_t d = 0; if (from) *from = s->dom == AF_UNIX ? s->in.front().from : string();
  size_t ci = 0, off = 0;
  while (d < k) { Chunk &c = s->in[ci]; size_t m = std::min(k - d, c.data.size() - off); memcpy(buf + d, c.data.data() + off, m); d += m; ci++; off = 0; }
  if (!(flags & MSG_PEEK)) {
    size_t left = k; while (left) { Chunk &c = s->in.front(); if (c.data.size() <= left) { left -= c.data.size(); s->in.pop_front(); } else { c.data.erase(0, left); left = 0; } }
    s->inq -= k;
  }
  return k;
}
static long sock_send(OFD *o, const char *buf, size_t n, int flags, const string *to)
{
  Sock *s = o->sock; bool nb = (o->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT); u64 v;
  if (flags & MSG_OOB && s->dom == AF_UNIX) return -EOPNOTSUPP;
  if (s->type == SOCK_DGRAM) {
    if (to == 0 && s->dest.empty()) return s->dom == AF_INET ? -EDESTADDRREQ : -ENOTCONN;
    if (n > (size_t)C.o("dgrammax", 65507)) return -EMSGSIZE;
    string dst = to ? *to : s->dest; auto it = bound.find(dst);
    if (it == bound.end() || it->second->type != SOCK_DGRAM) {
      if (s->dom == AF_UNIX) { return dst.size() > 2 && get_path(dst.substr(2)) ? -ECONNREFUSED : -ENOENT; }
      return n;              /* into the void */
    }
    if (s->dom == AF_INET && !s->bound) { static int eph = 40000; s->bound = true; s->addr = "I:127.0.0.1:" + std::to_string(eph++); bound[s->addr] = s; }
    Sock *r = it->second;
    if (r->in.size() >= (size_t)C.o("dgramq", 64)) { if (s->dom == AF_INET) { probes["datagram_overrun"]++; return n; } if (nb) return -EAGAIN; if (r == s) return -EAGAIN;
      while (r->in.size() >= (size_t)C.o("dgramq", 64)) { int w = wait_for(0, 0, now_ns + 1000000); if (w == WINTR) { deliver_signals(); return -EINTR; } if (stop_run) break; } }
    if (s->dom == AF_INET && (v = decide(NETLOSS))) { probes["net_loss"]++; return n; }
    int copies = 1; if (s->dom == AF_INET && decide(NETDUP)) { probes["net_dup"]++; copies = 2; }
    while (copies--) {
      Chunk c; c.data.assign(buf, n); c.from = s->bound ? s->addr : string(); c.at = net_at(r, s->dom == AF_UNIX);
      auto p = r->in.end(); while (p != r->in.begin() && (p - 1)->at > c.at) { --p; } if (p != r->in.end()) probes["net_reorder"]++;
      r->in.insert(p, c); r->inq += n;
    }
    return n;
  }
  if (to && s->connected && s->dom == AF_UNIX) return -EISCONN;
  if (!s->connected) { if (s->wasconn || s->wr_shut) goto broken; return s->listening || s->dom == AF_UNIX || true ? -ENOTCONN : -EPIPE; }
  {
    size_t done = 0;
    while (done < n) {
      if (!s->peer || s->wr_shut || s->peer->rd_shut) { if (done) return done; goto broken; }
      size_t room = s->peer->cap > s->peer->inq ? s->peer->cap - s->peer->inq : 0;
      if (room == 0) {
        if (nb) return done ? (long)done : -EAGAIN;
        probes["send_blocked"]++;
        int w = wait_for(pr_sock_writable, s, ~0ULL);
        if (w == WINTR) { probes["send_interrupted"]++; deliver_signals(); return done ? (long)done : -EINTR; }
        continue;
      }
      size_t k = std::min(room, n - done); bool cut = false;
      if (k > 1 && (v = decide(SHORT_W))) { probes["short_send"]++; k = 1 + v % (k - 1); cut = true; }
      size_t left = k; while (left) { size_t m = left; if (m > 1 && (v = decide(NETCHUNK))) m = 1 + v % m; Chunk c; c.data.assign(buf + done, m); c.from = s->bound ? s->addr : string(); c.at = net_at(s->peer, true); s->peer->in.push_back(c); s->peer->inq += m; done += m; left -= m; }
      if (cut) return done;
    }
    return done;
  }
broken:
  if (s->reset) { s->reset = false; return -ECONNRESET; }
  probes["epipe"]++;
  if (!(flags & MSG_NOSIGNAL)) { post_signal(cur, SIGPIPE); deliver_signals(); }
  return -EPIPE;
}
static string addr_of(const struct sockaddr *a, socklen_t n, int *err)
{
  *err = 0;
  if (n < sizeof(sa_family_t)) { *err = EINVAL; return ""; }
  if (a->sa_family == AF_UNIX) { const struct sockaddr_un *u = (const struct sockaddr_un *)a; if (n > sizeof *u) { *err = EINVAL; return ""; } size_t m = n - offsetof(struct sockaddr_un, sun_path); return "U:" + string(u->sun_path, strnlen(u->sun_path, m)); }
  if (a->sa_family == AF_INET) { if (n < sizeof(struct sockaddr_in)) { *err = EINVAL; return ""; } const struct sockaddr_in *i = (const struct sockaddr_in *)a; char b[64]; unsigned x = ntohl(i->sin_addr.s_addr); snprintf(b, sizeof b, "I:%u.%u.%u.%u:%u", x >> 24, x >> 16 & 255, x >> 8 & 255, x & 255, ntohs(i->sin_port)); return b; }
  *err = EAFNOSUPPORT; return "";
}
static void put_addr(int dom, const string &s, struct sockaddr *a, socklen_t *n)
{
  if (!a || !n) return;
  char tmp[sizeof(struct sockaddr_un)]; memset(tmp, 0, sizeof tmp); socklen_t len;
  if (s.empty()) { ((struct sockaddr *)tmp)->sa_family = dom; len = dom == AF_UNIX ? sizeof(sa_family_t) : sizeof(struct sockaddr_in); }
  else if (s[0] == 'U') { struct sockaddr_un *u = (struct sockaddr_un *)tmp; u->sun_family = AF_UNIX; string p = s.substr(2); memcpy(u->sun_path, p.data(), std::min(p.size(), sizeof u->sun_path)); len = offsetof(struct sockaddr_un, sun_path) + p.size() + 1; if (len > sizeof *u) len = sizeof *u; }
  else { struct sockaddr_in *i = (struct sockaddr_in *)tmp; i->sin_family = AF_INET; unsigned a1, b1, c1, d1, p; sscanf(s.c_str() + 2, "%u.%u.%u.%u:%u", &a1, &b1, &c1, &d1, &p); i->sin_addr.s_addr = htonl(a1 << 24 | b1 << 16 | c1 << 8 | d1); i->sin_port = htons(p); len = sizeof *i; }
  memcpy(a, tmp, std::min(len, *n)); *n = len;
}
#define SOCKFD OFD *o = getfd(fd); if (!o) return S_.fail(EBADF); if (o->t != OFD::SOCK) return S_.fail(ENOTSOCK); Sock *s = o->sock; (void)s
#define NETERR(...) { u64 v_ = decide(ERR_NET); if (v_) { probes["err_net"]++; return S_.fail(pick_err(v_, __VA_ARGS__)); } }
extern "C" {
int sim_socket(int dom, int type, int proto)
{
  Sys S_("socket"); NETERR({ EMFILE, ENFILE, ENOBUFS, EACCES });
  if (dom != AF_UNIX && dom != AF_INET) return S_.fail(EAFNOSUPPORT);
  int ty = type & 15; if (ty != SOCK_STREAM && ty != SOCK_DGRAM) return S_.fail(EINVAL);
  OFD *o = mkofd(OFD::SOCK); o->flags = O_RDWR | (type & SOCK_NONBLOCK ? O_NONBLOCK : 0); int k = newfd(o); if (k < 0) { delete o; return S_.fail(EMFILE); } o->sock = mksock(dom, ty);
  return S_.ret(k);
}
int sim_bind(int fd, const struct sockaddr *a, socklen_t n)
{
  Sys S_("bind"); SOCKFD; NETERR({ EADDRINUSE, EACCES }); int err; string ad = addr_of(a, n, &err); if (err) return S_.fail(err);
  if (s->bound) return S_.fail(EINVAL); if ((ad[0] == 'U') != (s->dom == AF_UNIX)) return S_.fail(EINVAL);
  if (ad[0] == 'U') { string p = ad.substr(2); Inode *par = 0; string last; int e2; if (walk(cur, p, true, &e2, &par, &last)) return S_.fail(EADDRINUSE); if (e2 != ENOENT || !par) return S_.fail(e2); if (!may(par, 3)) return S_.fail(EACCES); s->node = mkinode(S_IFSOCK, 0777 & ~cur->umask_); add_ent(par, last, s->node); }
  else { if (ad.size() > 2 && ad.compare(ad.size() - 2, 2, ":0") == 0) { static int eph = 50000; ad = ad.substr(0, ad.size() - 1) + std::to_string(eph++); } 
    auto i = bound.find(ad); if (i != bound.end()) return S_.fail(EADDRINUSE); }
  s->bound = true; s->addr = ad; bound[ad] = s; if (tracelev > 1) emit("T BIND %d %s", fd, esc(ad).c_str()); return S_.ret(0);
}
int sim_listen(int fd, int n) { Sys S_("listen"); SOCKFD; if (s->type != SOCK_STREAM) return S_.fail(EOPNOTSUPP); if (s->connected) return S_.fail(EINVAL); if (!s->bound) { if (s->dom == AF_UNIX) return S_.fail(EINVAL); } NETERR({ EADDRINUSE }); s->listening = true; s->backlog = n < 1 ? 1 : n > 128 ? 128 : n; return S_.ret(0); }
int sim_connect(int fd, const struct sockaddr *a, socklen_t n)
{
  Sys S_("connect"); SOCKFD; int err; string ad = addr_of(a, n, &err); if (err) return S_.fail(err);
  if (s->type == SOCK_DGRAM) { if (bound.find(ad) == bound.end() && s->dom == AF_UNIX) return S_.fail(ENOENT); s->dest = ad; return S_.ret(0); }
  if (s->connected) return S_.fail(EISCONN); if (s->listening) return S_.fail(s->dom == AF_UNIX ? EINVAL : EISCONN);
  NETERR({ ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EINTR });
  auto i = bound.find(ad);
  if (i == bound.end() || i->second->dom != s->dom) return S_.fail(s->dom == AF_UNIX && !get_path(ad.substr(2)) ? ENOENT : ECONNREFUSED);
  Sock *l = i->second; if (!l->listening || (int)l->pend.size() > l->backlog) { probes["connect_refused"]++; return S_.fail(ECONNREFUSED); }
  Sock *p = mksock(s->dom, s->type); p->peer = s; s->peer = p; p->connected = s->connected = p->wasconn = s->wasconn = true; 
  if (s->dom == AF_INET && !s->bound) { static int eph = 60000; s->bound = true; s->addr = "I:127.0.0.1:" + std::to_string(eph++); }
  p->addr = l->addr; p->dest = s->bound ? s->addr : string(); l->pend.push_back(p); l->pendat.push_back(net_at(l, true));
  return S_.ret(0);
}
int sim_accept(int fd, struct sockaddr *a, socklen_t *n)
{
  Sys S_("accept"); SOCKFD; if (s->type != SOCK_STREAM) return S_.fail(EOPNOTSUPP); if (!s->listening) return S_.fail(EINVAL);
  NETERR({ ECONNABORTED, EMFILE, ENFILE, ENOBUFS }); u64 v = decide(EINTR_); if (v) return S_.fail(EINTR);
  while (!sock_readable(s)) { if (o->flags & O_NONBLOCK) return S_.fail(EAGAIN); probes["accept_blocked"]++; int w = wait_for(pr_sock_readable, s, ~0ULL); if (w == WINTR) { deliver_signals(); return S_.fail(EINTR); } }
  OFD *x = mkofd(OFD::SOCK); x->flags = O_RDWR; int k = newfd(x); if (k < 0) { delete x; return S_.fail(EMFILE); }
  Sock *p = s->pend.front(); s->pend.pop_front(); s->pendat.pop_front(); x->sock = p; put_addr(p->dom, p->dest, a, n); return S_.ret(k);
}
int sim_accept4(int fd, struct sockaddr *a, socklen_t *n, int) { return sim_accept(fd, a, n); }
int sim_shutdown(int fd, int how)
{
  Sys S_("shutdown"); SOCKFD; if (how < 0 || how > 2) return S_.fail(EINVAL); if (s->type == SOCK_STREAM && !s->connected) return S_.fail(ENOTCONN); if (s->type == SOCK_STREAM && s->dom == AF_INET && !s->peer) return S_.fail(ENOTCONN);
  if (how == 0 || how == 2) { s->rd_shut = true; } if (how == 1 || how == 2) { s->wr_shut = true; sock_sendeof(s); } return S_.ret(0);
}
static bool badrange(const void *b, size_t n) { (void)b; (void)n; return false; }
ssize_t sim_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t al)
{
  Sys S_("send"); SOCKFD; if (badrange(b, n)) return S_.fail(EFAULT); if ((i64)n < 0) return S_.fail(EFAULT); NETERR({ ENOBUFS, ECONNRESET, ENETUNREACH });
  u64 v = decide(EINTR_); if (v) { probes["eintr_send"]++; return S_.fail(EINTR); }
  string to; int err = 0; if (a) { to = addr_of(a, al, &err); if (err) return S_.fail(err); }
  long r = sock_send(o, (const char *)b, n, fl, a ? &to : 0); io_event("SEND", fd, o, (const char *)b, r, 0); SYSRET(r);
}
ssize_t sim_send(int fd, const void *b, size_t n, int fl) { return sim_sendto(fd, b, n, fl, 0, 0); }
ssize_t sim_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *al)
{
  Sys S_("recv"); SOCKFD; NETERR({ ENOBUFS, ECONNRESET, EIO }); if ((i64)n < 0) return S_.fail(EFAULT);
  u64 v = decide(EINTR_); if (v) { probes["eintr_recv"]++; return S_.fail(EINTR); }
  string from; long r = sock_recv(o, (char *)b, n, fl, &from); io_event("RECV", fd, o, (char *)b, r, 0);
  if (r >= 0 && a) { if (s->type == SOCK_STREAM && (s->dom == AF_INET || from.empty())) { if (al) *al = 0; } else put_addr(s->dom, from, a, al); if (s->dom == AF_UNIX && from.empty() && al) { *al = 0; } }
  SYSRET(r);
}
ssize_t sim_recv(int fd, void *b, size_t n, int fl) { return sim_recvfrom(fd, b, n, fl, 0, 0); }
int sim_getsockname(int fd, struct sockaddr *a, socklen_t *n) { Sys S_("getsockname"); SOCKFD; put_addr(s->dom, s->bound ? s->addr : string(), a, n); return S_.ret(0); }
int sim_getpeername(int fd, struct sockaddr *a, socklen_t *n) { Sys S_("getpeername"); SOCKFD; if (!s->connected) return S_.fail(ENOTCONN); put_addr(s->dom, s->dest, a, n); return S_.ret(0); }
int sim_setsockopt(int fd, int, int, const void *, socklen_t) { Sys S_("setsockopt"); SOCKFD; return S_.ret(0); }
int sim_getsockopt(int fd, int, int opt, void *v, socklen_t *n) { Sys S_("getsockopt"); SOCKFD; if (v && n && *n >= sizeof(int)) *(int *)v = 0; return S_.ret(0); }

struct SelArg { Proc *p; fd_set r, w, e; int n; };
static int sel_ready(SelArg *a, fd_set *r, fd_set *w, fd_set *e)
{
  int k = 0; FD_ZERO(r); FD_ZERO(w); FD_ZERO(e);
  for (int i = 0; i < a->n && i < MAXFD; i++) {
    OFD *o = a->p->fd[i]; if (!o) continue; bool rd, wr, ex = false;
    switch (o->t) { case OFD::SOCK: rd = sock_readable(o->sock); wr = sock_writable(o->sock); break; case OFD::PIPER: rd = pr_pipe_readable(o); wr = false; break; case OFD::PIPEW: rd = false; wr = pr_pipe_writable(o); break; default: rd = wr = true; }
    if (rd && FD_ISSET(i, &a->r)) { FD_SET(i, r); k++; } if (wr && FD_ISSET(i, &a->w)) { FD_SET(i, w); k++; } if (ex && FD_ISSET(i, &a->e)) { FD_SET(i, e); k++; }
  }
  return k;
}
int sim_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
  Sys S_("select"); u64 v = decide(EINTR_); if (v) { probes["eintr_select"]++; return S_.fail(EINTR); }
  if (tv && (tv->tv_sec < 0 || tv->tv_usec < 0 || tv->tv_usec >= 1000000)) return S_.fail(EINVAL);
  static SelArg sa[64]; SelArg *a = &sa[cur->pid & 63]; a->p = cur; a->n = n; FD_ZERO(&a->r); FD_ZERO(&a->w); FD_ZERO(&a->e); if (r) a->r = *r; if (w) a->w = *w; if (e) a->e = *e;
  for (int i = 0; i < n && i < FD_SETSIZE; i++) if ((FD_ISSET(i, &a->r) || FD_ISSET(i, &a->w) || FD_ISSET(i, &a->e)) && (i >= MAXFD || !cur->fd[i])) return S_.fail(EBADF);
  u64 end = tv ? now_ns + (u64)tv->tv_sec * 1000000000ULL + tv->tv_usec * 1000ULL : ~0ULL;
  u64 t0 = now_ns; fd_set R, W, E; int k; bool timed_out = false;
  for (;;) {
    k = sel_ready(a, &R, &W, &E); if (k > 0 || timed_out) break;
    int x = wait_for([](void *q) -> bool { fd_set a1, b1, c1; return sel_ready((SelArg *)q, &a1, &b1, &c1) > 0; }, a, end);
    if (x == WINTR) { probes["select_interrupted"]++; deliver_signals(); return S_.fail(EINTR); }
    if (x == WTIME) { timed_out = true; if (end > t0) probes["select_timed_out"]++; }
  }
  if (r) *r = R; if (w) *w = W; if (e) *e = E; 
  if (tv) { u64 left = end > now_ns ? end - now_ns : 0; tv->tv_sec = left / 1000000000; tv->tv_usec = left / 1000 % 1000000; }
  return S_.ret(k);
}
} /* extern "C" */

/* ------------------------------------------------------------------ */
/* stub programs: everything below runs in a coroutine without a node */

static void stub_enter() { Proc *p = cur; steps++; p->syscalls++; now_ns += 1000; ev(p->pid); check_limits(); if (stop_run) to_sched();
  if (yield_on) { int n = 0; for (Proc *q : procs) if (q != p && q->st == READY) n++; if (n > 0) { u64 v = decide(SCHED); if (v) { switches++; to_sched(); } } } deliver_signals(); }
static long st_read(int fd, char *b, size_t n) { stub_enter(); u64 v = decide(PIPECHUNK); if (v && n > 1) n = 1 + v % n; for (;;) { long r = do_read(fd, b, n, 0, false); if (r == -EINTR) continue; return r; } }
static long st_writeall(int fd, const char *b, size_t n)
{
  size_t d = 0;
  while (d < n) { stub_enter(); size_t k = n - d; u64 v = decide(PIPECHUNK); if (v && k > 1) { k = 1 + v % k; if (v % 5 == 0) wait_for(0, 0, now_ns + v % 3000000); } long r = do_write(fd, b + d, k, 0, false); if (r == -EINTR) continue; if (r < 0) return r; d += r; }
  return n;
}
static int st_puts(int fd, const string &s) { return st_writeall(fd, s.data(), s.size()) < 0 ? 1 << 8 : 0; }
static string *st_slurp(int fd) { string *s = new string; vector<char> b(65536); for (;;) { long r = st_read(fd, b.data(), b.size()); if (r <= 0) break; s->append(b.data(), r); } return s; }
static string gen_bytes(u64 seed, size_t n) { string s; s.reserve(n); for (size_t i = 0; i < n; i++) s.push_back((char)(' ' + hash4(seed, i / 8, 3, 4) / (1 + (i % 8) * 97) % 95)); for (size_t i = 63; i < n; i += 64) s[i] = '\n'; return s; }

/* one simple command, descriptors already set up; returns a wait status */
static int builtin(const vector<string> &w)
{
  if (w.empty()) return 0;
  string c = w[0]; if (c.compare(0, 5, "/bin/") == 0) c = c.substr(5);
  if (c == "true" || c == ":") return 0;
  if (c == "false") return 1 << 8;
  if (c == "exit") return (w.size() > 1 ? atoi(w[1].c_str()) & 255 : 0) << 8;
  if (c == "echo") { string s; for (size_t i = 1; i < w.size(); i++) { if (i > 1) s += " "; s += w[i]; } s += "\n"; return st_puts(1, s); }
  if (c == "warn") { string s; for (size_t i = 1; i < w.size(); i++) { if (i > 1) s += " "; s += w[i]; } s += "\n"; return st_puts(2, s); }
  if (c == "cat") {
    char *b = (char *)malloc(8192); long r = 0;
    if (w.size() > 1) { for (size_t i = 1; i < w.size(); i++) { stub_enter(); int fd = do_open(w[i].c_str(), O_RDONLY, 0); if (fd < 0) { free(b); return 1 << 8; } while ((r = st_read(fd, b, 8192)) > 0) if (st_writeall(1, b, r) < 0) { free(b); return 1 << 8; } if (r < 0) { free(b); return 1 << 8; } OFD *o = cur->fd[fd]; cur->fd[fd] = 0; ofd_unref(o); } }
    else while ((r = st_read(0, b, 8192)) > 0) if (st_writeall(1, b, r) < 0) { free(b); return 1 << 8; }
    free(b); return r < 0 ? 1 << 8 : 0;
  }
  if (c == "upper") { char b[512]; long r; while ((r = st_read(0, b, sizeof b)) > 0) { for (long i = 0; i < r; i++) b[i] = toupper(b[i]); if (st_writeall(1, b, r) < 0) return 1 << 8; } return r < 0 ? 1 << 8 : 0; }
  if (c == "gen") { string *s = new string(gen_bytes(strtoull(w[1].c_str(), 0, 10), strtoull(w[2].c_str(), 0, 10))); long r = st_writeall(1, s->data(), s->size()); delete s; return r < 0 ? 1 << 8 : w.size() > 3 ? (atoi(w[3].c_str()) & 255) << 8 : 0; }
  if (c == "count" || c == "sink") { string *s = st_slurp(0); u64 h = 7; for (char ch : *s) h = h * 131 + (unsigned char)ch; string r = std::to_string(s->size()) + " " + std::to_string(h & 0xffffff) + "\n"; delete s; if (c == "count" && st_puts(1, r)) return 1 << 8; return w.size() > 1 ? (atoi(w[1].c_str()) & 255) << 8 : 0; }
  if (c == "head") { size_t n = strtoull(w[1].c_str(), 0, 10); char b[64]; while (n > 0) { long r = st_read(0, b, std::min(n, sizeof b)); if (r <= 0) break; st_writeall(1, b, r); n -= r; } return 0; }
  if (c == "sleep") { stub_enter(); wait_for(0, 0, now_ns + (u64)(atof(w.size() > 1 ? w[1].c_str() : "1") * 1e9)); return 0; }
  if (c == "kill") { return atoi(w.size() > 1 ? w[1].c_str() : "9"); }
  if (c == "args") { string s; for (size_t i = 1; i < w.size(); i++) s += "[" + w[i] + "]"; s += "\n"; return st_puts(1, s); }
  if (c == "env") { string s; for (auto &e : cur->env) s += e + "\n"; return st_puts(1, s); }
  if (c == "fds") { string s; for (int i = 0; i < MAXFD; i++) if (cur->fd[i]) s += std::to_string(i) + " "; s += "\n"; return st_puts(1, s); }
  if (c == "spew") { string *s = st_slurp(0); st_writeall(1, s->data(), s->size()); st_writeall(1, s->data(), s->size()); delete s; return 0; }
  return 127 << 8;
}
static int stub_tool(Proc *p)
{
  vector<string> *w = new vector<string>(p->argv); size_t sl = (*w)[0].rfind('/'); string prog = p->prog; sl = prog.rfind('/'); (*w)[0] = sl == string::npos ? prog : prog.substr(sl + 1);
  int st = builtin(*w); if (st & 127) die(st & 127); return st >> 8;
}
/* sh -c "cmd args <in >out 2>err ; ..." */
static int stub_sh(Proc *p)
{
  if (p->argv.size() < 3) return 2;
  string cmd = p->argv[2]; int st = 0; size_t i = 0;
  while (i < cmd.size()) {
    size_t j = i; char q = 0; while (j < cmd.size() && (q || cmd[j] != ';')) { if (q) { if (cmd[j] == q) q = 0; } else if (cmd[j] == '\'' || cmd[j] == '"') q = cmd[j]; j++; }
    string one = cmd.substr(i, j - i); i = j + 1;
    /* words, with quotes and redirections */
    vector<string> w; vector<std::pair<int, string>> redir; size_t k = 0; 
    while (k < one.size()) {
      while (k < one.size() && isspace((unsigned char)one[k])) k++;
      if (k >= one.size()) break;
      int rd = -1;
      if (one.compare(k, 2, "2>") == 0) { rd = 2; k += 2; } else if (one.compare(k, 2, "1>") == 0) { rd = 1; k += 2; } else if (one[k] == '>') { rd = 1; k++; } else if (one[k] == '<') { rd = 0; k++; }
      while (rd >= 0 && k < one.size() && isspace((unsigned char)one[k])) k++;
      string t; while (k < one.size() && !isspace((unsigned char)one[k]) && one[k] != '<' && one[k] != '>') { if (one[k] == '\'' || one[k] == '"') { char qq = one[k++]; while (k < one.size() && one[k] != qq) { if (qq == '"' && one[k] == '\\' && k + 1 < one.size()) k++; t += one[k++]; } k++; } else { if (one[k] == '\\' && k + 1 < one.size()) k++; t += one[k++]; } }
      if (rd >= 0) redir.push_back({ rd, t }); else w.push_back(t);
    }
    OFD *save[3]; for (int f = 0; f < 3; f++) { save[f] = cur->fd[f]; if (save[f]) save[f]->refs++; }
    bool ok = true;
    for (auto &r : redir) {
      stub_enter(); 
      if (r.first == 2 && r.second == "&1") { if (cur->fd[2]) ofd_unref(cur->fd[2]); cur->fd[2] = cur->fd[1]; if (cur->fd[1]) cur->fd[1]->refs++; continue; }
      int fd = do_open(r.second.c_str(), r.first == 0 ? O_RDONLY : O_WRONLY | O_CREAT | O_TRUNC, 0666);
      if (fd < 0) { ok = false; st = 1 << 8; break; }
      if (fd != r.first) { if (cur->fd[r.first]) { OFD *o = cur->fd[r.first]; cur->fd[r.first] = 0; ofd_unref(o); } cur->fd[r.first] = cur->fd[fd]; cur->fd[fd] = 0; }
    }
    if (ok && !w.empty()) {
      st = builtin(w);
      if ((w[0] == "exit" || (st & 127)) ) { if (st & 127) die(st & 127); return st >> 8; }
    }
    for (int f = 0; f < 3; f++) { if (cur->fd[f]) { OFD *o = cur->fd[f]; cur->fd[f] = 0; ofd_unref(o); } cur->fd[f] = save[f]; }
  }
  return st >> 8;
}
/* ops of a feeder: W bytes | S ns | C ; of a drainer: R n | S ns | C */
/* the data functions of drv/Sim.sml */
static string gendata(char kind, u64 seed, u64 n)
{
  string r(n, 0); u64 s97 = seed % 97 + 1;
  for (u64 i = 0; i < n; i++) { u64 x = seed * 31 + i * 7 + (i / 13) * 5 + (i / 251) * s97;
    if (kind == 't') { u64 k = x % 97; r[i] = k == 0 ? 10 : 32 + k % 95; } else r[i] = (char)((x % 251 + i / 1000) % 256); }
  return r;
}
static int stub_feeder(Proc *p)
{
  auto it = C.ops.find(p->opname);
  if (it != C.ops.end()) for (const string &l : it->second) {
    const string *s = &l; stub_enter();
    if ((*s)[0] == 'W') { string *d = new string(unesc(s->substr(2))); long r = st_writeall(1, d->data(), d->size()); delete d; if (r < 0) return 1; }
    else if ((*s)[0] == 'G') { char *q; u64 sd = strtoull(s->c_str() + 4, &q, 10), n = strtoull(q, 0, 10); string *d = new string(gendata((*s)[2], sd, n)); long r = st_writeall(1, d->data(), d->size()); delete d; if (r < 0) return 1; }
    else if ((*s)[0] == 'S') wait_for(0, 0, now_ns + strtoull(s->c_str() + 2, 0, 10));
    else if ((*s)[0] == 'H') { wait_for(0, 0, ~0ULL - 1); }
    else if ((*s)[0] == 'C') return 0;
  }
  return 0;
}
static int stub_drainer(Proc *p)
{
  Inode *f = put_path("/out/" + p->opname, S_IFREG, 0644); static char b[65536];
  auto it = C.ops.find(p->opname);
  if (it != C.ops.end()) for (const string &l : it->second) {
    stub_enter();
    if (l[0] == 'R') { long n = strtoll(l.c_str() + 2, 0, 10); while (n > 0) { long r = st_read(0, b, std::min<long>(n, sizeof b)); if (r <= 0) return 0; f->data.append(b, r); n -= r; } }
    else if (l[0] == 'S') wait_for(0, 0, now_ns + strtoull(l.c_str() + 2, 0, 10));
    else if (l[0] == 'C') return 0;
  }
  for (;;) { long r = st_read(0, b, sizeof b); if (r <= 0) break; f->data.append(b, r); }
  return 0;
}

/* --- the script that drives a run --- */
static string kv(const vector<string> &w, const char *k, const char *d = "")
{ size_t n = strlen(k); for (auto &x : w) if (x.size() > n && x.compare(0, n, k) == 0 && x[n] == '=') return x.substr(n + 1); return d; }
static map<string, Proc *> named;
static void give(Proc *p, int n, OFD *o) { if (p->fd[n]) ofd_unref(p->fd[n]); p->fd[n] = o; p->cloexec[n] = false; }
static Proc *stub_proc(Proc *parent, int (*f)(Proc *), const string &name)
{ Proc *q = new_proc(0, name); q->stub = f; q->opname = name; q->ppid = parent->pid; start_coroutine(q); return q; }
static OFD *open_for(const string &spec, int n, Proc *sp, Proc *me)
{
  if (spec == "null" || spec == "") { OFD *o = mkofd(OFD::NUL); o->flags = n ? O_WRONLY : O_RDONLY; return o; }
  if (spec == "closed") return 0;
  if (spec == "tty") { OFD *o = mkofd(OFD::TTY); return o; }
  if (spec.compare(0, 5, "feed:") == 0 || spec.compare(0, 6, "drain:") == 0) {
    bool feed = spec[0] == 'f'; string nm = spec.substr(feed ? 5 : 6);
    Pipe *q = new Pipe; q->cap = (size_t)C.o("pipecap", 65536); q->readers = q->writers = 1; OFD *r = mkofd(OFD::PIPER), *w = mkofd(OFD::PIPEW); r->pipe = w->pipe = q; r->flags = O_RDONLY; w->flags = O_WRONLY;
    Proc *s = stub_proc(me, feed ? stub_feeder : stub_drainer, nm); named[nm] = s;
    if (feed) { give(s, 1, w); return r; } give(s, 0, r); return w;
  }
  /* a plain file */
  if (n == 0) { Inode *i = get_path(spec); if (!i) { OFD *o = mkofd(OFD::NUL); o->flags = O_RDONLY; return o; } OFD *o = mkofd(OFD::REG); o->ino = i; i->opens++; o->flags = O_RDONLY; return o; }
  Inode *i = put_path(spec, S_IFREG, 0644); OFD *o = mkofd(OFD::REG); o->ino = i; i->opens++; o->flags = O_WRONLY | O_APPEND; return o;
}
static void dump(const string &path, Inode *i)
{
  if (i->type == S_IFDIR) { vector<std::pair<string, Inode *>> v = i->ents; std::sort(v.begin(), v.end()); for (auto &e : v) dump(path == "/" ? "/" + e.first : path + "/" + e.first, e.second); if (i->ents.empty()) emit("FD %s", esc(path).c_str()); return; }
  out += i->type == S_IFREG ? "F " : "FX "; out += esc(path); out += " "; out += esc(idata(i)); out += "\n";
}
static void emit_counts(char k, Proc *p);
static int stub_script(Proc *me)
{
  for (size_t li = 0; li < C.script.size(); li++) {
    vector<string> *wp = new vector<string>(splitws(C.script[li])); vector<string> &w = *wp; if (w.empty()) continue; const string &c = w[0];
    stub_enter(); map_in(0);
    if (c == "run" || c == "spawn") {
      size_t dd = 0; for (size_t i = 0; i < w.size(); i++) if (w[i] == "--") { dd = i; break; }
      vector<string> opts(w.begin() + 1, w.begin() + dd), av; for (size_t i = dd + 1; i < w.size(); i++) av.push_back(unesc(w[i]));
      vector<string> env; if (!C.env.count("PATH")) env.push_back("PATH=/bin"); for (auto &e : C.env) env.push_back(e.first + "=" + e.second);
      string path = av[0]; string nm = kv(opts, "name"); if (!kv(opts, "arg0").empty()) av[0] = unesc(kv(opts, "arg0"));
      Proc *p = 0; int e = spawn(me, path, av, env, &p);
      if (e) { emit("SPAWNFAIL %s %d", av[0].c_str(), e); continue; }
      if (nm.empty()) nm = p->name; p->opname = nm; named[nm] = p; p->name = nm; 
      for (int f = 3; f < MAXFD; f++) if (p->fd[f]) { ofd_unref(p->fd[f]); p->fd[f] = 0; }
      if (!kv(opts, "cwd").empty()) { Inode *d = get_path(kv(opts, "cwd")); if (d) p->cwd = d; }
      give(p, 0, open_for(kv(opts, "in"), 0, p, me)); give(p, 1, open_for(kv(opts, "out", ("/out/" + nm + ".out").c_str()), 1, p, me)); give(p, 2, open_for(kv(opts, "err", ("/out/" + nm + ".err").c_str()), 2, p, me));
      if (!kv(opts, "ign").empty()) p->sig[atoi(kv(opts, "ign").c_str())].h = SIG_IGN;
      if (kv(opts, "intr") == "ignore") p->sig[SIGINT].h = SIG_IGN;
      if (!kv(opts, "fault").empty()) p->armf = p->faultable = atoi(kv(opts, "fault").c_str());
      if (!kv(opts, "sig").empty()) { if (p->armed) p->arms = atoi(kv(opts, "sig").c_str()); else { p->sigtarget = atoi(kv(opts, "sig").c_str()); arm(p); } }
      if (!kv(opts, "kills").empty()) { C.forced[{ p->pid, KILL }][strtoull(kv(opts, "kills").c_str(), 0, 10)] = 1; }
      emit("START %d %s", p->pid, nm.c_str());
      if (c == "run") { static Proc *target; target = p; wait_for([](void *) -> bool { return target->st == ZOMBIE || target->st == DEAD; }, 0, ~0ULL); if (p->st == ZOMBIE && p->ppid == me->pid) p->st = DEAD; }
    }
    else if (c == "wait") { static Proc *target; auto i = named.find(w[1]); if (i != named.end()) { target = i->second; wait_for([](void *) -> bool { return target->st == ZOMBIE || target->st == DEAD; }, 0, ~0ULL); } }
    else if (c == "waitall") { static Proc *self; self = me; wait_for([](void *) -> bool { for (Proc *p : procs) if (p != self && p->node >= 0 && p->st != ZOMBIE && p->st != DEAD) return false; return true; }, 0, w.size() > 1 ? now_ns + strtoull(w[1].c_str(), 0, 10) : ~0ULL); }
    else if (c == "settle") { static Proc *self; self = me; wait_for([](void *) -> bool { for (Proc *p : procs) if (p != self && (p->st == READY || p->st == FROZEN)) return false; return true; }, 0, ~0ULL); }
    else if (c == "sleep") wait_for(0, 0, now_ns + strtoull(w[1].c_str(), 0, 10));
    else if (c == "kill") { auto i = named.find(w[1]); if (i != named.end() && i->second->st != ZOMBIE && i->second->st != DEAD) { Proc *q = i->second; int sg = atoi(w[2].c_str()); if (sg == SIGKILL && q->st != FROZEN) { cur = q; proc_exit(q, SIGKILL); cur = me; } else post_signal(q, sg); } }
    else if (c == "write") { Inode *i = put_path(unesc(w[1]), S_IFREG, w.size() > 3 ? strtol(w[3].c_str(), 0, 8) : 0644); i->data = w.size() > 2 ? unesc(w[2]) : ""; i->mtime = wall(); }
    else if (c == "gen") { Inode *i = put_path(unesc(w[1]), S_IFREG, 0644); i->data = gendata(w[2][0], strtoull(w[3].c_str(), 0, 10), strtoull(w[4].c_str(), 0, 10)); i->mtime = wall(); }
    else if (c == "fifofeed" || c == "fifodrain") { bool feed = c == "fifofeed"; Inode *i = put_path(unesc(w[1]), S_IFIFO, 0666); if (!i->fifo) i->fifo = new Pipe; i->fifo->cap = (size_t)C.o("pipecap", 65536);
      OFD *o = mkofd(feed ? OFD::PIPEW : OFD::PIPER); o->pipe = i->fifo; o->flags = feed ? O_WRONLY : O_RDONLY; if (feed) { i->fifo->writers++; i->fifo->readers++; i->kind = 5; } else { i->fifo->readers++; i->fifo->writers++; i->kind = 3; }
      Proc *s = stub_proc(me, feed ? stub_feeder : stub_drainer, w[2]); named[w[2]] = s; give(s, feed ? 1 : 0, o); emit("START %d %s", s->pid, w[2].c_str()); }
    else if (c == "mkdir") put_path(unesc(w[1]), S_IFDIR, w.size() > 2 ? strtol(w[2].c_str(), 0, 8) : 0755);
    else if (c == "symlink") { Inode *i = put_path(unesc(w[2]), S_IFLNK, 0777); i->data = unesc(w[1]); }
    else if (c == "fifo") put_path(unesc(w[1]), S_IFIFO, 0666);
    else if (c == "chmod") { Inode *i = get_path(unesc(w[1])); if (i) i->mode = strtol(w[2].c_str(), 0, 8); }
    else if (c == "chown") { Inode *i = get_path(unesc(w[1])); if (i) i->uid = atoi(w[2].c_str()); }
    else if (c == "rm") { static Proc tmp; tmp.cwd = root; int err; Inode *par = 0; string last; Inode *i = walk(&tmp, unesc(w[1]), false, &err, &par, &last); if (i && par) { del_ent(par, last); i->nlink--; if (i->type == S_IFREG) wdata(i); inode_unref(i); } }
    else if (c == "copy" || c == "move") { Inode *i = get_path(unesc(w[1])); if (i) { Inode *j = put_path(unesc(w[2]), S_IFREG, i->mode); j->data = idata(i); j->shared = 0; j->mtime = c == "move" ? i->mtime : wall(); } }
    else if (c == "join") { Inode *a = get_path(unesc(w[1])), *b = get_path(unesc(w[2])); if (a && b) { string d = idata(a) + idata(b); Inode *j = put_path(unesc(w[3]), S_IFREG, strtol(w[4].c_str(), 0, 8)); j->data = d; j->shared = 0; j->mtime = wall(); } }
    else if (c == "truncate") { Inode *i = get_path(unesc(w[1])); if (i) { i64 n = strtoll(w[2].c_str(), 0, 10); string &d = wdata(i); if (n < 0) n = (i64)d.size() + n; if (n < 0) n = 0; if (w[2].back() == '%') n = (i64)(d.size() * n / 100); d.resize(n, '\0'); } }
    else if (c == "corrupt") { Inode *i = get_path(unesc(w[1])); if (i) { string &d = wdata(i); i64 n = strtoll(w[2].c_str(), 0, 10); if (n < 0) n += d.size(); if (d.size()) d[n % d.size()] ^= atoi(w[3].c_str()); } }
    else if (c == "append") { Inode *i = get_path(unesc(w[1])); if (i) { wdata(i) += unesc(w[2]); i->mtime = wall(); } }
    else if (c == "touch") { Inode *i = get_path(unesc(w[1])); if (i) i->mtime = strtoll(w[2].c_str(), 0, 10) * 1000000000LL; }
    else if (c == "dump") { Inode *i = get_path(unesc(w[1])); if (i) dump(unesc(w[1]), i); else emit("FN %s", esc(unesc(w[1])).c_str()); }
    else if (c == "powerfail") { Inode *i = get_path(unesc(w[1])); if (i && i->type == S_IFREG) { wdata(i) = i->synced; probes["powerfail"]++; } }  /* what was not synchronised is lost */
    else if (c == "disk") { disk_free = strtoll(w[1].c_str(), 0, 10); }
    else if (c == "faults") faults_on = w[1] == "on";
    else if (c == "opt") { C.opt[w[1]] = w.size() > 2 ? w[2] : ""; if (w[1] == "poison" || w[1] == "verify") {} }
    else if (c == "clock") { wall_skew += strtoll(w[1].c_str(), 0, 10); }
    else if (c == "ifexit") { /* ifexit name status : skip the next line unless */ auto i = named.find(w[1]); if (i == named.end() || i->second->status != atoi(w[2].c_str())) li++; }
    else if (c == "mark") { auto i = named.find(w[1]); if (i != named.end()) emit_counts('M', i->second); }      /* how far it has got */
    else if (c == "say") emit("SAY %s", C.script[li].c_str());
    else { emit("V 0 script unknown command %s", c.c_str()); }
    delete wp;
  }
  return 0;
}

static int (*find_stub(const string &n))(Proc *)
{
  if (n == "sh") return stub_sh; if (n == "tool") return stub_tool;
  return 0;
}

/* ------------------------------------------------------------------ */
/* the interface to driver programs */

static void set_sigtarget(Proc *p, bool on)
{ p->sigtarget = on; const sim_node *a = nodes[p->node].api; p->pollbase = p->pollbase + p->pollset - (u64)(*a->poll_countdown > 0 ? *a->poll_countdown : 0); p->pollset = poll_gap(p, p->pollbase); *a->poll_countdown = (long)p->pollset; }
extern "C" const char *os_next(long *len)
{
  Proc *p = cur; if (p->armed) { p->armed = false; p->faultable = p->armf; if (p->arms) set_sigtarget(p, true); }
  auto it = C.ops.find(p->opname.empty() ? p->name : p->opname);
  if (it == C.ops.end() || p->opi >= it->second.size()) p->next_buf.clear();
  else { p->next_buf = it->second[p->opi++]; if (tracelev > 0) emit("T OP %d %zu %s", p->pid, p->opi - 1, p->next_buf.c_str()); ev(p->opi); }
  *len = p->next_buf.size(); return p->next_buf.data();
}
extern "C" void os_log(const char *s, long len)
{
  if (C.o("gtime", 0)) emit("AT %llu", (unsigned long long)now_ns);
  char b[48]; snprintf(b, sizeof b, "L %d ", cur->pid); out += b; out += esc(s, len); out += "\n"; evs(s, len < 200 ? len : 200);
  if (out.size() > (64u << 20)) { stop_run = true; stop_why = "output"; }
}
extern "C" const char *os_ctl(const char *s0, long len, long *rlen)
{
  vector<string> w = splitws(string(s0, len)); string r; Proc *p = cur; char b[256];
  if (!w.empty() && w[0] == "!") w.erase(w.begin());
  else if (!w.empty() && w[0][0] == '!') w[0] = w[0].substr(1);
  if (w.empty()) {}
  else if (w[0] == "dlflags") r = p->dlflags;
  else if (w[0] == "dlrefs") { r = std::to_string(p->dlrefs[40]) + " " + std::to_string(p->dlrefs[41]); }
  else if (w[0] == "fds") { int n = 0; for (int i = 0; i < MAXFD; i++) if (p->fd[i]) n++; r = std::to_string(n); }
  else if (w[0] == "lasterr") { r = std::to_string(p->lasterr); p->lasterr = 0; }
  else if (w[0] == "fdlist") { for (int i = 0; i < MAXFD; i++) if (p->fd[i]) r += std::to_string(i) + " "; }
  else if (w[0] == "children") { int n = 0; for (Proc *q : procs) if (q->ppid == p->pid && q->st != DEAD) n++; r = std::to_string(n); }
  else if (w[0] == "now") r = std::to_string(now_ns);
  else if (w[0] == "wall") r = std::to_string(wall());
  else if (w[0] == "verify") { char m[300]; if (nodes[p->node].api->verify(m, sizeof m, 0)) os_violation("heap", m); arena_checkall(p, "by the driver"); r = "ok"; }
  else if (w[0] == "heap") { char m[300]; struct sim_heapinfo h; if (nodes[p->node].api->verify(m, sizeof m, &h)) os_violation("heap", m); snprintf(b, sizeof b, "%ld %ld %ld %ld %ld %d", h.heap_bytes, h.free_words, h.live_words, h.reach_words, h.chunks, h.phase); r = b; }
  else if (w[0] == "lib") { Arena *a = arena_of(p); size_t n = 0; for (auto &x : a->live) if (x.second.lib) n++; snprintf(b, sizeof b, "%zu %zu", a->libbytes, n); r = b; }
  else if (w[0] == "mem") { Arena *a = arena_of(p); snprintf(b, sizeof b, "%zu %zu %zu", a->bytes, a->peak, a->live.size()); r = b; }
  else if (w[0] == "faults") { faults_on = w[1] == "on"; }
  else if (w[0] == "sig") { post_signal(p, w.size() > 1 ? atoi(w[1].c_str()) : SIGINT); deliver_signals(); }
  else if (w[0] == "pend") { post_signal(p, w.size() > 1 ? atoi(w[1].c_str()) : SIGINT); }
  else if (w[0] == "sigtarget") { set_sigtarget(p, w[1] == "1"); }
  else if (w[0] == "faultable") { p->faultable = w[1] == "1"; }
  else if (w[0] == "file") { Inode *i = get_path(unesc(w[1])); r = i ? "=" + idata(i) : "none"; }
  else if (w[0] == "disk") { disk_free = strtoll(w[1].c_str(), 0, 10); }
  else if (w[0] == "memlimit") { C.opt["memlimit"] = w[1]; }
  else if (w[0] == "opt") { C.opt[w[1]] = w[2]; }
  else if (w[0] == "advance") { now_ns += strtoull(w[1].c_str(), 0, 10); if (w.size() > 2) p->cpu += strtoull(w[2].c_str(), 0, 10); }
  else if (w[0] == "clock") { wall_skew += strtoll(w[1].c_str(), 0, 10); }
  else if (w[0] == "setwall") { wall_skew = strtoll(w[1].c_str(), 0, 10) - wall_base - (i64)now_ns; }
  else if (w[0] == "pid") { r = std::to_string(p->pid); }
  else if (w[0] == "avail") { OFD *o = p->fd[atoi(w[1].c_str())]; r = !o ? "closed" : o->t == OFD::PIPER ? (o->pipe->size() ? "data" : o->pipe->writers ? "wait" : "eof") : o->t == OFD::REG ? (o->off < (i64)idata(o->ino).size() ? "data" : "eof") : "other"; r += o && (o->flags & O_NONBLOCK) ? " nonblocking" : " blocking"; }
  else if (w[0] == "flags") { OFD *o = p->fd[atoi(w[1].c_str())]; r = o ? std::to_string(o->flags) : "none"; }
  else if (w[0] == "sockets") { for (int i = 0; i < MAXFD; i++) if (p->fd[i] && p->fd[i]->t == OFD::SOCK) { Sock *s = p->fd[i]->sock; snprintf(b, sizeof b, "%d:%d%d:%s:%zu ", i, sock_readable(s), sock_writable(s), s->bound ? esc(s->addr).c_str() : "-", sock_avail(s)); r += b; } }
  else if (w[0] == "yield") { int n = w.size() > 1 ? atoi(w[1].c_str()) : 1; while (n-- > 0) to_sched(); }
  else if (w[0] == "probe") { probes[w[1]]++; }
  else if (w[0] == "chmod") { Inode *i = get_path(unesc(w[1])); if (i) i->mode = strtol(w[2].c_str(), 0, 8); }
  else { emit("V %d script unknown ctl %s", p->pid, w[0].c_str()); }
  p->ctl_buf = r; *rlen = p->ctl_buf.size(); return p->ctl_buf.data();
}

/* ------------------------------------------------------------------ */
/* running one case */

static int resfd = 1;
static u64 children_started = 0;
static void emit_counts(char k, Proc *p)
{
    string l; char b[64]; for (int c = 0; c < NCLS; c++) if (p->cnt[c]) { snprintf(b, sizeof b, " %s=%llu", clsname[c], (unsigned long long)p->cnt[c]); l += b; }
    u64 g = p->gcbase, pl = p->pollbase; if (p->node >= 0) { const sim_node *a = nodes[p->node].api; g = p->gcbase + p->gcset - (u64)std::max<long>(0, *a->gc_countdown); pl = p->pollbase + p->pollset - (u64)std::max<long>(0, *a->poll_countdown); }
    emit("%c %d %s st=%d gc=%llu poll=%llu%s", k, p->pid, p->name.c_str(), (int)p->st, (unsigned long long)g, (unsigned long long)pl, l.c_str());
}
static void finish()
{
  for (int c = 0; c < NCLS; c++) if (C.cls[c].asked || C.cls[c].fired) emit("C %s %llu %llu", clsname[c], (unsigned long long)C.cls[c].asked, (unsigned long long)C.cls[c].fired);
  for (Proc *p : procs) if (p->name != "script" || p->node >= 0) emit_counts('N', p);
  for (auto &p : probes) emit("P %s %llu", p.first.c_str(), (unsigned long long)p.second);
  out += decisions;
  emit("H %016llx", (unsigned long long)evhash);
  emit("S steps=%llu switches=%llu ns=%llu polls=%llu faults=%llu stop=%s", (unsigned long long)steps, (unsigned long long)switches, (unsigned long long)now_ns, (unsigned long long)polls_total, (unsigned long long)fault_total, stop_why.empty() ? "end" : stop_why.c_str());
  emit("END");
  size_t d = 0; while (d < out.size()) { ssize_t r = write(resfd, out.data() + d, out.size() - d); if (r <= 0) break; d += r; }
}
static void crash(int sig, siginfo_t *si, void *uc)
{
  static bool again = false; if (again) _exit(7); again = true;
  const char *in = "";
#ifdef __x86_64__
  greg_t ip = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP]; (void)ip;
#endif
  if (sig == SIGALRM || sig == SIGXCPU) { stop_why = "hang"; emit("V %d hang no progress within the real-time limit", cur ? cur->pid : 0); }
  else {
    stop_why = "crash";
    emit("V %d crash signal %d%s", cur ? cur->pid : 0, sig, in);
    if (getenv("SIMDEBUG")) {
        emit("T crash ip=%llx addr=%p", (unsigned long long)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP], si->si_addr);
        void *bt[20]; int n = backtrace(bt, 20); char **sy = backtrace_symbols(bt, n);
        for (int i = 0; i < n; i++) emit("T bt %s", sy ? sy[i] : "?");
    }
  }
  finish(); _exit(0);
}
static void parse_case(const string &text)
{
  size_t i = 0;
  while (i < text.size()) {
    size_t j = text.find('\n', i); if (j == string::npos) j = text.size();
    string l = text.substr(i, j - i); i = j + 1; if (l.empty() || l[0] == '#') continue;
    size_t sp = l.find(' '); string k = l.substr(0, sp), rest = sp == string::npos ? "" : l.substr(sp + 1);
    if (k == "seed") C.seed = strtoull(rest.c_str(), 0, 10);
    else if (k == "replay") C.replay = atoi(rest.c_str());
    else if (k == "opt") { auto w = splitws(rest); C.opt[w[0]] = w.size() > 1 ? w[1] : ""; }
    else if (k == "cls") { auto w = splitws(rest); int c = clsof(w[0]); if (c < 0) { emit("V 0 script unknown class %s", w[0].c_str()); continue; } C.cls[c].ppm = strtoull(w[1].c_str(), 0, 10); if (w.size() > 2) C.cls[c].from = strtoull(w[2].c_str(), 0, 10); if (w.size() > 3) C.cls[c].to = strtoull(w[3].c_str(), 0, 10); if (w.size() > 4) C.cls[c].maxn = strtoull(w[4].c_str(), 0, 10); }
    else if (k == "D") { auto w = splitws(rest); int c = clsof(w[1]); if (c >= 0) C.forced[{ atoi(w[0].c_str()), c }][strtoull(w[2].c_str(), 0, 10)] = strtoull(w[3].c_str(), 0, 10); }
    else if (k == "script") C.script.push_back(rest);
    else if (k == "op") { size_t s2 = rest.find(' '); C.ops[rest.substr(0, s2)].push_back(s2 == string::npos ? "" : rest.substr(s2 + 1)); }
    else if (k == "env") { auto w = splitws(rest); C.env[w[0]] = w.size() > 1 ? unesc(w[1]) : ""; }
    else emit("V 0 script unknown line %s", k.c_str());
  }
}
static void run_case(const string &text)
{
  parse_case(text);
  max_steps = C.o("maxsteps", 2000000); max_polls = C.o("maxpolls", 400000000LL); tracelev = C.o("trace", 0);
  yield_on = C.o("yield", 1); disk_free = C.o("disk", 1LL << 40);
  wall_base = C.o("wall", 1000000000LL) * 1000000000LL + C.o("wallns", 0);
  static char alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; 
  for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGXCPU, SIGTRAP }) sigaction(s, &sa, 0);
  signal(SIGPIPE, SIG_IGN);
  { sigset_t e; sigemptyset(&e); sigprocmask(SIG_SETMASK, &e, 0); }
  struct rlimit rl; rl.rlim_cur = C.o("cpulimit", 20); rl.rlim_max = rl.rlim_cur + 3; setrlimit(RLIMIT_CPU, &rl);
  put_path("/out", S_IFDIR, 0777); put_path("/tmp", S_IFDIR, 01777);
  Proc *s = new_proc(0, "script"); s->stub = stub_script; s->opname = "script"; s->ppid = 1; start_coroutine(s);
  schedule();
  emit("ENDRUN %s", stop_why.empty() ? "end" : stop_why.c_str());
  for (Proc *p : procs) if (p->st == BLOCKED || p->st == READY) emit("ALIVE %d %s %d", p->pid, p->name.c_str(), (int)p->st);
  if (C.o("dumpout", 1)) { Inode *o = get_path("/out"); if (o) dump("/out", o); }
  finish();
}

static bool readn(int fd, string &s, size_t n) { s.resize(n); size_t d = 0; while (d < n) { ssize_t r = read(fd, &s[d], n - d); if (r <= 0) return false; d += r; } return true; }
static bool readline_(int fd, string &s) { s.clear(); char c; for (;;) { ssize_t r = read(fd, &c, 1); if (r <= 0) return false; if (c == '\n') return true; s.push_back(c); } }
static bool slurp(const string &p, string &s) { FILE *f = fopen(p.c_str(), "rb"); if (!f) return false; char b[65536]; size_t n; s.clear(); while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return true; }

int main(int argc, char **argv)
{
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) { if (personality(pers | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); } }
  setenv("TZ", "UTC", 1); tzset(); setenv("LC_ALL", "C", 1);
  init_nodes(); init_arenas();
  root = mkinode(S_IFDIR, 0755); root->parent = root;
  put_path("/tmp", S_IFDIR, 01777); put_path("/home", S_IFDIR, 0777); put_path("/out", S_IFDIR, 0777);
  { Inode *n = put_path("/dev/null", S_IFCHR, 0666); n->kind = 1; }
  put_path("/bin/sh", S_IFREG, 0755)->data = "STUB sh";
  for (const char *t : { "cat", "true", "false", "echo", "exit", "gen", "count", "sink", "head", "sleep", "kill", "args", "env", "fds", "spew", "upper", "warn" }) put_path(string("/bin/") + t, S_IFREG, 0755)->data = "STUB tool";
  { std::set<int> vs; for (auto &n : nodes) vs.insert(n.variant); for (int v : vs) { string nm = v == 0 ? "camlrunm" : "camlrunm" + std::to_string(v); put_path("/bin/" + nm, S_IFREG, 0755)->data = "NODE " + std::to_string(v); } }
  signal(SIGPIPE, SIG_IGN);
  string line;
  while (readline_(0, line)) {
    auto w = splitws(line); if (w.empty()) continue;
    if (w[0] == "LOAD") { string *s = new string; if (!slurp(w[2], *s)) { fprintf(stderr, "sim: cannot read %s\n", w[2].c_str()); return 3; } Inode *i = put_path(w[1], S_IFREG, w.size() > 3 ? strtol(w[3].c_str(), 0, 8) : 0644); i->shared = s; i->uid = w.size() > 4 ? atoi(w[4].c_str()) : 1000; }
    else if (w[0] == "MK") { Inode *i = put_path(w[1], S_IFREG, strtol(w[2].c_str(), 0, 8)); i->data = w.size() > 3 ? unesc(w[3]) : ""; }
    else if (w[0] == "MKDIR") put_path(w[1], S_IFDIR, 0755);
    else if (w[0] == "QUIT") return 0;
    else if (w[0] == "CASE") {
      string text; if (!readn(0, text, strtoull(w[1].c_str(), 0, 10))) return 3;
      int pp[2]; if (pipe(pp)) return 3;
      pid_t pid = fork();
      if (pid == 0) { close(pp[0]); close(0); in_child = true; resfd = pp[1]; run_case(text); _exit(0); }
      close(pp[1]); string res; static char b[65536]; ssize_t r; 
      int limit = 60; size_t lp = text.find("opt wallclock "); if (lp != string::npos) limit = atoi(text.c_str() + lp + 14);
      time_t t0 = time(0); bool killed = false;
      for (;;) { struct pollfd pf = { pp[0], POLLIN, 0 }; int k = poll(&pf, 1, 1000); if (k > 0) { r = read(pp[0], b, sizeof b); if (r <= 0) break; res.append(b, r); } else if (time(0) - t0 > limit && !killed) { kill(pid, SIGKILL); killed = true; } }
      close(pp[0]); int st; waitpid(pid, &st, 0);
      if (res.size() < 4 || res.compare(res.size() - 4, 4, "END\n") != 0) { char m[100]; snprintf(m, sizeof m, "\nSIMFAIL status=%x killed=%d\n", st, killed); res += m; }
      char h[64]; int n = snprintf(h, sizeof h, "RESULT %zu\n", res.size()); string o(h, n); o += res; size_t d = 0; while (d < o.size()) { ssize_t q = write(1, o.data() + d, o.size() - d); if (q <= 0) return 3; d += q; }
    }
    else { fprintf(stderr, "sim: bad line %s\n", line.c_str()); return 3; }
  }
  return 0;
}
