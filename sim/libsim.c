// libsim.so - the simulator.  LD_PRELOADed into the real hongdown binary, it replaces the operating
// system below libc: threads, time, file system, standard streams, processes, pipes, randomness.
// One forked process = one run; everything that happens in it is a function of the scenario file.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <link.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <pwd.h>
#include <sched.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/vfs.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <utime.h>

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;

#define EXPORT __attribute__((visibility("default")))
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

// ------------------------------------------------------------------ real system calls
static long rsys(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  long ret;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
#define R0(n) rsys(n, 0, 0, 0, 0, 0, 0)
#define R1(n, a) rsys(n, (long)(a), 0, 0, 0, 0, 0)
#define R2(n, a, b) rsys(n, (long)(a), (long)(b), 0, 0, 0, 0)
#define R3(n, a, b, c) rsys(n, (long)(a), (long)(b), (long)(c), 0, 0, 0)
#define R4(n, a, b, c, d) rsys(n, (long)(a), (long)(b), (long)(c), (long)(d), 0, 0)
#define R6(n, a, b, c, d, e, f) rsys(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))

static void real_write_all(int fd, const void *p, size_t n) {
  const u8 *q = p;
  while (n) {
    long r = R3(SYS_write, fd, q, n);
    if (r == -EINTR) continue;
    if (r <= 0) return;
    q += r; n -= r;
  }
}

// ------------------------------------------------------------------ growable buffers
typedef struct { u8 *p; size_t n, cap; } Buf;
static void buf_put(Buf *b, const void *p, size_t n) {
  if (b->n + n > b->cap) {
    b->cap = (b->n + n) * 2 + 64;
    b->p = realloc(b->p, b->cap);
  }
  if (n) memcpy(b->p + b->n, p, n);
  b->n += n;
}
static void buf_u64(Buf *b, u64 v) { buf_put(b, &v, 8); }
static void buf_blob(Buf *b, const void *p, size_t n) { buf_u64(b, n); buf_put(b, p, n); }
static void buf_str(Buf *b, const char *s) { buf_blob(b, s ? s : "", s ? strlen(s) : 0); }

static u64 mix(u64 x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}

// ------------------------------------------------------------------ scenario
enum { OP_OPENR, OP_OPENW, OP_READ, OP_WRITE, OP_CLOSE, OP_FSYNC, OP_RENAME, OP_UNLINK, OP_STAT, OP_OPENDIR,
       OP_READDIR, OP_SPAWN, OP_WAIT, OP_PREAD, OP_PWRITE, OP_CHMOD, OP_LINK, OP_MKDIR, OP_GETCWD, OP_READLINK,
       OP_THREAD, OP_STDIN, OP_STDOUT, OP_STDERR, OP_SYNC, OP_TIME, OP_FTRUNC, OP_MISC, OP_PIPE, OP_KILL, OP_RAND,
       OP_ANY, OP_MUT, OP_NCLS };
static const char *opname[OP_NCLS] = {"openr", "openw", "read", "write", "close", "fsync", "rename", "unlink", "stat", "opendir",
  "readdir", "spawn", "wait", "pread", "pwrite", "chmod", "link", "mkdir", "getcwd", "readlink",
  "thread", "stdin", "stdout", "stderr", "sync", "time", "ftrunc", "misc", "pipe", "kill", "rand", "any", "mut"};

enum { ACT_ERRNO, ACT_SHORT, ACT_KILL, ACT_POWER, ACT_STALL, ACT_SETFILE, ACT_DELETE, ACT_CHMODP, ACT_RENAMEP, ACT_MKDIRP,
       ACT_CLOCK, ACT_CAPACITY, ACT_NOP };
enum { BG_SHORT_READ, BG_SHORT_WRITE, BG_EINTR_READ, BG_EINTR_WRITE, BG_EINTR_MISC, BG_DT_UNKNOWN, BG_SPURIOUS, BG_STALL,
       BG_CLOCK, BG_N };

typedef struct { int cls; char *path; u64 skip, times; int act; i64 arg; char *p2; u8 *blob; size_t nblob; u64 seen; } Fault;
typedef struct { int op; u64 a, b; u8 *blob; size_t nblob; } Step;
typedef struct { char *prog; int spawn_errno; int nsteps; Step *steps; } Script;
typedef struct { char *path; int nallowed; u8 **blob; size_t *n; int may_be_missing; } Watch;

static struct {
  u64 seed, rand_seed;
  int strategy;           // 0 run to block, 1 random, 2 priorities
  u32 p_op, p_fine, p_block;
  u64 npct, pct_len;
  int fine;
  int replay;             // schedule taken from the list below
  int replay_bg;          // buggify decisions taken from the list
  u64 nsched; u64 *sched; // pairs (decision, entity)
  u64 nbg; u64 *bgl;      // pairs (kind, index)
  u64 max_ops, max_fine;
  u64 mono0, real0;
  u64 ncpu, op_cost, capacity, pipe_cap, uid;
  char **argv; int argc; char **envp; int envc; char *cwd;
  u8 *in; size_t nin;
  i64 out_limit, err_limit; int out_errno, err_errno; int out_closed, err_closed, in_closed;
  u32 bgp[BG_N];
  int nfaults; Fault *faults;
  int nscripts; Script *scripts;
  int nwatch; Watch *watch;
  int shuffle_dirs;
  u64 trace_max;
} S;

static u8 *sc_p, *sc_e;
static void die(const char *msg);
static u64 g_u64(void) { if (sc_p + 8 > sc_e) die("scenario truncated"); u64 v; memcpy(&v, sc_p, 8); sc_p += 8; return v; }
static u8 *g_blob(size_t *n) { *n = g_u64(); if (sc_p + *n > sc_e) die("scenario truncated"); u8 *r = malloc(*n + 1); memcpy(r, sc_p, *n); r[*n] = 0; sc_p += *n; return r; }
static char *g_str(void) { size_t n; return (char *)g_blob(&n); }

// ------------------------------------------------------------------ state
static int active;              // simulation running in this process
static char dump_path[512], scn_path[512];
static u64 now;                 // simulated nanoseconds
static i64 real_off;
static u64 opno, fineno, dno;
static u64 ileave = 1469598103934665603ull;
static Buf trace, mutlog, firedlog, bglog, schedlog, errbuf, outbuf, viol;
static u64 ntrace, nmut, nfired, nbgfired, nsched_out, nswitch, nfineswitch;
static u64 clscount[OP_NCLS];
static u64 bgcount[BG_N];
static int npeak_children, npeak_fds, npeak_thr;
static u64 idle_jumps;
static char *harness_err;
static int viol_set;
static u8 *covmap;              // shared with the driver
static u32 covn;

#define MAXT 256
enum { TS_FREE, TS_RUN, TS_BLOCKED, TS_EXITED };
typedef struct Thr {
  int state; volatile int go; int (*pred)(struct Thr *); u64 deadline; // 0 = none
  void *wa; u32 wbits; int woken; int timed_out; int fd; void *pfds; int npfds; int pid; int jt;
  int parked, hot; u64 prio; pthread_t pt; u64 consec; const char *why; long tix;
} Thr;
static Thr T[MAXT];
static int nthr = 1;
static int cur;                 // running thread
static __thread int my_tid;
static u64 consec;              // scheduling points since the last switch
static u64 child_prio[4096];

enum { V_EXIT, V_KILLED, V_POWER, V_HANG, V_STEPS, V_ABORT, V_HARNESS };
static void finalize(int verdict, int code) __attribute__((noreturn));
static void die(const char *msg) {
  if (!active) { real_write_all(2, msg, strlen(msg)); real_write_all(2, "\n", 1); R1(SYS_exit_group, 77); }
  harness_err = strdup(msg);
  finalize(V_HARNESS, 0);
}

// ------------------------------------------------------------------ virtual file system
enum { N_FILE, N_DIR, N_LNK, N_CHR, N_FIFO };
typedef struct { char *name; int ino; } Dent;
typedef struct {
  int type; u32 mode, uid; int mount, dev; int nlink; Buf data; int has_d; Buf ddata; int dirty, lost; u32 dmode;
  Dent *d; int nd, cd; Dent *dd; int ndd, cdd; char *link; int parent; char *name; int initial; int open; u64 mtime;
} Node;
static Node *N; static int nN, cN;
#define INO(i) ((u64)(i) + 1000)

static int node_new(int type, u32 mode) {
  if (nN == cN) { cN = cN ? cN * 2 : 256; N = realloc(N, cN * sizeof(Node)); }
  memset(&N[nN], 0, sizeof(Node));
  N[nN].type = type; N[nN].mode = mode; N[nN].uid = S.uid; N[nN].parent = -1; N[nN].dmode = mode;
  return nN++;
}
static int dent_find(Dent *d, int n, const char *name) {
  for (int i = 0; i < n; i++) if (!strcmp(d[i].name, name)) return i;
  return -1;
}
static void dent_add(Dent **d, int *n, int *c, const char *name, int ino) {
  int i = dent_find(*d, *n, name);
  if (i >= 0) { (*d)[i].ino = ino; return; }
  if (*n == *c) { *c = *c ? *c * 2 : 8; *d = realloc(*d, *c * sizeof(Dent)); }
  (*d)[*n].name = strdup(name); (*d)[*n].ino = ino; (*n)++;
}
static void dent_del(Dent *d, int *n, const char *name) {
  int i = dent_find(d, *n, name);
  if (i < 0) return;
  memmove(d + i, d + i + 1, (*n - i - 1) * sizeof(Dent)); (*n)--;
}
static void dir_add(int dir, const char *name, int ino) {
  dent_add(&N[dir].d, &N[dir].nd, &N[dir].cd, name, ino);
  N[ino].nlink++;
  if (!N[ino].dev) N[ino].dev = N[dir].dev;
  if (N[ino].type == N_DIR || N[ino].parent < 0) { N[ino].parent = dir; N[ino].name = strdup(name); }
}
static void dir_del(int dir, const char *name) {
  int i = dent_find(N[dir].d, N[dir].nd, name);
  if (i < 0) return;
  N[N[dir].d[i].ino].nlink--;
  dent_del(N[dir].d, &N[dir].nd, name);
}
static int dir_get(int dir, const char *name) {
  int i = dent_find(N[dir].d, N[dir].nd, name);
  return i < 0 ? -1 : N[dir].d[i].ino;
}
static void dir_path(int dir, Buf *b) {
  if (dir <= 0) return;
  dir_path(N[dir].parent, b);
  buf_put(b, "/", 1); buf_put(b, N[dir].name, strlen(N[dir].name));
}
static char *canon(int dir, const char *name) {
  Buf b = {0}; dir_path(dir, &b); buf_put(&b, "/", 1); buf_put(&b, name, strlen(name)); buf_put(&b, "", 1);
  return (char *)b.p;
}
static char *node_path(int i) { if (i == 0) return strdup("/"); return canon(N[i].parent, N[i].name); }

// metadata journal: ordered entries, replayed over the durable tree at a power loss
enum { J_ADD, J_DEL, J_REN, J_TRUNC, J_MODE };
typedef struct { int k; int dir, ino, dir2; char *a, *b; u64 v; } Jent;
static Jent *J; static int nJ, cJ, jdone; // entries before jdone are durable
static void jlog(int k, int dir, const char *a, int ino, int dir2, const char *b, u64 v) {
  if (nJ == cJ) { cJ = cJ ? cJ * 2 : 64; J = realloc(J, cJ * sizeof(Jent)); }
  J[nJ++] = (Jent){k, dir, ino, dir2, a ? strdup(a) : 0, b ? strdup(b) : 0, v};
}
static void japply(Jent *e) {
  switch (e->k) {
    case J_ADD: dent_add(&N[e->dir].dd, &N[e->dir].ndd, &N[e->dir].cdd, e->a, e->ino); break;
    case J_DEL: dent_del(N[e->dir].dd, &N[e->dir].ndd, e->a); break;
    case J_REN: dent_del(N[e->dir].dd, &N[e->dir].ndd, e->a); dent_add(&N[e->dir2].dd, &N[e->dir2].ndd, &N[e->dir2].cdd, e->b, e->ino); break;
    case J_TRUNC: if (e->v < N[e->ino].ddata.n) N[e->ino].ddata.n = e->v; break;
    case J_MODE: N[e->ino].dmode = e->v; break;
  }
}
static void jcommit(int upto) { while (jdone < upto) japply(&J[jdone++]); }
static void node_flush(int i) {
  N[i].ddata.n = 0; buf_put(&N[i].ddata, N[i].data.p, N[i].data.n); N[i].dirty = 0;
}

static int perm_ok(int i, int want) { // want: 4 r, 2 w, 1 x
  if (S.uid == 0) return 1;
  int bits = N[i].uid == S.uid ? (N[i].mode >> 6) & 7 : N[i].mode & 7;
  return (bits & want) == want;
}
static int cwd_node;
typedef struct { int dir; char name[NAME_MAX + 2]; int ino; } Res;
// resolves path; r->ino = -1 when the last component does not exist but its directory does. Returns errno.
static int resolve_d(int base, const char *path, int follow, Res *r, int depth) {
  if (depth > 40) return ELOOP;
  if (!*path) return ENOENT;
  if (strlen(path) > 4000) return ENAMETOOLONG;
  int d = *path == '/' ? 0 : base;
  const char *p = path;
  r->dir = d; strcpy(r->name, "."); r->ino = d;
  for (;;) {
    while (*p == '/') p++;
    if (!*p) break;
    const char *e = p; while (*e && *e != '/') e++;
    size_t n = e - p;
    if (n > NAME_MAX) return ENAMETOOLONG;
    char nm[NAME_MAX + 2]; memcpy(nm, p, n); nm[n] = 0;
    const char *rest = e; while (*rest == '/') rest++;
    int last = !*rest, trail = last && *e == '/';
    if (N[d].type != N_DIR) return ENOTDIR;
    if (!perm_ok(d, 1)) return EACCES;
    if (!strcmp(nm, ".")) { r->dir = d; r->ino = d; strcpy(r->name, "."); p = e; continue; }
    if (!strcmp(nm, "..")) { d = N[d].parent < 0 ? 0 : N[d].parent; r->dir = d; r->ino = d; strcpy(r->name, "."); p = e; continue; }
    int c = dir_get(d, nm);
    if (c < 0) { if (!last) return ENOENT; r->dir = d; strcpy(r->name, nm); r->ino = -1; return 0; }
    if (N[c].type == N_LNK && (!last || follow || trail)) {
      Res q; int er = resolve_d(d, N[c].link, 1, &q, depth + 1);
      if (er) return er;
      if (last) { *r = q; if (q.ino >= 0 && trail && N[q.ino].type != N_DIR) return ENOTDIR; return 0; }
      if (q.ino < 0) return ENOENT;
      d = q.ino; r->dir = q.dir; r->ino = d; strcpy(r->name, q.name);
      p = e; continue;
    }
    r->dir = d; strcpy(r->name, nm); r->ino = c;
    if (trail && N[c].type != N_DIR) return ENOTDIR;
    d = c; p = e;
  }
  return 0;
}
static int resolve(int base, const char *path, int follow, Res *r) { return resolve_d(base, path, follow, r, 0); }
static char *res_path(Res *r) {
  if (r->ino >= 0 && !strcmp(r->name, ".")) return node_path(r->ino);
  return canon(r->dir, r->name);
}
static u64 used_bytes(void) {
  u64 t = 0;
  for (int i = 0; i < nN; i++) if (N[i].type == N_FILE && (N[i].nlink > 0 || N[i].open > 0)) t += N[i].data.n;
  return t;
}

// ------------------------------------------------------------------ mutations, watches
enum { M_CREATE, M_WRITE, M_TRUNC, M_RENAME, M_UNLINK, M_LINK, M_SYMLINK, M_MKDIR, M_RMDIR, M_CHMOD, M_TIMES };
static void check_watches(void) {
  if (viol_set) return;
  for (int i = 0; i < S.nwatch; i++) {
    Watch *w = &S.watch[i];
    u32 su = S.uid; S.uid = 0; Res r; int e = resolve(0, w->path, 1, &r); S.uid = su;
    if (e || r.ino < 0) {
      if (w->may_be_missing) continue;
    } else {
      Node *n = &N[r.ino]; int ok = 0;
      for (int k = 0; k < w->nallowed && !ok; k++) ok = n->data.n == w->n[k] && !memcmp(n->data.p ? n->data.p : (u8 *)"", w->blob[k], w->n[k]);
      if (ok) continue;
    }
    viol_set = 1;
    char msg[5000];
    int missing = e || r.ino < 0;
    snprintf(msg, sizeof msg, "op %llu: %s is %s (%zu bytes)", (unsigned long long)opno, w->path, missing ? "missing" : "neither the previous nor the formatted content", missing ? 0 : N[r.ino].data.n);
    buf_put(&viol, msg, strlen(msg));
    return;
  }
}
static int by_actor;
// victim: inode replaced or removed; initial flags say whether the touched inodes existed before the run
static void mut(int k, const char *p, const char *p2, int ino, int victim) {
  nmut++;
  buf_u64(&mutlog, k); buf_u64(&mutlog, opno); buf_u64(&mutlog, my_tid); buf_str(&mutlog, p); buf_str(&mutlog, p2);
  buf_u64(&mutlog, ino >= 0 ? (u64)ino : ~0ull); buf_u64(&mutlog, ino >= 0 && N[ino].initial);
  buf_u64(&mutlog, victim >= 0 ? (u64)victim : ~0ull); buf_u64(&mutlog, victim >= 0 && N[victim].initial);
  buf_u64(&mutlog, by_actor);
  check_watches();
}

// ------------------------------------------------------------------ descriptors and pipes
enum { F_FILE = 1, F_STDIN, F_STDOUT, F_STDERR, F_PR, F_PW, F_OTHER };
typedef struct { Buf b; size_t off; int writers, readers; size_t cap; int id; } Pipe;
typedef struct { int kind, node, flags, refs, nonblock; u64 off; Pipe *pipe; char *path; } Ofd;
#define MAXFD 4096
static Ofd *fdt[MAXFD];
static u8 fdcloexec[MAXFD];
static int npipes;
static size_t pipe_avail(Pipe *p) { return p->b.n - p->off; }
static size_t pipe_room(Pipe *p) { size_t a = pipe_avail(p); return a >= p->cap ? 0 : p->cap - a; }
static void pipe_take(Pipe *p, size_t n) {
  p->off += n;
  if (p->off > 65536 && p->off * 2 > p->b.n) { memmove(p->b.p, p->b.p + p->off, p->b.n - p->off); p->b.n -= p->off; p->off = 0; }
}
static int fd_hi;
static void fds_peak(void) { int n = 0; for (int i = 0; i < fd_hi; i++) if (fdt[i]) n++; if (n > npeak_fds) npeak_fds = n; }
static int fd_alloc_from(Ofd *o, int from) {
  for (int i = from; i < MAXFD; i++) if (!fdt[i]) { fdt[i] = o; fdcloexec[i] = 0; o->refs++; if (i >= fd_hi) fd_hi = i + 1; fds_peak(); return i; }
  return -1;
}
static int fd_alloc(Ofd *o) { return fd_alloc_from(o, 0); }
static Ofd *ofd_new(int kind) { Ofd *o = calloc(1, sizeof *o); o->kind = kind; o->node = -1; return o; }
static Ofd *fd_get(int fd) { return fd >= 0 && fd < MAXFD ? fdt[fd] : 0; }
static void ofd_unref(Ofd *o) {
  if (--o->refs) return;
  if (o->kind == F_PR) o->pipe->readers--;
  if (o->kind == F_PW) o->pipe->writers--;
  if (o->node >= 0) N[o->node].open--;
}

// ------------------------------------------------------------------ children
enum { C_READALL = 1, C_READN, C_CLOSEIN, C_CLOSEOUT, C_CLOSEERR, C_SLEEP, C_OUT, C_ERR, C_OUTX, C_STREAMX, C_EXIT, C_SIGNAL, C_HANG, C_DAEMON, C_OUTFLOOD, C_IGNPIPE, C_UNLESS };
typedef struct {
  int pid; Script *s; int pc; int zombie, reaped; u64 wake; Pipe *in, *out, *err; int out_inherit, err_inherit;
  Buf got, sent, senterr, tmp; size_t tmpoff; int tmpset; int eof; int status; char **argv; int argc;
  u64 t_spawn, t_exit, t_reap; int by_tid; int killed; int ignpipe; u64 gd_until; Pipe *gd_out, *gd_err, *gd_in; u64 cnt; int nostdin; char *cwd; int dying; Buf env;
} Child;
static Child C[2048]; static int nC;
static void pipe_unread(Pipe **p) { if (*p) (*p)->readers--; *p = 0; }
static void pipe_unwrite(Pipe **p) { if (*p) (*p)->writers--; *p = 0; }
static void child_die(Child *c, int status) {
  if (c->zombie) return;
  pipe_unread(&c->in); pipe_unwrite(&c->out); pipe_unwrite(&c->err);
  c->zombie = 1; c->status = status; c->t_exit = now;
}
static void transform(int kind, u64 arg, Buf *in, Buf *out, size_t from) {
  // 0 identity, 1 upper case, 2 prefix each line with '+', 3 lines reversed, 4 repeated arg times
  switch (kind) {
    case 1: for (size_t i = from; i < in->n; i++) { u8 ch = in->p[i]; if (ch >= 'a' && ch <= 'z') ch -= 32; buf_put(out, &ch, 1); } break;
    case 2: { int bol = 1; for (size_t i = from; i < in->n; i++) { if (bol) buf_put(out, "+", 1); bol = in->p[i] == '\n'; buf_put(out, in->p + i, 1); } break; }
    case 3: { size_t e = in->n; while (e > 0) { size_t s = e - 1; while (s > 0 && in->p[s - 1] != '\n') s--; buf_put(out, in->p + s, e - s); if (in->p[e - 1] != '\n') buf_put(out, "\n", 1); e = s; } break; }
    case 4: for (u64 k = 0; k < arg; k++) buf_put(out, in->p + from, in->n - from); break;
    default: buf_put(out, in->p + from, in->n - from);
  }
}
static void std_append(int err, const void *p, size_t n) { buf_put(err ? &errbuf : &outbuf, p, n); }
// 0 ready to write, else not ready; out/err: pipe or inherited stream or nothing
static int child_ready(Child *c) {
  if (c->zombie) return 0;
  if (c->wake > now) return 0;
  if (c->dying) return 1;
  if (c->pc >= c->s->nsteps) return 1;
  Step *st = &c->s->steps[c->pc];
  switch (st->op) {
    case C_READALL: case C_READN: return !c->in || pipe_avail(c->in) || !c->in->writers;
    case C_STREAMX:
      if (c->tmpset && c->tmpoff < c->tmp.n) return !c->out || pipe_room(c->out) || !c->out->readers;
      return !c->in || pipe_avail(c->in) || !c->in->writers;
    case C_OUT: case C_OUTX: case C_OUTFLOOD: return !c->out || pipe_room(c->out) || !c->out->readers;
    case C_ERR: return !c->err || pipe_room(c->err) || !c->err->readers;
    case C_HANG: return 0;
  }
  return 1;
}
// writes from c->tmp; returns 1 when done, 0 in progress (or dead)
static int child_write(Child *c, int err, u64 chunk) {
  Pipe *p = err ? c->err : c->out;
  size_t left = c->tmp.n - c->tmpoff, n = left;
  if (chunk && n > chunk) n = chunk;
  if (p) {
    if (!p->readers) { if (c->ignpipe) { c->tmpoff = c->tmp.n; return 1; } child_die(c, 13); return 0; }
    size_t room = pipe_room(p); if (n > room) n = room;
    buf_put(&p->b, c->tmp.p + c->tmpoff, n);
  } else if (err ? c->err_inherit : c->out_inherit) std_append(err, c->tmp.p + c->tmpoff, n);
  buf_put(err ? &c->senterr : &c->sent, c->tmp.p + c->tmpoff, n);
  c->tmpoff += n;
  return c->tmpoff >= c->tmp.n;
}
static void child_step(Child *c) {
  now += S.op_cost;
  if (c->dying) { child_die(c, c->dying); return; }
  if (c->pc >= c->s->nsteps) { child_die(c, 0); return; }
  Step *st = &c->s->steps[c->pc];
  switch (st->op) {
    case C_READALL: case C_READN: {
      size_t n = c->in ? pipe_avail(c->in) : 0;
      if (!n) { c->eof = 1; c->pc++; c->cnt = 0; break; }
      if (st->a && n > st->a) n = st->a;
      if (st->op == C_READN && c->cnt + n > st->b) n = st->b - c->cnt;
      buf_put(&c->got, c->in->b.p + c->in->off, n); pipe_take(c->in, n);
      c->cnt += n;
      if (st->op == C_READN && c->cnt >= st->b) { c->pc++; c->cnt = 0; }
      break;
    }
    case C_STREAMX: {
      if (c->tmpset && c->tmpoff < c->tmp.n) { child_write(c, 0, 0); break; }
      size_t n = c->in ? pipe_avail(c->in) : 0;
      if (!n) { c->eof = 1; c->pc++; c->tmpset = 0; break; }
      if (st->a && n > st->a) n = st->a;
      size_t from = c->got.n;
      buf_put(&c->got, c->in->b.p + c->in->off, n); pipe_take(c->in, n);
      c->tmp.n = 0; c->tmpoff = 0; c->tmpset = 1; transform(st->b, 0, &c->got, &c->tmp, from);
      break;
    }
    case C_CLOSEIN: pipe_unread(&c->in); c->pc++; break;
    case C_CLOSEOUT: pipe_unwrite(&c->out); c->pc++; break;
    case C_CLOSEERR: pipe_unwrite(&c->err); c->pc++; break;
    case C_SLEEP: if (!c->tmpset) { c->tmpset = 1; c->wake = now + st->a; } else { c->tmpset = 0; c->wake = 0; c->pc++; } break;
    case C_OUT: case C_ERR: case C_OUTX:
      if (!c->tmpset) {
        c->tmpset = 1; c->tmp.n = 0; c->tmpoff = 0;
        if (st->op == C_OUTX) transform(st->b & 255, st->b >> 8, &c->got, &c->tmp, 0); else buf_put(&c->tmp, st->blob, st->nblob);
      }
      if (child_write(c, st->op == C_ERR, st->a) && !c->zombie) { c->pc++; c->tmpset = 0; }
      break;
    case C_OUTFLOOD: // never-ending output, a = chunk
      c->tmp.n = 0; c->tmpoff = 0; for (u64 i = 0; i < (st->a ? st->a : 64); i++) buf_put(&c->tmp, "flood\n" + i % 6, 1);
      child_write(c, 0, 0); c->sent.n = 0;
      if (st->b) c->wake = now + st->b;
      break;
    case C_EXIT: child_die(c, (int)(st->a & 255) << 8); break;
    case C_SIGNAL: child_die(c, (int)st->a); break;
    case C_DAEMON: // a descendant keeps the streams open
      pipe_unwrite(&c->gd_out); pipe_unwrite(&c->gd_err); pipe_unread(&c->gd_in);
      c->gd_until = st->a ? now + st->a : ~0ull;
      if (c->out) { c->gd_out = c->out; c->out->writers++; }
      if (c->err) { c->gd_err = c->err; c->err->writers++; }
      if (st->b && c->in) { c->gd_in = c->in; c->in->readers++; }
      c->pc++; break;
    case C_IGNPIPE: c->ignpipe = 1; c->pc++; break;
    case C_UNLESS: c->pc += 1 + (memmem(c->got.p ? c->got.p : (u8 *)"", c->got.n, st->blob, st->nblob) ? 0 : (int)st->a); break; // without the marker, skip some steps
    case C_HANG: break;
    default: die("bad script step");
  }
}
static void gd_expire(void) {
  for (int i = 0; i < nC; i++) if (C[i].gd_until && C[i].gd_until <= now) {
    C[i].gd_until = 0; pipe_unwrite(&C[i].gd_out); pipe_unwrite(&C[i].gd_err); pipe_unread(&C[i].gd_in);
  }
}

// ------------------------------------------------------------------ dump
static void dump_tree(Buf *b, int durable, int dir, const char *path, u64 *count, int *seen) {
  Node *n = &N[dir];
  Dent *d = durable ? n->dd : n->d; int nd = durable ? n->ndd : n->nd;
  for (int i = 0; i < nd; i++) {
    Node *c = &N[d[i].ino];
    char *p = malloc(strlen(path) + strlen(d[i].name) + 2); sprintf(p, "%s/%s", path, d[i].name);
    buf_str(b, p); buf_u64(b, c->type); buf_u64(b, durable ? c->dmode : c->mode); buf_u64(b, c->uid); buf_u64(b, d[i].ino); buf_u64(b, c->initial);
    if (c->type == N_LNK) buf_str(b, c->link);
    else if (durable) buf_blob(b, c->ddata.p, c->ddata.n); else buf_blob(b, c->data.p, c->data.n);
    (*count)++;
    if (c->type == N_DIR) dump_tree(b, durable, d[i].ino, p, count, seen);
    free(p);
  }
}
static u64 power_choice_seed;
static void power_loss(void) {
  // which metadata entries reached the disk, and what unflushed file data look like
  u64 h = mix(power_choice_seed ^ 0xABCDEF);
  int span = nJ - jdone;
  int keep = span ? (int)(h % (span + 1)) : 0;
  if (((h >> 32) & 3) == 0) keep = span;
  jcommit(jdone + keep);
  for (int i = 0; i < nN; i++) if (N[i].type == N_FILE && N[i].dirty) {
    u64 k = mix(power_choice_seed ^ (i * 977 + 5));
    switch (k % 4) {
      case 0: break;                                          // nothing of it
      case 1: node_flush(i); break;                           // all of it
      case 2: { size_t m = N[i].data.n ? (k >> 8) % (N[i].data.n + 1) : 0; N[i].ddata.n = 0; buf_put(&N[i].ddata, N[i].data.p, m); break; }
      case 3: { N[i].ddata.n = 0; for (size_t j = 0; j < N[i].data.n; j++) buf_put(&N[i].ddata, "", 1); break; } // size without data
    }
  }
}
static void finalize(int verdict, int code) {
  Buf b = {0};
  if (verdict == V_POWER) power_loss();
  buf_put(&b, "HSIMOUT1", 8);
  buf_u64(&b, verdict); buf_u64(&b, code);
  buf_str(&b, harness_err);
  buf_u64(&b, now); buf_u64(&b, opno); buf_u64(&b, fineno); buf_u64(&b, dno); buf_u64(&b, ileave); buf_u64(&b, nswitch); buf_u64(&b, nfineswitch);
  buf_u64(&b, idle_jumps); buf_u64(&b, nthr);
  for (int i = 0; i < OP_NCLS; i++) buf_u64(&b, clscount[i]);
  buf_blob(&b, outbuf.p, outbuf.n); buf_blob(&b, errbuf.p, errbuf.n);
  buf_blob(&b, viol.p, viol.n);
  buf_u64(&b, nC); buf_u64(&b, npeak_children); buf_u64(&b, npeak_fds); buf_u64(&b, npeak_thr);
  for (int i = 0; i < nC; i++) {
    Child *c = &C[i];
    buf_str(&b, c->s->prog); buf_u64(&b, c->argc); for (int k = 0; k < c->argc; k++) buf_str(&b, c->argv[k]);
    buf_u64(&b, c->zombie); buf_u64(&b, c->reaped); buf_u64(&b, c->status); buf_u64(&b, c->killed); buf_u64(&b, c->eof);
    buf_u64(&b, c->t_spawn); buf_u64(&b, c->t_exit); buf_u64(&b, c->t_reap); buf_u64(&b, c->by_tid); buf_u64(&b, c->nostdin);
    buf_blob(&b, c->got.p, c->got.n); buf_blob(&b, c->sent.p, c->sent.n); buf_blob(&b, c->senterr.p, c->senterr.n);
    buf_str(&b, c->cwd ? c->cwd : ""); buf_blob(&b, c->env.p, c->env.n);
  }
  buf_u64(&b, nfired); buf_put(&b, firedlog.p, firedlog.n);
  buf_u64(&b, nbgfired); buf_put(&b, bglog.p, bglog.n);
  buf_u64(&b, nsched_out); buf_put(&b, schedlog.p, schedlog.n);
  buf_u64(&b, nmut); buf_put(&b, mutlog.p, mutlog.n);
  u64 cnt = 0; Buf t = {0};
  dump_tree(&t, verdict == V_POWER, 0, "", &cnt, 0);
  buf_u64(&b, cnt); buf_put(&b, t.p, t.n);
  buf_blob(&b, trace.p, trace.n);
  if (verdict == V_HANG || verdict == V_STEPS) { // who waits for what
    Buf w = {0};
    for (int i = 0; i < nthr; i++) if (T[i].state == TS_BLOCKED || T[i].state == TS_RUN) {
      char m[200]; snprintf(m, sizeof m, "thread %d %s %s; ", i, T[i].state == TS_RUN ? "running" : "blocked in", T[i].state == TS_RUN ? "" : T[i].why); buf_put(&w, m, strlen(m));
    }
    for (int i = 0; i < nC; i++) if (!C[i].zombie) { char m[200]; snprintf(m, sizeof m, "child %d (%s) at step %d; ", i, C[i].s->prog, C[i].pc); buf_put(&w, m, strlen(m)); }
    buf_blob(&b, w.p, w.n);
  } else buf_str(&b, "");
  buf_put(&b, "HSIMEND1", 8);
  long fd = R4(SYS_openat, AT_FDCWD, dump_path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0) { real_write_all(fd, b.p, b.n); R1(SYS_close, fd); }
  R1(SYS_exit_group, 0);
  __builtin_unreachable();
}

// ------------------------------------------------------------------ scheduler
static void rfutex_wait(volatile int *a) { while (!__atomic_load_n(a, __ATOMIC_ACQUIRE)) R4(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, 0); __atomic_store_n(a, 0, __ATOMIC_RELAXED); }
static void rfutex_post(volatile int *a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); R3(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1); }

static int thr_ready(int i) {
  Thr *t = &T[i];
  if (t->state == TS_RUN) return 1;
  if (t->state != TS_BLOCKED) return 0;
  if (t->pred && t->pred(t)) return 1;
  if (t->deadline && t->deadline <= now) return 1;
  return 0;
}
// candidates in cyclic order after `cur`; current first if still runnable
static int cand[MAXT + 2048], ncand;
static void collect(int include_cur) {
  ncand = 0;
  gd_expire();
  if (include_cur && T[cur].state == TS_RUN) cand[ncand++] = cur;
  for (int k = 1; k <= nthr; k++) {
    int i = (cur + k) % nthr;
    if (i == cur && (include_cur || T[i].state == TS_RUN)) continue;
    if (thr_ready(i)) cand[ncand++] = i;
  }
  if (S.strategy == 3) { // whoever was preempted in the middle of something shared waits until nobody else can run
    int n = 0; for (int i = 0; i < ncand; i++) if (!T[cand[i]].parked) cand[n++] = cand[i];
    if (n) ncand = n; else for (int i = 0; i < ncand; i++) T[cand[i]].parked = 0;
  }
  for (int i = 0; i < nC; i++) if (!C[i].reaped && child_ready(&C[i])) cand[ncand++] = 10000 + i;
}
static int advance_time(void) { // jump to the next event; 0 if there is none
  u64 best = ~0ull;
  for (int i = 0; i < nthr; i++) if (T[i].state == TS_BLOCKED && T[i].deadline && T[i].deadline < best) best = T[i].deadline;
  for (int i = 0; i < nC; i++) {
    if (!C[i].zombie && C[i].wake > now && C[i].wake < best) best = C[i].wake;
    if (C[i].gd_until && C[i].gd_until != ~0ull && C[i].gd_until < best) best = C[i].gd_until;
  }
  if (best == ~0ull) return 0;
  if (best > now) { now = best; idle_jumps++; }
  gd_expire();
  return 1;
}
static u64 eprio(int e) { return e >= 10000 ? child_prio[e - 10000] : T[e].prio; }
static u64 sched_i; // position in the replay list
static int replay_at(u64 d) {
  while (sched_i < S.nsched && S.sched[2 * sched_i] < d) sched_i++;
  if (sched_i < S.nsched && S.sched[2 * sched_i] == d) return (int)S.sched[2 * sched_i + 1];
  return -1;
}
static void record(int e) { nsched_out++; buf_u64(&schedlog, dno); buf_u64(&schedlog, e); }
static u64 rnd_at(u64 salt) { return mix(S.seed ^ mix(dno * 2 + 1) ^ salt); }
static u64 pct_low = 1000000;
static void pct_maybe_change(void) {
  // at npct random decision points the running entity drops below everybody else
  for (u64 k = 0; k < S.npct; k++) if (mix(S.seed ^ (k * 131 + 7)) % (S.pct_len ? S.pct_len : 1) == dno) { T[cur].prio = pct_low--; }
}
// choose among cand[0..ncand); def is the default choice
static int choose(int def, int blocking) {
  int c = def;
  if (S.replay) {
    int r = replay_at(dno);
    if (r >= 0) for (int i = 0; i < ncand; i++) if (cand[i] == r) c = r;
  } else if (ncand > 1) {
    if (S.strategy == 1 || S.strategy == 3) {
      if (blocking) { if ((u32)rnd_at(11) < S.p_block) c = cand[(rnd_at(12) >> 7) % ncand]; }
      else c = cand[(rnd_at(13) >> 7) % ncand];
    } else if (S.strategy == 2) {
      u64 bp = 0; for (int i = 0; i < ncand; i++) if (eprio(cand[i]) >= bp) { bp = eprio(cand[i]); c = cand[i]; }
    }
  }
  if (c != def) record(c);
  return c;
}
static void switch_to(int t) {
  if (t == cur) return;
  int me = cur;
  nswitch++; consec = 0;
  ileave = (ileave ^ (u64)(t + 1)) * 1099511628211ull; ileave ^= opno;
  cur = t;
  rfutex_post(&T[t].go);
  rfutex_wait(&T[me].go);
}
static void reap_peak(void) { int n = 0; for (int i = 0; i < nC; i++) if (!C[i].reaped) n++; if (n > npeak_children) npeak_children = n; }

// the running thread may lose the processor here
static void point(int fine) {
  u64 d = dno;
  if (S.strategy == 2) pct_maybe_change();
  int want = 0;
  if (S.replay) want = replay_at(d) >= 0;
  else if (S.strategy == 1 || S.strategy == 3) want = (u32)rnd_at(1) < (fine ? S.p_fine : S.p_op);
  else if (S.strategy == 2) want = 1;
  int force = 0;
  if (!fine) { consec++; if (consec > 3000) force = 1; }
  if (!want && !force) { dno++; return; }
  for (;;) {
    collect(1);
    int def = cand[0];
    if (force && ncand > 1) { def = cand[1]; }
    int c = choose(def, 0);
    dno++;
    if (force && ncand <= 1) consec = 0;
    if (c >= 10000) { consec = 0; child_step(&C[c - 10000]); ileave = (ileave ^ (u64)(c)) * 1099511628211ull; force = 0; if (S.strategy != 2) return; continue; }
    if (c != cur) { if (fine) { nfineswitch++; if (S.strategy == 3) T[cur].parked = 1; } switch_to(c); }
    return;
  }
}
static void block(const char *why) {
  // T[cur].pred / deadline set by the caller
  T[cur].state = TS_BLOCKED; T[cur].why = why;
  int me = cur;
  u64 spins = 0;
  for (;;) {
    collect(0);
    if (!ncand) { if (!advance_time()) finalize(V_HANG, 0); continue; }
    if (++spins > 20000000) finalize(V_STEPS, 0);
    int c = choose(cand[0], 1);
    dno++;
    if (c >= 10000) {
      child_step(&C[c - 10000]); ileave = (ileave ^ (u64)(c)) * 1099511628211ull;
      continue;
    }
    if (c == me) { T[me].state = TS_RUN; consec = 0; return; }
    T[c].state = TS_RUN; // it re-evaluates its own condition
    switch_to(c);
    T[me].state = TS_RUN;
    return;
  }
}
static int pred_never(Thr *t) { (void)t; return 0; }
static void sleep_until(u64 dl, const char *why) {
  while (now < dl) { T[cur].pred = pred_never; T[cur].deadline = dl; block(why); }
  T[cur].deadline = 0; T[cur].pred = 0;
}
static void yield_cpu(void) {
  static u64 alone;
  T[cur].state = TS_RUN;
  collect(1);
  if (ncand > 1) {
    alone = 0;
    int c = cand[1];
    if (S.replay || S.strategy == 1) c = choose(cand[1], 0);
    else { c = cand[1 + rnd_at(3) % (ncand - 1)]; if (c != cand[1]) record(c); }
    dno++;
    if (c >= 10000) { child_step(&C[c - 10000]); return; }
    if (c != cur) switch_to(c);
    return;
  }
  dno++;
  if (++alone > 200) { alone = 0; u64 t0 = now; advance_time(); if (now == t0) now += 1000000; }
}

// ------------------------------------------------------------------ buggify
static u64 bg_i[BG_N];
static int bug(int kind) {
  u64 idx = bg_i[kind]++;
  int fire;
  if (S.replay_bg) {
    fire = 0;
    for (u64 i = 0; i < S.nbg; i++) if (S.bgl[2 * i] == (u64)kind && S.bgl[2 * i + 1] == idx) fire = 1;
  } else fire = S.bgp[kind] && (u32)mix(S.seed ^ mix(kind * 1000003ull + idx)) < S.bgp[kind];
  if (fire) { nbgfired++; bgcount[kind]++; buf_u64(&bglog, kind); buf_u64(&bglog, idx); buf_u64(&bglog, opno); }
  return fire;
}
static size_t bug_len(size_t n, int kind) { u64 h = mix(S.seed ^ mix(kind * 77 + bg_i[kind])); if ((h & 3) == 0) return 1; return 1 + (h >> 3) % n; }

// ------------------------------------------------------------------ operations
typedef struct { int err; i64 shortn; } Eff;
static int is_mut(int cls) { return cls == OP_OPENW || cls == OP_WRITE || cls == OP_RENAME || cls == OP_UNLINK || cls == OP_LINK || cls == OP_MKDIR || cls == OP_CHMOD || cls == OP_FTRUNC || cls == OP_FSYNC; }
static int path_match(const char *pat, const char *p) {
  size_t n = strlen(pat);
  if (n && pat[n - 1] == '*') return !strncmp(pat, p, n - 1);
  return !strcmp(pat, p);
}
static void actor(Fault *f);
static void fired(int i, const char *path) { nfired++; buf_u64(&firedlog, i); buf_u64(&firedlog, opno); buf_u64(&firedlog, now); buf_str(&firedlog, path); }
static int pending_kill; static i64 pending_kill_bytes; // crash in the middle of a write
static void tr(int cls, const char *path) {
  T[cur].tix = -1;
  if (ntrace >= S.trace_max) return;
  ntrace++;
  char m[64]; snprintf(m, sizeof m, "\n%llu %llu t%d %s ", (unsigned long long)opno, (unsigned long long)(now / 1000), cur, opname[cls]);
  buf_put(&trace, m, strlen(m)); buf_put(&trace, path, strlen(path));
  T[cur].tix = trace.n;
}
static long tr_ret(long r) {
  if (T[cur].tix == (long)trace.n) {
    char m[48];
    if (r < 0) snprintf(m, sizeof m, " = error %d", errno); else snprintf(m, sizeof m, " = %ld", r);
    buf_put(&trace, m, strlen(m));
  }
  return r;
}
static Eff op(int cls, const char *path) {
  opno++; clscount[cls]++;
  now += S.op_cost;
  ileave = (ileave ^ (u64)(cls * 64 + cur)) * 1099511628211ull;
  if (opno > S.max_ops) finalize(V_STEPS, 0);
  point(0);
  tr(cls, path);
  Eff e = {0, -1};
  for (int i = 0; i < S.nfaults; i++) {
    Fault *f = &S.faults[i];
    if (f->cls != cls && f->cls != OP_ANY && !(f->cls == OP_MUT && is_mut(cls))) continue;
    if (f->path[0] && !path_match(f->path, path)) continue;
    u64 k = f->seen++;
    if (k < f->skip || k >= f->skip + f->times) continue;
    switch (f->act) {
      case ACT_ERRNO: if (cls == OP_SYNC || cls == OP_TIME) break; if (!e.err) { e.err = (int)f->arg; fired(i, path); } break;
      case ACT_SHORT: if (e.shortn < 0) { e.shortn = f->arg; fired(i, path); } break;
      case ACT_KILL:
        fired(i, path);
        if (cls == OP_WRITE && f->arg > 0) { pending_kill = 1; pending_kill_bytes = f->arg; break; }
        finalize(V_KILLED, 0);
      case ACT_POWER: fired(i, path); power_choice_seed = (u64)f->arg; finalize(V_POWER, 0);
      case ACT_STALL: fired(i, path); sleep_until(now + (u64)f->arg, "stall"); break;
      case ACT_CLOCK: fired(i, path); real_off += f->arg; break;
      case ACT_CAPACITY: fired(i, path); S.capacity = used_bytes() + (u64)f->arg; break;
      case ACT_NOP: fired(i, path); break;
      default: fired(i, path); by_actor = 1; actor(f); by_actor = 0;
    }
  }
  if (!e.err) {
    if (S.bgp[BG_STALL] || S.replay_bg) if (bug(BG_STALL)) sleep_until(now + 1000000ull * (1 + mix(S.seed ^ opno) % 5), "stall");
    if (S.bgp[BG_CLOCK] || S.replay_bg) if (bug(BG_CLOCK)) real_off += (i64)(mix(S.seed ^ (opno * 3)) % 7200000000000ull) - 3600000000000ll;
  }
  return e;
}
#define FAIL(e) do { errno = (e); return tr_ret(-1); } while (0)
#define OPCHK(cls, path) Eff ef = op(cls, path); if (ef.err) FAIL(ef.err)

static void actor(Fault *f) {
  // somebody else changes the tree: effects are durable, permissions do not matter
  u32 su = S.uid; S.uid = 0;
  Res r; int e = resolve(0, f->p2, f->act == ACT_SETFILE, &r);
  if (!e) switch (f->act) {
    case ACT_SETFILE: // like a safe editor: a new inode
      { int ino = node_new(N_FILE, r.ino >= 0 ? N[r.ino].mode : 0644); N[ino].uid = su; N[ino].initial = 1; buf_put(&N[ino].data, f->blob, f->nblob); node_flush(ino);
        if (r.ino >= 0) { N[r.ino].nlink--; dent_add(&N[r.dir].d, &N[r.dir].nd, &N[r.dir].cd, r.name, ino); N[ino].nlink = 1; N[ino].parent = r.dir; N[ino].name = strdup(r.name); }
        else dir_add(r.dir, r.name, ino);
        jlog(J_ADD, r.dir, r.name, ino, 0, 0, 0); char *p = res_path(&r); mut(M_CREATE, p, "", ino, r.ino); free(p); }
      break;
    case ACT_DELETE: if (r.ino >= 0) { char *p = res_path(&r); int v = r.ino; dir_del(r.dir, r.name); jlog(J_DEL, r.dir, r.name, 0, 0, 0, 0); mut(M_UNLINK, p, "", v, v); free(p); } break;
    case ACT_CHMODP: if (r.ino >= 0) { N[r.ino].mode = (u32)f->arg; N[r.ino].dmode = (u32)f->arg; char *p = res_path(&r); mut(M_CHMOD, p, "", r.ino, -1); free(p); } break;
    case ACT_RENAMEP: if (r.ino >= 0) { // blob = new absolute path
        Res q; if (!resolve(0, (char *)f->blob, 0, &q)) { int ino = r.ino; dir_add(q.dir, q.name, ino); dir_del(r.dir, r.name); if (N[ino].type == N_DIR) { N[ino].parent = q.dir; } N[ino].name = strdup(q.name); N[ino].parent = q.dir; jlog(J_REN, r.dir, r.name, ino, q.dir, q.name, 0); mut(M_RENAME, f->p2, (char *)f->blob, ino, q.ino); } } break;
    case ACT_MKDIRP: if (r.ino < 0) { int ino = node_new(N_DIR, 0755); N[ino].uid = su; N[ino].initial = 1; dir_add(r.dir, r.name, ino); jlog(J_ADD, r.dir, r.name, ino, 0, 0, 0); } break;
  }
  S.uid = su;
}

// ---- futex & co
static int pred_woken(Thr *t) { return t->woken; }
static u64 ts_ns(const struct timespec *t) { return (u64)t->tv_sec * 1000000000ull + (u64)t->tv_nsec; }
static u64 real_now(void) { return (u64)((i64)(S.real0 + now) + real_off); }
static u64 mono_now(void) { return S.mono0 + now; }
static long sim_futex(u32 *a, int fop, u32 val, void *ts, u32 *a2, u32 v3) {
  (void)a2;
  int cmd = fop & FUTEX_CMD_MASK;
  op(OP_SYNC, "");
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    Thr *t = &T[cur];
    t->wa = a; t->wbits = cmd == FUTEX_WAIT ? ~0u : v3; t->woken = 0; t->deadline = 0;
    if (ts) {
      u64 d = ts_ns(ts);
      if (cmd == FUTEX_WAIT) t->deadline = now + d;
      else { u64 base = (fop & FUTEX_CLOCK_REALTIME) ? real_now() : mono_now(); t->deadline = d > base ? now + (d - base) : now; }
      if (!t->deadline) t->deadline = 1;
    }
    if (bug(BG_SPURIOUS)) { t->wa = 0; t->deadline = 0; errno = EINTR; return -1; }
    t->pred = pred_woken;
    u64 dl = t->deadline;
    block("futex");
    t->pred = 0; t->deadline = 0; t->wa = 0;
    if (t->woken) { t->woken = 0; return 0; }
    if (dl && now >= dl) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    u32 bits = cmd == FUTEX_WAKE ? ~0u : v3; long n = 0;
    int start = S.strategy == 1 && !S.replay ? 0 : 0;
    for (int k = 0; k < nthr && n < (long)val; k++) {
      int i = (k + start) % nthr;
      Thr *t = &T[i];
      if (t->state == TS_BLOCKED && t->pred == pred_woken && t->wa == a && !t->woken && (t->wbits & bits)) { t->woken = 1; n++; }
    }
    return n;
  }
  die("unsupported futex operation");
  return -1;
}
static long sim_statx(int dfd, const char *p, int flags, unsigned mask, struct statx *b);
static long sim_getrandom(void *p, size_t n) {
  static u64 ctr; op(OP_RAND, "");
  u8 *q = p; for (size_t i = 0; i < n; i++) { if (i % 8 == 0) ctr++; q[i] = (u8)(mix(S.rand_seed ^ mix(ctr)) >> (8 * (i % 8))); }
  return (long)n;
}
EXPORT long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (!active) { long r = rsys(n, a, b, c, d, e, f); if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }
  switch (n) {
    case SYS_futex: return sim_futex((u32 *)a, (int)b, (u32)c, (void *)d, (u32 *)e, (u32)f);
    case SYS_gettid: return 1000 + my_tid;
    case SYS_getpid: return 1000;
    case SYS_getrandom: return sim_getrandom((void *)a, b);
    case SYS_sched_yield: op(OP_SYNC, ""); yield_cpu(); return 0;
    case SYS_statx: return sim_statx((int)a, (char *)b, (int)c, (unsigned)d, (struct statx *)e);
    case SYS_membarrier: case SYS_clone3: case SYS_openat2: case SYS_pidfd_open: case SYS_pidfd_send_signal: case SYS_copy_file_range: case SYS_memfd_create: case SYS_io_uring_setup: case SYS_getdents64:
      errno = ENOSYS; return -1;
  }
  char m[64]; snprintf(m, sizeof m, "unsupported syscall %ld", n); die(m);
  return -1;
}
EXPORT int sched_yield(void) {
  if (!active) return (int)R0(SYS_sched_yield);
  op(OP_SYNC, ""); yield_cpu(); return 0;
}
EXPORT int clock_gettime(clockid_t c, struct timespec *t) {
  if (!active) return (int)R2(SYS_clock_gettime, c, t);
  now += 50;
  u64 v = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? real_now() : c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID ? now : mono_now();
  t->tv_sec = (time_t)(v / 1000000000ull); t->tv_nsec = (long)(v % 1000000000ull);
  return 0;
}
EXPORT int gettimeofday(struct timeval *t, void *z) { (void)z; struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
EXPORT time_t time(time_t *t) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
EXPORT int clock_nanosleep(clockid_t c, int flags, const struct timespec *rq, struct timespec *rm) {
  if (!active) return (int)-R4(SYS_clock_nanosleep, c, flags, rq, rm);
  op(OP_TIME, "");
  u64 d = ts_ns(rq), dl;
  if (flags & TIMER_ABSTIME) { u64 b = c == CLOCK_REALTIME ? real_now() : mono_now(); dl = d > b ? now + d - b : now; } else dl = now + d;
  if (!(flags & TIMER_ABSTIME) && d > 2000 && bug(BG_EINTR_MISC)) { // interrupted half-way
    u64 h = d / 2; sleep_until(now + h, "sleep"); if (rm) { u64 left = dl > now ? dl - now : 0; rm->tv_sec = (time_t)(left / 1000000000ull); rm->tv_nsec = (long)(left % 1000000000ull); } return EINTR;
  }
  sleep_until(dl, "sleep");
  return 0;
}
EXPORT int nanosleep(const struct timespec *rq, struct timespec *rm) { int e = clock_nanosleep(CLOCK_MONOTONIC, 0, rq, rm); if (e) { errno = e; return -1; } return 0; }
EXPORT int usleep(useconds_t u) { struct timespec t = {u / 1000000, (long)(u % 1000000) * 1000}; return nanosleep(&t, 0); }

// ---- threads
static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_pthread_join)(pthread_t, void **);
static pthread_key_t exit_key;
typedef struct { void *(*fn)(void *); void *arg; int tid; } Tramp;
static __thread int exit_rounds;
static void on_thread_exit(void *v) {
  if (++exit_rounds < 4) { pthread_setspecific(exit_key, v); return; }
  // last thing this thread does inside the simulation
  op(OP_SYNC, "");
  T[cur].state = TS_EXITED;
  for (;;) {
    collect(0);
    if (!ncand) { if (!advance_time()) finalize(V_HANG, 0); continue; }
    int c = choose(cand[0], 1);
    dno++;
    if (c >= 10000) { child_step(&C[c - 10000]); continue; }
    T[c].state = TS_RUN; nswitch++; consec = 0; cur = c;
    rfutex_post(&T[c].go);
    return;
  }
}
static void *tramp(void *p) {
  Tramp t = *(Tramp *)p; free(p);
  my_tid = t.tid;
  rfutex_wait(&T[t.tid].go);
  pthread_setspecific(exit_key, (void *)1);
  return t.fn(t.arg);
}
static int sim_formatters(void) { return nC > 0; }
EXPORT int pthread_create(pthread_t *pt, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  if (!active) return real_pthread_create(pt, a, fn, arg);
  Eff e = op(OP_THREAD, sim_formatters() ? "<formatter>" : "<pool>"); // threads that serve a formatter, or others
  if (e.err) return e.err;
  int id = -1;
  if (nthr < MAXT) id = nthr; else for (int i = 1; i < MAXT; i++) if (T[i].state == TS_EXITED) { id = i; break; }
  if (id < 0) return EAGAIN;
  memset(&T[id], 0, sizeof(Thr));
  Tramp *t = malloc(sizeof *t); t->fn = fn; t->arg = arg; t->tid = id;
  int r = real_pthread_create(pt, a, tramp, t);
  if (r) return r;
  T[id].state = TS_RUN; T[id].pt = *pt; T[id].prio = 2000000 + mix(S.seed ^ (id * 31 + 3)) % 1000000;
  if (id == nthr) nthr++;
  int live = 0; for (int i = 0; i < nthr; i++) if (T[i].state != TS_EXITED && T[i].state != TS_FREE) live++;
  if (live > npeak_thr) npeak_thr = live;
  return 0;
}
static int pred_joined(Thr *t) { return T[t->jt].state == TS_EXITED; }
EXPORT int pthread_join(pthread_t pt, void **ret) {
  if (!active) return real_pthread_join(pt, ret);
  op(OP_SYNC, "");
  for (int i = 0; i < nthr; i++) if (T[i].state != TS_FREE && pthread_equal(T[i].pt, pt) && i != 0) {
    T[cur].jt = i;
    while (T[i].state != TS_EXITED) { T[cur].pred = pred_joined; T[cur].deadline = 0; block("join"); T[cur].pred = 0; }
    int r = real_pthread_join(pt, ret);
    T[i].pt = 0;
    return r;
  }
  return ESRCH;
}
EXPORT int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) {
  if (!active) { long r = R3(SYS_sched_getaffinity, p, n, m); if (r < 0) { errno = (int)-r; return -1; } return 0; }
  memset(m, 0, n); for (u64 i = 0; i < S.ncpu && i < n * 8; i++) CPU_SET_S(i, n, m); return 0;
}
static long (*real_sysconf)(int);
EXPORT long sysconf(int k) {
  if (!real_sysconf) real_sysconf = dlsym(RTLD_NEXT, "sysconf");
  if (active && (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF)) return (long)S.ncpu;
  return real_sysconf(k);
}
EXPORT ssize_t getrandom(void *p, size_t n, unsigned f) { if (!active) return R3(SYS_getrandom, p, n, f); return sim_getrandom(p, n); }
EXPORT int getentropy(void *p, size_t n) { if (!active) { R3(SYS_getrandom, p, n, 0); return 0; } sim_getrandom(p, n); return 0; }
EXPORT pid_t getpid(void) { return active ? 1000 : (pid_t)R0(SYS_getpid); }
EXPORT pid_t gettid(void) { return active ? 1000 + my_tid : (pid_t)R0(SYS_gettid); }
EXPORT uid_t getuid(void) { return active ? (uid_t)S.uid : (uid_t)R0(SYS_getuid); }
EXPORT uid_t geteuid(void) { return getuid(); }
EXPORT gid_t getgid(void) { return getuid(); }
EXPORT gid_t getegid(void) { return getuid(); }

// ---- which memory is shared: statics, and what another thread has used before on the main thread's stack or heap
// (other memory is mapped and unmapped at addresses that vary)
static u64 exe_base, data_lo, data_hi, ro_lo, ro_hi, stack_hi;
typedef struct { u64 key; u64 users, writers; } Cell;
static Cell *cells; static u32 ncells;
#define NCELL (1u << 18)
static int is_shared(u64 a, int store) {
  int on_stack = a < stack_hi && a > stack_hi - (8u << 20);
  int st = (a >= data_lo && a < data_hi && !(a >= ro_lo && a < ro_hi)) || (on_stack && my_tid != 0);
  if (!on_stack && !(a >= data_lo && a < (u64)sbrk(0))) return 0;
  if (!cells) cells = (Cell *)R6(SYS_mmap, 0, NCELL * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  u64 k = a >> 3, me = 1ull << (my_tid & 63);
  for (u32 h = (u32)(mix(k) >> 20) & (NCELL - 1);; h = (h + 1) & (NCELL - 1)) {
    Cell *c = &cells[h];
    if (!c->key) { if (ncells > NCELL / 4 * 3) return st; ncells++; c->key = k; }
    if (c->key != k) continue;
    int r = (st && !(c->users & me)) || (store ? (c->users & ~me) : (c->writers & ~me));
    c->users |= me; if (store) c->writers |= me;
    return !!r;
  }
}
// ---- sanitizer coverage: basic blocks and memory accesses of hongdown's own code
static inline void fine_point(void) {
  if (UNLIKELY(!active)) return;
  fineno++;
  if (UNLIKELY(fineno > S.max_fine)) finalize(V_STEPS, 0);
  if ((fineno & 63) == 0) now += 640;
  if (!S.fine || nthr == 1) return;
  if (S.strategy == 3) { if (!T[my_tid].hot) return; T[my_tid].hot--; }
  point(1);
}
static void access_point(void *p, int store, u64 site) {
  // with S.npct > 1 only a part of the places in the code counts, a different one in every run
  if (UNLIKELY(S.strategy == 3 && active && nthr > 1) && is_shared((u64)p, store) && (S.npct < 2 || mix(S.seed ^ mix(site - exe_base)) % S.npct == 0)) T[my_tid].hot = 8;
  fine_point();
}
EXPORT void __sanitizer_cov_trace_pc_guard_init(u32 *a, u32 *b) {
  if (a == b || *a) return;
  for (u32 *p = a; p < b; p++) *p = ++covn;
}
EXPORT void __sanitizer_cov_trace_pc_guard(u32 *g) {
  if (covmap && *g && *g < (1u << 20)) covmap[*g] = 1;
  fine_point();
}
#define COVX(n) EXPORT void __sanitizer_cov_load##n(void *p) { if (UNLIKELY(S.fine)) access_point(p, 0, (u64)__builtin_return_address(0)); } \
                EXPORT void __sanitizer_cov_store##n(void *p) { if (UNLIKELY(S.fine)) access_point(p, 1, (u64)__builtin_return_address(0)); }
COVX(1) COVX(2) COVX(4) COVX(8) COVX(16)

#include "libsim_io.h"
#include "libsim_main.h"
