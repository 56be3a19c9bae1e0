// libc I/O entry points of the simulator (part of libsim.c)
static char *node_or_root_path(int i) { return node_path(i); }
static char *mpath(int base, const char *p, int follow) {
  u32 su = S.uid; S.uid = 0; Res r; int e = resolve(base, p, follow, &r); S.uid = su;
  if (!e) return res_path(&r);
  if (*p == '/') return strdup(p);
  char *b = node_or_root_path(base); char *q = malloc(strlen(b) + strlen(p) + 2); sprintf(q, "%s/%s", b, p); free(b); return q;
}
static int base_of(int dfd, int *err) {
  if (dfd == AT_FDCWD) return cwd_node;
  Ofd *o = fd_get(dfd);
  if (!o || o->node < 0) { *err = EBADF; return -1; }
  return o->node;
}
static int sim_openat(int dfd, const char *p, int flags, u32 mode) {
  int er = 0; int base = *p == '/' ? 0 : base_of(dfd, &er); if (base < 0) { errno = er; return -1; }
  int acc = flags & O_ACCMODE;
  int w = acc != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  int follow = !(flags & O_NOFOLLOW) && !((flags & O_CREAT) && (flags & O_EXCL));
  char *mp = mpath(base, p, follow);
  Eff ef = op(w ? OP_OPENW : OP_OPENR, mp);
  if (ef.err) { free(mp); FAIL(ef.err); }
  if (bug(BG_EINTR_MISC)) { free(mp); FAIL(EINTR); }
  Res r; int e = resolve(base, p, follow, &r);
  if (e) { free(mp); FAIL(e); }
  int created = 0;
  if (r.ino < 0) {
    if (!(flags & O_CREAT)) { free(mp); FAIL(ENOENT); }
    if (!perm_ok(r.dir, 2)) { free(mp); FAIL(EACCES); }
    if ((flags & O_TMPFILE) == O_TMPFILE) { free(mp); FAIL(EOPNOTSUPP); }
    r.ino = node_new(N_FILE, mode & 0777 & ~022u);
    N[r.ino].dirty = 1; dir_add(r.dir, r.name, r.ino); jlog(J_ADD, r.dir, r.name, r.ino, 0, 0, 0); created = 1;
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) { free(mp); FAIL(EEXIST); }
    if (N[r.ino].type == N_LNK) { free(mp); FAIL(ELOOP); }
    if (N[r.ino].type == N_DIR && (acc != O_RDONLY || (flags & O_CREAT))) { free(mp); FAIL(EISDIR); }
    if ((flags & O_DIRECTORY) && N[r.ino].type != N_DIR) { free(mp); FAIL(ENOTDIR); }
    if ((acc == O_RDONLY || acc == O_RDWR) && !perm_ok(r.ino, 4)) { free(mp); FAIL(EACCES); }
    if (acc != O_RDONLY && !perm_ok(r.ino, 2)) { free(mp); FAIL(EACCES); }
  }
  // a FIFO has to wait for its other end, which nobody ever opens
  if (N[r.ino].type == N_FIFO && !(flags & O_NONBLOCK)) { T[cur].pred = pred_never; T[cur].deadline = 0; block("open a FIFO"); }
  Ofd *o = ofd_new(F_FILE); o->node = r.ino; o->flags = flags; o->path = res_path(&r); free(mp);
  int fd = fd_alloc(o); if (fd < 0) FAIL(EMFILE);
  fdcloexec[fd] = !!(flags & O_CLOEXEC);
  N[r.ino].open++;
  if (created) mut(M_CREATE, o->path, "", r.ino, -1);
  else if ((flags & O_TRUNC) && N[r.ino].type == N_FILE && acc != O_RDONLY && N[r.ino].data.n) {
    N[r.ino].data.n = 0; N[r.ino].dirty = 1; jlog(J_TRUNC, 0, 0, r.ino, 0, 0, 0); mut(M_TRUNC, o->path, "", r.ino, r.ino);
  }
  return (int)tr_ret(fd);
}
#define VMODE u32 mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, u32); va_end(ap); }
static int ret_real(long r) { if (r < 0) { errno = (int)-r; return -1; } return (int)r; }
EXPORT int open(const char *p, int flags, ...) { VMODE if (!active) return ret_real(R4(SYS_openat, AT_FDCWD, p, flags, mode)); return sim_openat(AT_FDCWD, p, flags, mode); }
EXPORT int open64(const char *p, int flags, ...) { VMODE if (!active) return ret_real(R4(SYS_openat, AT_FDCWD, p, flags, mode)); return sim_openat(AT_FDCWD, p, flags, mode); }
EXPORT int openat(int d, const char *p, int flags, ...) { VMODE if (!active) return ret_real(R4(SYS_openat, d, p, flags, mode)); return sim_openat(d, p, flags, mode); }
EXPORT int openat64(int d, const char *p, int flags, ...) { VMODE if (!active) return ret_real(R4(SYS_openat, d, p, flags, mode)); return sim_openat(d, p, flags, mode); }
EXPORT int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat64(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int sigpipe_ign;
static long epipe(void) { if (!sigpipe_ign) finalize(V_ABORT, 128 + SIGPIPE); FAIL(EPIPE); }
static int pred_pipe_r(Thr *t) { Ofd *o = fdt[t->fd]; return !o || pipe_avail(o->pipe) || !o->pipe->writers; }
static int pred_pipe_w(Thr *t) { Ofd *o = fdt[t->fd]; return !o || pipe_room(o->pipe) || !o->pipe->readers; }

static ssize_t sim_read(int fd, void *b, size_t n, i64 at) {
  Ofd *o = fd_get(fd);
  if (!o) { errno = EBADF; return -1; }
  switch (o->kind) {
    case F_FILE: {
      OPCHK(OP_READ, o->path);
      if (N[o->node].type == N_DIR) FAIL(EISDIR);
      if ((o->flags & O_ACCMODE) == O_WRONLY) FAIL(EBADF);
      if (N[o->node].type == N_FIFO) return tr_ret(0);
      if (bug(BG_EINTR_READ)) FAIL(EINTR);
      u64 off = at >= 0 ? (u64)at : o->off;
      size_t have = off < N[o->node].data.n ? N[o->node].data.n - off : 0;
      if (n > have) n = have;
      if (ef.shortn >= 0 && n > (size_t)ef.shortn && ef.shortn > 0) n = ef.shortn;
      if (n > 1 && bug(BG_SHORT_READ)) n = bug_len(n, BG_SHORT_READ);
      if (n) memcpy(b, N[o->node].data.p + off, n);
      if (at < 0) o->off += n;
      return tr_ret(n);
    }
    case F_STDIN: {
      OPCHK(OP_STDIN, "<stdin>");
      if (bug(BG_EINTR_READ)) FAIL(EINTR);
      size_t have = S.nin - o->off; if (n > have) n = have;
      if (ef.shortn > 0 && n > (size_t)ef.shortn) n = ef.shortn;
      if (n > 1 && bug(BG_SHORT_READ)) n = bug_len(n, BG_SHORT_READ);
      memcpy(b, S.in + o->off, n); o->off += n; return tr_ret(n);
    }
    case F_PR: {
      OPCHK(OP_PREAD, "<pipe>");
      if (n == 0) return 0;
      if (bug(BG_EINTR_READ)) FAIL(EINTR);
      while (!pipe_avail(o->pipe)) {
        if (!o->pipe->writers) return tr_ret(0);
        if (o->nonblock) FAIL(EAGAIN);
        T[cur].fd = fd; T[cur].pred = pred_pipe_r; T[cur].deadline = 0; block("read from a formatter"); T[cur].pred = 0;
        if (!fdt[fd]) FAIL(EBADF);
      }
      if (n > pipe_avail(o->pipe)) n = pipe_avail(o->pipe);
      if (ef.shortn > 0 && n > (size_t)ef.shortn) n = ef.shortn;
      if (n > 1 && bug(BG_SHORT_READ)) n = bug_len(n, BG_SHORT_READ);
      memcpy(b, o->pipe->b.p + o->pipe->off, n); pipe_take(o->pipe, n); return tr_ret(n);
    }
  }
  errno = EBADF; return -1;
}
static void file_write_at(int ino, u64 off, const void *b, size_t n) {
  Buf *d = &N[ino].data;
  while (d->n < off) buf_put(d, "", 1);
  size_t over = d->n - off < n ? d->n - off : n;
  memcpy(d->p ? d->p + off : 0, b, over);
  buf_put(d, (const u8 *)b + over, n - over);
  N[ino].dirty = 1; N[ino].lost = 0; N[ino].mtime = now;
}
static ssize_t sim_write(int fd, const void *b, size_t n, i64 at) {
  Ofd *o = fd_get(fd);
  if (!o) { errno = EBADF; return -1; }
  switch (o->kind) {
    case F_FILE: {
      OPCHK(OP_WRITE, o->path);
      if ((o->flags & O_ACCMODE) == O_RDONLY) FAIL(EBADF);
      if (N[o->node].type != N_FILE) return tr_ret(n);
      if (bug(BG_EINTR_WRITE)) FAIL(EINTR);
      if (n == 0) return tr_ret(0);
      u64 off = (o->flags & O_APPEND) ? N[o->node].data.n : at >= 0 ? (u64)at : o->off;
      if (ef.shortn > 0 && n > (size_t)ef.shortn) n = ef.shortn;
      if (n > 1 && bug(BG_SHORT_WRITE)) n = bug_len(n, BG_SHORT_WRITE);
      if (S.capacity != ~0ull) {
        u64 used = used_bytes(), room = S.capacity > used ? S.capacity - used : 0;
        u64 cursz = N[o->node].data.n, free_over = cursz > off ? cursz - off : 0;
        if (n > free_over + room) n = free_over + room;
        if (!n) FAIL(ENOSPC);
      }
      if (pending_kill && (i64)n > pending_kill_bytes) n = pending_kill_bytes;
      file_write_at(o->node, off, b, n);
      if (at < 0) o->off = off + n;
      mut(M_WRITE, o->path, "", o->node, o->node);
      if (pending_kill) finalize(V_KILLED, 0);
      return tr_ret(n);
    }
    case F_STDOUT: case F_STDERR: {
      int er = o->kind == F_STDERR;
      OPCHK(er ? OP_STDERR : OP_STDOUT, er ? "<stderr>" : "<stdout>");
      if (bug(BG_EINTR_WRITE)) FAIL(EINTR);
      if (ef.shortn > 0 && n > (size_t)ef.shortn) n = ef.shortn;
      if (n > 1 && bug(BG_SHORT_WRITE)) n = bug_len(n, BG_SHORT_WRITE);
      i64 lim = er ? S.err_limit : S.out_limit; Buf *d = er ? &errbuf : &outbuf; int le = er ? S.err_errno : S.out_errno;
      if (lim >= 0) {
        size_t room = d->n < (size_t)lim ? (size_t)lim - d->n : 0;
        if (n > room) n = room;
        if (!n) { fired(er ? 1001 : 1000, er ? "<stderr>" : "<stdout>"); if (le == EPIPE) return epipe(); FAIL(le); }
      }
      buf_put(d, b, n);
      return tr_ret(n);
    }
    case F_PW: {
      OPCHK(OP_PWRITE, "<pipe>");
      if (n == 0) return 0;
      if (bug(BG_EINTR_WRITE)) FAIL(EINTR);
      size_t done = 0;
      while (done < n) { // a blocking write returns when everything is in the pipe
        if (!o->pipe->readers) { if (done) return tr_ret(done); return epipe(); }
        size_t room = pipe_room(o->pipe);
        if (!room) {
          if (o->nonblock) { if (done) return tr_ret(done); FAIL(EAGAIN); }
          T[cur].fd = fd; T[cur].pred = pred_pipe_w; T[cur].deadline = 0; block("write to a formatter"); T[cur].pred = 0;
          if (!fdt[fd]) FAIL(EBADF);
          continue;
        }
        size_t k = n - done < room ? n - done : room;
        buf_put(&o->pipe->b, (const u8 *)b + done, k); done += k;
        if (n > 1 && bug(BG_SHORT_WRITE)) break;
      }
      return tr_ret(done);
    }
  }
  errno = EBADF; return -1;
}
EXPORT ssize_t read(int fd, void *b, size_t n) { if (!active) return ret_real(R3(SYS_read, fd, b, n)); return sim_read(fd, b, n, -1); }
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return sim_read(fd, b, n, o); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off_t o) { return sim_read(fd, b, n, o); }
EXPORT ssize_t write(int fd, const void *b, size_t n) { if (!active) { long r = R3(SYS_write, fd, b, n); if (r < 0) { errno = (int)-r; return -1; } return r; } return sim_write(fd, b, n, -1); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return sim_write(fd, b, n, o); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return sim_write(fd, b, n, o); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) { for (int i = 0; i < c; i++) if (v[i].iov_len) return sim_read(fd, v[i].iov_base, v[i].iov_len, -1); return 0; }
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!active) { long r = R3(SYS_writev, fd, v, c); if (r < 0) { errno = (int)-r; return -1; } return r; }
  Buf b = {0}; for (int i = 0; i < c; i++) buf_put(&b, v[i].iov_base, v[i].iov_len);
  ssize_t r = sim_write(fd, b.p ? (void *)b.p : (void *)"", b.n, -1); int e = errno; free(b.p); errno = e; return r;
}
EXPORT int close(int fd) {
  if (!active) return ret_real(R1(SYS_close, fd));
  Ofd *o = fd_get(fd);
  if (!o) { errno = EBADF; return -1; }
  Eff ef = op(OP_CLOSE, o->path ? o->path : o->kind == F_PR || o->kind == F_PW ? "<pipe>" : "<std>");
  fdt[fd] = 0; ofd_unref(o);
  if (ef.err) FAIL(ef.err);
  return (int)tr_ret(0);
}
static off_t sim_lseek(int fd, off_t off, int wh) {
  Ofd *o = fd_get(fd);
  if (!o) { errno = EBADF; return -1; }
  if (o->kind != F_FILE) { errno = ESPIPE; return -1; }
  i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)o->off : (i64)N[o->node].data.n;
  if (b + off < 0) { errno = EINVAL; return -1; }
  o->off = b + off; return o->off;
}
EXPORT off_t lseek(int fd, off_t off, int wh) { if (!active) return R3(SYS_lseek, fd, off, wh); return sim_lseek(fd, off, wh); }
EXPORT off_t lseek64(int fd, off_t off, int wh) { if (!active) return R3(SYS_lseek, fd, off, wh); return sim_lseek(fd, off, wh); }
static int sim_ftrunc(int fd, off_t n) {
  Ofd *o = fd_get(fd); if (!o || o->node < 0) { errno = EBADF; return -1; }
  OPCHK(OP_FTRUNC, o->path);
  if ((o->flags & O_ACCMODE) == O_RDONLY) FAIL(EINVAL);
  if ((size_t)n < N[o->node].data.n) { N[o->node].data.n = n; jlog(J_TRUNC, 0, 0, o->node, 0, 0, n); } else while (N[o->node].data.n < (size_t)n) buf_put(&N[o->node].data, "", 1);
  N[o->node].dirty = 1; mut(M_TRUNC, o->path, "", o->node, o->node); return (int)tr_ret(0);
}
EXPORT int ftruncate(int fd, off_t n) { return sim_ftrunc(fd, n); }
EXPORT int ftruncate64(int fd, off_t n) { return sim_ftrunc(fd, n); }
EXPORT int truncate(const char *p, off_t n) { int fd = open(p, O_WRONLY); if (fd < 0) return -1; int r = sim_ftrunc(fd, n); close(fd); return r; }
EXPORT int truncate64(const char *p, off_t n) { return truncate(p, n); }
static int sim_fsync(int fd) {
  Ofd *o = fd_get(fd); if (!o) { errno = EBADF; return -1; }
  Eff ef = op(OP_FSYNC, o->path ? o->path : "<std>");
  if (ef.err) {
    // the pages count as clean from now on: what is lost is not tried again by another fsync
    if (o->node >= 0 && N[o->node].dirty && (ef.err == EIO || ef.err == ENOSPC || ef.err == EDQUOT)) N[o->node].lost = 1;
    FAIL(ef.err);
  }
  if (bug(BG_EINTR_MISC)) FAIL(EINTR);
  if (o->node >= 0) { if (N[o->node].type == N_FILE && !N[o->node].lost) node_flush(o->node); jcommit(nJ); }
  now += 2000000; // a disk flush takes a while
  return (int)tr_ret(0);
}
EXPORT int fsync(int fd) { if (!active) return ret_real(R1(SYS_fsync, fd)); return sim_fsync(fd); }
EXPORT int fdatasync(int fd) { if (!active) return ret_real(R1(SYS_fdatasync, fd)); return sim_fsync(fd); }
EXPORT void sync(void) { if (!active) return; op(OP_FSYNC, ""); for (int i = 0; i < nN; i++) if (N[i].dirty && !N[i].lost) node_flush(i); jcommit(nJ); }
EXPORT int syncfs(int fd) { (void)fd; sync(); return 0; }

// ---- metadata
static u32 ftype(int t) { return t == N_DIR ? S_IFDIR : t == N_LNK ? S_IFLNK : t == N_CHR ? S_IFCHR : t == N_FIFO ? S_IFIFO : S_IFREG; }
static void fill_stat(int ino, Ofd *o, struct stat *s) {
  memset(s, 0, sizeof *s);
  s->st_blksize = 4096; s->st_dev = 42; s->st_mtime = 1700000000; s->st_ctime = 1700000000; s->st_atime = 1700000000;
  if (ino < 0) { s->st_mode = S_IFIFO | 0600; s->st_ino = 5 + (o ? o->kind : 0); s->st_nlink = 1; return; }
  Node *n = &N[ino];
  s->st_dev = n->dev; s->st_ino = INO(ino); s->st_mode = ftype(n->type) | n->mode; s->st_nlink = n->type == N_DIR ? 2 : n->nlink; s->st_uid = n->uid; s->st_gid = n->uid;
  s->st_size = n->type == N_LNK ? (off_t)strlen(n->link) : (off_t)n->data.n; s->st_blocks = (s->st_size + 511) / 512;
  s->st_mtime += n->mtime / 1000000000; if (n->type == N_CHR) s->st_rdev = 0x103;
}
static int stat_node(int dfd, const char *p, int flags, int *ino, Ofd **of) {
  *of = 0;
  if (!*p && (flags & AT_EMPTY_PATH)) {
    Ofd *o = fd_get(dfd); if (!o && dfd != AT_FDCWD) { errno = EBADF; return -1; }
    OPCHK(OP_STAT, o && o->path ? o->path : "<fd>");
    *ino = o ? o->node : cwd_node; *of = o; return (int)tr_ret(0);
  }
  int er = 0, base = *p == '/' ? 0 : base_of(dfd, &er); if (base < 0) { errno = er; return -1; }
  int follow = !(flags & AT_SYMLINK_NOFOLLOW);
  char *mp = mpath(base, p, follow); Eff ef = op(OP_STAT, mp); free(mp); if (ef.err) FAIL(ef.err);
  Res r; int e = resolve(base, p, follow, &r); if (!e && r.ino < 0) e = ENOENT;
  if (e) FAIL(e);
  *ino = r.ino; return (int)tr_ret(0);
}
static int sim_fstatat(int dfd, const char *p, struct stat *s, int flags) {
  int ino; Ofd *o; if (stat_node(dfd, p, flags, &ino, &o)) return -1; fill_stat(ino, o, s); return 0;
}
static long sim_statx(int dfd, const char *p, int flags, unsigned mask, struct statx *b) {
  (void)mask;
  int ino; Ofd *o; if (!p) { errno = EFAULT; return -1; }
  if (stat_node(dfd, p, flags, &ino, &o)) return -1;
  struct stat s; fill_stat(ino, o, &s);
  memset(b, 0, sizeof *b);
  b->stx_mask = STATX_BASIC_STATS; b->stx_blksize = 4096; b->stx_nlink = s.st_nlink; b->stx_uid = s.st_uid; b->stx_gid = s.st_gid; b->stx_mode = s.st_mode; b->stx_ino = s.st_ino;
  b->stx_size = s.st_size; b->stx_blocks = s.st_blocks; b->stx_mtime.tv_sec = s.st_mtime; b->stx_atime.tv_sec = s.st_atime; b->stx_ctime.tv_sec = s.st_ctime; b->stx_dev_minor = s.st_dev;
  return 0;
}
EXPORT int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict b) { if (!active) return ret_real(R6(SYS_statx, d, p, f, m, b, 0)); return (int)sim_statx(d, p, f, m, b); }
#define RSTAT(d, p, s, f) if (!active) return ret_real(R4(SYS_newfstatat, d, p, s, f))
EXPORT int stat(const char *restrict p, struct stat *restrict s) { RSTAT(AT_FDCWD, p, s, 0); return sim_fstatat(AT_FDCWD, p, s, 0); }
EXPORT int stat64(const char *restrict p, struct stat64 *restrict s) { RSTAT(AT_FDCWD, p, s, 0); return sim_fstatat(AT_FDCWD, p, (struct stat *)s, 0); }
EXPORT int lstat(const char *restrict p, struct stat *restrict s) { RSTAT(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); return sim_fstatat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
EXPORT int lstat64(const char *restrict p, struct stat64 *restrict s) { RSTAT(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); return sim_fstatat(AT_FDCWD, p, (struct stat *)s, AT_SYMLINK_NOFOLLOW); }
EXPORT int fstat(int fd, struct stat *s) { RSTAT(fd, "", s, AT_EMPTY_PATH); return sim_fstatat(fd, "", s, AT_EMPTY_PATH); }
EXPORT int fstat64(int fd, struct stat64 *s) { RSTAT(fd, "", s, AT_EMPTY_PATH); return sim_fstatat(fd, "", (struct stat *)s, AT_EMPTY_PATH); }
EXPORT int fstatat(int d, const char *restrict p, struct stat *restrict s, int f) { RSTAT(d, p, s, f); return sim_fstatat(d, p, s, f); }
EXPORT int fstatat64(int d, const char *restrict p, struct stat64 *restrict s, int f) { RSTAT(d, p, s, f); return sim_fstatat(d, p, (struct stat *)s, f); }
EXPORT int faccessat(int d, const char *p, int mode, int fl) {
  if (!active) return ret_real(R3(SYS_faccessat, d, p, mode));
  int ino; Ofd *o; if (stat_node(d, p, fl & AT_SYMLINK_NOFOLLOW, &ino, &o)) return -1;
  if (mode && !perm_ok(ino, mode)) { errno = EACCES; return -1; }
  return 0;
}
EXPORT int access(const char *p, int mode) { return faccessat(AT_FDCWD, p, mode, 0); }
EXPORT int euidaccess(const char *p, int mode) { return faccessat(AT_FDCWD, p, mode, 0); }
EXPORT int statfs64(const char *p, struct statfs64 *s) { (void)p; memset(s, 0, sizeof *s); s->f_bsize = 4096; s->f_bfree = s->f_bavail = 1000000; return 0; }
EXPORT int fstatfs64(int fd, struct statfs64 *s) { (void)fd; return statfs64("", s); }

typedef struct { int fd, node; int n, i; char **names; int *inos; struct dirent64 de; char *path; int ownfd; } SDir;
static DIR *sim_fdopendir(int fd) {
  Ofd *o = fdt[fd]; SDir *d = calloc(1, sizeof *d); d->fd = fd; d->node = o->node; d->path = strdup(o->path);
  Node *n = &N[o->node]; d->names = malloc(sizeof(char *) * (n->nd + 2)); d->inos = malloc(sizeof(int) * (n->nd + 2));
  d->names[0] = "."; d->inos[0] = o->node; d->names[1] = ".."; d->inos[1] = n->parent < 0 ? 0 : n->parent; d->n = 2;
  for (int i = 0; i < n->nd; i++) { d->names[d->n] = strdup(n->d[i].name); d->inos[d->n++] = n->d[i].ino; }
  if (S.shuffle_dirs) for (int i = d->n - 1; i > 0; i--) {
    int j = mix(S.rand_seed ^ (o->node * 7919ull) ^ (i * 104729ull)) % (i + 1);
    char *t = d->names[i]; d->names[i] = d->names[j]; d->names[j] = t; int k = d->inos[i]; d->inos[i] = d->inos[j]; d->inos[j] = k;
  }
  return (DIR *)d;
}
static DIR *(*real_opendir)(const char *); static struct dirent64 *(*real_readdir)(DIR *); static int (*real_closedir)(DIR *);
EXPORT DIR *opendir(const char *p) {
  if (!active) { if (!real_opendir) real_opendir = dlsym(RTLD_NEXT, "opendir"); return real_opendir(p); }
  char *mp = mpath(cwd_node, p, 1); Eff ef = op(OP_OPENDIR, mp); free(mp);
  if (ef.err) { errno = ef.err; tr_ret(-1); return 0; }
  Res r; int e = resolve(cwd_node, p, 1, &r); if (!e && r.ino < 0) e = ENOENT;
  if (!e && N[r.ino].type != N_DIR) e = ENOTDIR;
  if (!e && !perm_ok(r.ino, 4)) e = EACCES;
  if (e) { errno = e; tr_ret(-1); return 0; }
  Ofd *o = ofd_new(F_FILE); o->node = r.ino; o->flags = O_RDONLY; o->path = node_path(r.ino); N[r.ino].open++;
  int fd = fd_alloc(o); tr_ret(fd);
  return sim_fdopendir(fd);
}
EXPORT DIR *fdopendir(int fd) {
  Ofd *o = fd_get(fd); if (!o || o->node < 0 || N[o->node].type != N_DIR) { errno = o ? ENOTDIR : EBADF; return 0; }
  Eff ef = op(OP_OPENDIR, o->path); if (ef.err) { errno = ef.err; return 0; }
  return sim_fdopendir(fd);
}
EXPORT struct dirent64 *readdir64(DIR *dp) {
  if (!active) { if (!real_readdir) real_readdir = dlsym(RTLD_NEXT, "readdir64"); return real_readdir(dp); }
  SDir *d = (SDir *)dp;
  Eff ef = op(OP_READDIR, d->path);
  if (ef.err) { errno = ef.err; tr_ret(-1); return 0; }
  if (d->i >= d->n) { tr_ret(0); return 0; }
  int ino = d->inos[d->i];
  memset(&d->de, 0, sizeof d->de);
  d->de.d_ino = INO(ino); d->de.d_off = d->i + 1; d->de.d_reclen = sizeof d->de;
  int t = N[ino].type; d->de.d_type = t == N_DIR ? DT_DIR : t == N_LNK ? DT_LNK : t == N_CHR ? DT_CHR : t == N_FIFO ? DT_FIFO : DT_REG;
  if (bug(BG_DT_UNKNOWN)) d->de.d_type = DT_UNKNOWN;
  strcpy(d->de.d_name, d->names[d->i]); d->i++;
  tr_ret(1);
  return &d->de;
}
EXPORT struct dirent *readdir(DIR *dp) { return (struct dirent *)readdir64(dp); }
EXPORT int closedir(DIR *dp) {
  if (!active) { if (!real_closedir) real_closedir = dlsym(RTLD_NEXT, "closedir"); return real_closedir(dp); }
  SDir *d = (SDir *)dp; op(OP_CLOSE, d->path); int fd = d->fd; Ofd *o = fdt[fd]; fdt[fd] = 0; ofd_unref(o); free(d); return 0;
}
EXPORT int dirfd(DIR *dp) { return ((SDir *)dp)->fd; }
EXPORT void rewinddir(DIR *dp) { ((SDir *)dp)->i = 0; }

EXPORT char *getcwd(char *b, size_t n) {
  if (!active) { long r = R2(SYS_getcwd, b, n); if (r < 0) { errno = (int)-r; return 0; } return b; }
  Eff ef = op(OP_GETCWD, ""); if (ef.err) { errno = ef.err; return 0; }
  char *p = node_path(cwd_node);
  if (!b) return p;
  if (strlen(p) + 1 > n) { free(p); errno = ERANGE; return 0; }
  strcpy(b, p); free(p); return b;
}
EXPORT int chdir(const char *p) { Res r; int e = resolve(cwd_node, p, 1, &r); if (!e && r.ino < 0) e = ENOENT; if (!e && N[r.ino].type != N_DIR) e = ENOTDIR; if (e) { errno = e; return -1; } cwd_node = r.ino; return 0; }
EXPORT ssize_t readlink(const char *restrict p, char *restrict b, size_t n) {
  if (!active) return ret_real(R3(SYS_readlink, p, b, n));
  char *mp = mpath(cwd_node, p, 0); Eff ef = op(OP_READLINK, mp); free(mp); if (ef.err) FAIL(ef.err);
  Res r; int e = resolve(cwd_node, p, 0, &r); if (!e && r.ino < 0) e = ENOENT; if (!e && N[r.ino].type != N_LNK) e = EINVAL;
  if (e) FAIL(e);
  size_t l = strlen(N[r.ino].link); if (l > n) l = n; memcpy(b, N[r.ino].link, l); return tr_ret(l);
}
EXPORT char *realpath(const char *restrict p, char *restrict out) {
  char *mp = mpath(cwd_node, p, 1); Eff ef = op(OP_READLINK, mp); free(mp); if (ef.err) { errno = ef.err; return 0; }
  Res r; int e = resolve(cwd_node, p, 1, &r); if (!e && r.ino < 0) e = ENOENT;
  if (e) { errno = e; return 0; }
  char *q = res_path(&r); if (out) { strcpy(out, q); free(q); return out; } return q;
}
EXPORT char *__realpath_chk(const char *p, char *o, size_t n) { (void)n; return realpath(p, o); }
EXPORT char *canonicalize_file_name(const char *p) { return realpath(p, 0); }

static int sim_rename(int d1, const char *a, int d2, const char *b, unsigned fl) {
  int er = 0, b1 = *a == '/' ? 0 : base_of(d1, &er), b2 = *b == '/' ? 0 : base_of(d2, &er); if (b1 < 0 || b2 < 0) { errno = er; return -1; }
  char *mp = mpath(b2, b, 0); Eff ef = op(OP_RENAME, mp); free(mp); if (ef.err) FAIL(ef.err);
  Res r, q; int e = resolve(b1, a, 0, &r); if (!e && r.ino < 0) e = ENOENT; if (e) FAIL(e);
  e = resolve(b2, b, 0, &q); if (e) FAIL(e);
  if (!perm_ok(r.dir, 2) || !perm_ok(q.dir, 2)) FAIL(EACCES);
  if (q.ino >= 0 && (fl & 1)) FAIL(EEXIST);
  if (fl & ~1u) FAIL(EINVAL);
  if (N[r.dir].dev != N[q.dir].dev || (N[r.ino].type == N_DIR && N[r.ino].mount)) FAIL(EXDEV);
  if (q.ino == r.ino) return (int)tr_ret(0);
  if (q.ino >= 0) {
    if (N[q.ino].type == N_DIR && N[r.ino].type != N_DIR) FAIL(EISDIR);
    if (N[q.ino].type != N_DIR && N[r.ino].type == N_DIR) FAIL(ENOTDIR);
    if (N[q.ino].type == N_DIR && N[q.ino].nd) FAIL(ENOTEMPTY);
  }
  char *p1 = res_path(&r), *p2 = res_path(&q); int ino = r.ino, victim = q.ino;
  if (victim >= 0) N[victim].nlink--;
  dent_add(&N[q.dir].d, &N[q.dir].nd, &N[q.dir].cd, q.name, ino);
  dent_del(N[r.dir].d, &N[r.dir].nd, r.name);
  N[ino].parent = q.dir; N[ino].name = strdup(q.name);
  jlog(J_REN, r.dir, r.name, ino, q.dir, q.name, 0);
  mut(M_RENAME, p1, p2, ino, victim); free(p1); free(p2);
  return (int)tr_ret(0);
}
EXPORT int rename(const char *a, const char *b) { if (!active) return ret_real(R2(SYS_rename, a, b)); return sim_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
EXPORT int renameat(int d1, const char *a, int d2, const char *b) { return sim_rename(d1, a, d2, b, 0); }
EXPORT int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return sim_rename(d1, a, d2, b, f); }
static int sim_unlink(int dfd, const char *p, int rmd) {
  int er = 0, base = *p == '/' ? 0 : base_of(dfd, &er); if (base < 0) { errno = er; return -1; }
  char *mp = mpath(base, p, 0); Eff ef = op(OP_UNLINK, mp); free(mp); if (ef.err) FAIL(ef.err);
  Res r; int e = resolve(base, p, 0, &r); if (!e && r.ino < 0) e = ENOENT; if (e) FAIL(e);
  if (!perm_ok(r.dir, 2)) FAIL(EACCES);
  if (rmd ? N[r.ino].type != N_DIR : N[r.ino].type == N_DIR) FAIL(rmd ? ENOTDIR : EISDIR);
  if (rmd && N[r.ino].nd) FAIL(ENOTEMPTY);
  char *q = res_path(&r); int v = r.ino; dir_del(r.dir, r.name); jlog(J_DEL, r.dir, r.name, 0, 0, 0, 0);
  mut(rmd ? M_RMDIR : M_UNLINK, q, "", v, v); free(q); return (int)tr_ret(0);
}
EXPORT int unlink(const char *p) { if (!active) return ret_real(R1(SYS_unlink, p)); return sim_unlink(AT_FDCWD, p, 0); }
EXPORT int unlinkat(int d, const char *p, int f) { return sim_unlink(d, p, !!(f & AT_REMOVEDIR)); }
EXPORT int rmdir(const char *p) { return sim_unlink(AT_FDCWD, p, 1); }
EXPORT int remove(const char *p) { int r = unlink(p); if (r && errno == EISDIR) return rmdir(p); return r; }
static int sim_mk(int dfd, const char *p, int type, u32 mode, const char *target) {
  int er = 0, base = *p == '/' ? 0 : base_of(dfd, &er); if (base < 0) { errno = er; return -1; }
  char *mp = mpath(base, p, 0); Eff ef = op(OP_MKDIR, mp); free(mp); if (ef.err) FAIL(ef.err);
  Res r; int e = resolve(base, p, 0, &r); if (!e && r.ino >= 0) e = EEXIST; if (e) FAIL(e);
  if (!perm_ok(r.dir, 2)) FAIL(EACCES);
  r.ino = node_new(type, mode & 0777 & ~(type == N_LNK ? 0u : 022u)); if (target) N[r.ino].link = strdup(target);
  dir_add(r.dir, r.name, r.ino); jlog(J_ADD, r.dir, r.name, r.ino, 0, 0, 0);
  char *q = res_path(&r); mut(type == N_DIR ? M_MKDIR : M_SYMLINK, q, "", r.ino, -1); free(q); return (int)tr_ret(0);
}
EXPORT int mkdir(const char *p, mode_t m) { if (!active) return ret_real(R2(SYS_mkdir, p, m)); return sim_mk(AT_FDCWD, p, N_DIR, m, 0); }
EXPORT int mkdirat(int d, const char *p, mode_t m) { return sim_mk(d, p, N_DIR, m, 0); }
EXPORT int symlink(const char *t, const char *p) { return sim_mk(AT_FDCWD, p, N_LNK, 0777, t); }
EXPORT int symlinkat(const char *t, int d, const char *p) { return sim_mk(d, p, N_LNK, 0777, t); }
EXPORT int linkat(int d1, const char *a, int d2, const char *b, int fl) {
  int er = 0, b1 = *a == '/' ? 0 : base_of(d1, &er), b2 = *b == '/' ? 0 : base_of(d2, &er); if (b1 < 0 || b2 < 0) { errno = er; return -1; }
  char *mp = mpath(b2, b, 0); Eff ef = op(OP_LINK, mp); free(mp); if (ef.err) FAIL(ef.err);
  Res r, q; int e = resolve(b1, a, !!(fl & AT_SYMLINK_FOLLOW), &r); if (!e && r.ino < 0) e = ENOENT; if (e) FAIL(e);
  e = resolve(b2, b, 0, &q); if (!e && q.ino >= 0) e = EEXIST; if (e) FAIL(e);
  if (N[r.ino].type == N_DIR) FAIL(EPERM);
  if (N[r.dir].dev != N[q.dir].dev) FAIL(EXDEV);
  if (!perm_ok(q.dir, 2)) FAIL(EACCES);
  dir_add(q.dir, q.name, r.ino); jlog(J_ADD, q.dir, q.name, r.ino, 0, 0, 0);
  char *p = res_path(&q); mut(M_LINK, p, "", r.ino, -1); free(p); return (int)tr_ret(0);
}
EXPORT int link(const char *a, const char *b) { return linkat(AT_FDCWD, a, AT_FDCWD, b, 0); }
static int sim_chmod_node(int ino, u32 m) {
  if (S.uid && N[ino].uid != S.uid) { errno = EPERM; return -1; }
  u32 old = N[ino].mode; N[ino].mode = m & 07777; jlog(J_MODE, 0, 0, ino, 0, 0, m & 07777);
  if (old != (m & 07777)) { char *p = N[ino].nlink > 0 ? node_path(ino) : strdup("(deleted)"); mut(M_CHMOD, p, "", ino, ino); free(p); }
  return 0;
}
EXPORT int fchmod(int fd, mode_t m) {
  if (!active) return ret_real(R2(SYS_fchmod, fd, m));
  Ofd *o = fd_get(fd); if (!o || o->node < 0) { errno = EBADF; return -1; } OPCHK(OP_CHMOD, o->path);
  return (int)tr_ret(sim_chmod_node(o->node, m));
}
EXPORT int fchmodat(int d, const char *p, mode_t m, int fl) {
  int er = 0, base = *p == '/' ? 0 : base_of(d, &er); if (base < 0) { errno = er; return -1; }
  char *mp = mpath(base, p, 1); Eff ef = op(OP_CHMOD, mp); free(mp); if (ef.err) FAIL(ef.err);
  Res r; int e = resolve(base, p, !(fl & AT_SYMLINK_NOFOLLOW), &r); if (!e && r.ino < 0) e = ENOENT; if (e) FAIL(e);
  return (int)tr_ret(sim_chmod_node(r.ino, m));
}
EXPORT int chmod(const char *p, mode_t m) { if (!active) return ret_real(R2(SYS_chmod, p, m)); return fchmodat(AT_FDCWD, p, m, 0); }
static int sim_chown(const char *path, int ino, uid_t u) {
  Eff ef = op(OP_CHMOD, path); if (ef.err) FAIL(ef.err);
  if (u != (uid_t)-1 && S.uid && u != N[ino].uid) FAIL(EPERM);
  if (u != (uid_t)-1) N[ino].uid = u;
  return (int)tr_ret(0);
}
EXPORT int fchown(int fd, uid_t u, gid_t g) { (void)g; Ofd *o = fd_get(fd); if (!o || o->node < 0) { errno = EBADF; return -1; } return sim_chown(o->path, o->node, u); }
EXPORT int chown(const char *p, uid_t u, gid_t g) { (void)g; Res r; int e = resolve(cwd_node, p, 1, &r); if (!e && r.ino < 0) e = ENOENT; if (e) { errno = e; return -1; } char *q = res_path(&r); int x = sim_chown(q, r.ino, u); free(q); return x; }
EXPORT int lchown(const char *p, uid_t u, gid_t g) { return chown(p, u, g); }
static int sim_utimes(const char *path, int ino) { Eff ef = op(OP_CHMOD, path); if (ef.err) FAIL(ef.err); mut(M_TIMES, path, "", ino, ino); return (int)tr_ret(0); }
EXPORT int futimens(int fd, const struct timespec t[2]) { (void)t; Ofd *o = fd_get(fd); if (!o || o->node < 0) { errno = EBADF; return -1; } return sim_utimes(o->path, o->node); }
EXPORT int utimensat(int d, const char *p, const struct timespec t[2], int fl) { (void)t; (void)fl; int er = 0, base = *p == '/' ? 0 : base_of(d, &er); if (base < 0) { errno = er; return -1; } Res r; int e = resolve(base, p, 1, &r); if (!e && r.ino < 0) e = ENOENT; if (e) { errno = e; return -1; } char *q = res_path(&r); int x = sim_utimes(q, r.ino); free(q); return x; }

// ---- descriptors
EXPORT int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  if (!active) return ret_real(R3(SYS_fcntl, fd, cmd, arg));
  Ofd *o = fd_get(fd); if (!o) { errno = EBADF; return -1; }
  switch (cmd) {
    case F_DUPFD: case F_DUPFD_CLOEXEC: { int r = fd_alloc_from(o, (int)arg); if (r >= 0) fdcloexec[r] = cmd == F_DUPFD_CLOEXEC; else errno = EMFILE; return r; }
    case F_GETFD: return fdcloexec[fd];
    case F_SETFD: fdcloexec[fd] = !!(arg & FD_CLOEXEC); return 0;
    case F_GETFL: return o->flags | (o->nonblock ? O_NONBLOCK : 0);
    case F_SETFL: o->nonblock = !!(arg & O_NONBLOCK); return 0;
    default: return 0;
  }
}
EXPORT int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, arg); }
EXPORT int dup(int fd) { Ofd *o = fd_get(fd); if (!o) { errno = EBADF; return -1; } return fd_alloc(o); }
EXPORT int dup2(int a, int b) {
  if (!active) return ret_real(R2(SYS_dup2, a, b));
  Ofd *o = fd_get(a); if (!o) { errno = EBADF; return -1; } if (a == b) return b;
  Ofd *q = fd_get(b); if (q) { fdt[b] = 0; ofd_unref(q); } fdt[b] = o; o->refs++; return b;
}
EXPORT int dup3(int a, int b, int f) { (void)f; return dup2(a, b); }
EXPORT int ioctl(int fd, unsigned long rq, ...) {
  va_list ap; va_start(ap, rq); void *arg = va_arg(ap, void *); va_end(ap);
  if (!active) return ret_real(R3(SYS_ioctl, fd, rq, arg));
  Ofd *o = fd_get(fd); if (!o) { errno = EBADF; return -1; }
  if (rq == FIONBIO) { o->nonblock = *(int *)arg != 0; return 0; }
  if (rq == FIOCLEX) { fdcloexec[fd] = 1; return 0; }
  if (rq == FIONREAD && o->kind == F_PR) { *(int *)arg = (int)pipe_avail(o->pipe); return 0; }
  errno = rq == 0x40049409 ? EOPNOTSUPP : ENOTTY; return -1;
}
EXPORT int isatty(int fd) { (void)fd; errno = ENOTTY; return 0; }
EXPORT int flock(int fd, int o) { (void)fd; (void)o; return 0; }
EXPORT int posix_fadvise(int fd, off_t a, off_t b, int c) { (void)fd; (void)a; (void)b; (void)c; return 0; }
EXPORT int posix_fadvise64(int fd, off_t a, off_t b, int c) { (void)fd; (void)a; (void)b; (void)c; return 0; }
EXPORT int fallocate64(int fd, int m, off_t a, off_t b) { (void)fd; (void)m; (void)a; (void)b; errno = EOPNOTSUPP; return -1; }
EXPORT ssize_t copy_file_range(int a, off_t *b, int c, off_t *d, size_t e, unsigned f) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; errno = ENOSYS; return -1; }
EXPORT ssize_t sendfile64(int a, int b, off_t *c, size_t d) { (void)a; (void)b; (void)c; (void)d; errno = ENOSYS; return -1; }
EXPORT ssize_t sendfile(int a, int b, off_t *c, size_t d) { return sendfile64(a, b, c, d); }
EXPORT ssize_t splice(int a, off_t *b, int c, off_t *d, size_t e, unsigned f) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; errno = EINVAL; return -1; }
EXPORT mode_t umask(mode_t m) { (void)m; return 022; }

static int poll_scan(struct pollfd *f, nfds_t n) {
  int c = 0;
  for (nfds_t i = 0; i < n; i++) {
    f[i].revents = 0; if (f[i].fd < 0) continue;
    Ofd *o = fd_get(f[i].fd);
    if (!o) { f[i].revents = POLLNVAL; c++; continue; }
    short r = 0;
    if (o->kind == F_PR) { if (pipe_avail(o->pipe)) r |= POLLIN; if (!o->pipe->writers) r |= POLLHUP; }
    else if (o->kind == F_PW) { if (pipe_room(o->pipe)) r |= POLLOUT; if (!o->pipe->readers) r |= POLLERR; }
    else r = POLLIN | POLLOUT;
    f[i].revents = r & (f[i].events | POLLHUP | POLLERR); if (f[i].revents) c++;
  }
  return c;
}
static int pred_poll(Thr *t) { struct pollfd tmp[64]; int n = t->npfds > 64 ? 64 : t->npfds; memcpy(tmp, t->pfds, n * sizeof(struct pollfd)); return poll_scan(tmp, n) > 0; }
static int sim_poll(struct pollfd *f, nfds_t n, i64 tmo) {
  op(OP_TIME, "poll");
  int c = poll_scan(f, n); if (c || tmo == 0) return (int)tr_ret(c);
  if (bug(BG_EINTR_MISC)) FAIL(EINTR);
  Thr *t = &T[cur]; t->pfds = f; t->npfds = (int)n; u64 dl = tmo < 0 ? 0 : now + (u64)tmo;
  while (!(c = poll_scan(f, n))) { if (dl && now >= dl) return (int)tr_ret(0); t->pred = pred_poll; t->deadline = dl; block("poll"); t->pred = 0; t->deadline = 0; }
  return (int)tr_ret(c);
}
EXPORT int poll(struct pollfd *f, nfds_t n, int tmo) { if (!active) return ret_real(R3(SYS_poll, f, n, tmo)); return sim_poll(f, n, tmo < 0 ? -1 : (i64)tmo * 1000000); }
EXPORT int ppoll(struct pollfd *f, nfds_t n, const struct timespec *ts, const sigset_t *m) { (void)m; return sim_poll(f, n, ts ? (i64)ts_ns(ts) : -1); }

EXPORT int pipe2(int fd[2], int flags) {
  if (!active) return ret_real(R2(SYS_pipe2, fd, flags));
  OPCHK(OP_PIPE, "");
  Pipe *p = calloc(1, sizeof *p); p->cap = S.pipe_cap; p->id = npipes++; p->readers = p->writers = 1;
  Ofd *r = ofd_new(F_PR), *w = ofd_new(F_PW); r->pipe = w->pipe = p; if (flags & O_NONBLOCK) r->nonblock = w->nonblock = 1;
  fd[0] = fd_alloc(r); fd[1] = fd_alloc(w); if (fd[0] < 0 || fd[1] < 0) FAIL(EMFILE);
  fdcloexec[fd[0]] = fdcloexec[fd[1]] = !!(flags & O_CLOEXEC);
  return (int)tr_ret(0);
}
EXPORT int pipe(int fd[2]) { return pipe2(fd, 0); }

static void *sim_mmap(void *a, size_t n, int prot, int fl, int fd, off_t off) {
  if (active && !(fl & MAP_ANONYMOUS) && fd >= 0) {
    Ofd *o = fd_get(fd); if (!o || o->node < 0) { errno = EBADF; return MAP_FAILED; }
    Eff ef = op(OP_READ, o->path); if (ef.err) { errno = ef.err; return MAP_FAILED; }
    long r = R6(SYS_mmap, a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (r < 0 && r > -4096) { errno = (int)-r; return MAP_FAILED; }
    size_t have = N[o->node].data.n > (size_t)off ? N[o->node].data.n - off : 0; if (have > n) have = n; memcpy((void *)r, N[o->node].data.p + off, have); return (void *)r;
  }
  long r = R6(SYS_mmap, a, n, prot, fl, fd, off); if (r < 0 && r > -4096) { errno = (int)-r; return MAP_FAILED; } return (void *)r;
}
EXPORT void *mmap(void *a, size_t n, int prot, int fl, int fd, off_t off) { return sim_mmap(a, n, prot, fl, fd, off); }
EXPORT void *mmap64(void *a, size_t n, int prot, int fl, int fd, off_t off) { return sim_mmap(a, n, prot, fl, fd, off); }

EXPORT int getpwuid_r(uid_t u, struct passwd *pw, char *b, size_t n, struct passwd **res) {
  if (n < 64) return ERANGE;
  memset(pw, 0, sizeof *pw); strcpy(b, "/home/u"); strcpy(b + 16, "u"); pw->pw_dir = b; pw->pw_name = b + 16; pw->pw_shell = b; pw->pw_passwd = b + 16; pw->pw_gecos = b + 16; pw->pw_uid = u; pw->pw_gid = u;
  *res = pw; return 0;
}

// ---- child processes
typedef struct { int kind, a, b; char *s; } Fa;
typedef struct { int n; Fa f[16]; } Fas;
static Fas *fas_of(const posix_spawn_file_actions_t *p) { return *(Fas *const *)p; }
EXPORT int posix_spawn_file_actions_init(posix_spawn_file_actions_t *p) { memset(p, 0, sizeof *p); *(Fas **)p = calloc(1, sizeof(Fas)); return 0; }
EXPORT int posix_spawn_file_actions_destroy(posix_spawn_file_actions_t *p) { free(*(Fas **)p); *(Fas **)p = 0; return 0; }
static int fa_add(posix_spawn_file_actions_t *p, int k, int a, int b, const char *s) { Fas *f = fas_of(p); if (f->n >= 16) return ENOMEM; f->f[f->n++] = (Fa){k, a, b, s ? strdup(s) : 0}; return 0; }
EXPORT int posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t *p, int a, int b) { return fa_add(p, 1, a, b, 0); }
EXPORT int posix_spawn_file_actions_addclose(posix_spawn_file_actions_t *p, int a) { return fa_add(p, 2, a, 0, 0); }
EXPORT int posix_spawn_file_actions_addopen(posix_spawn_file_actions_t *restrict p, int a, const char *restrict s, int fl, mode_t m) { (void)fl; (void)m; return fa_add(p, 3, a, 0, s); }
EXPORT int posix_spawn_file_actions_addchdir_np(posix_spawn_file_actions_t *restrict p, const char *restrict s) { return fa_add(p, 4, 0, 0, s); }
static int attr_flags_seen, attr_pgroup;
EXPORT int posix_spawnattr_setpgroup(posix_spawnattr_t *a, pid_t g) { (void)a; (void)g; attr_pgroup = 1; return 0; }
static int sim_spawn(pid_t *pid, const char *file, const posix_spawn_file_actions_t *fa, char *const argv[], char *const envp[]) {
  (void)attr_flags_seen;
  Eff ef = op(OP_SPAWN, file);
  if (ef.err) { errno = ef.err; tr_ret(-1); return ef.err; }
  Script *s = 0; for (int i = 0; i < S.nscripts; i++) if (!strcmp(S.scripts[i].prog, file)) s = &S.scripts[i];
  int e = s ? s->spawn_errno : ENOENT;
  if (e) { errno = e; tr_ret(-1); return e; }
  if (nC >= 2048) die("too many children");
  Child *c = &C[nC]; memset(c, 0, sizeof *c); c->s = s; c->pid = 5000 + nC; c->by_tid = my_tid;
  child_prio[nC] = 2000000 + mix(S.seed ^ (nC * 37 + 11)) % 1000000;
  int m[3] = {0, 1, 2}, closed[3] = {0, 0, 0}, null[3] = {0, 0, 0};
  if (fa) { Fas *f = fas_of(fa); for (int i = 0; i < f->n; i++) {
    if (f->f[i].kind == 1 && f->f[i].b < 3) m[f->f[i].b] = f->f[i].a;
    if (f->f[i].kind == 2 && f->f[i].a < 3) closed[f->f[i].a] = 1;
    if (f->f[i].kind == 3 && f->f[i].a < 3) null[f->f[i].a] = 1;
    if (f->f[i].kind == 4) c->cwd = strdup(f->f[i].s);
  } }
  if (!c->cwd) c->cwd = node_path(cwd_node);
  for (int i = 0; i < 3; i++) {
    Ofd *o = closed[i] || null[i] ? 0 : fd_get(m[i]); if (!o) { if (i == 0) c->nostdin = 1; continue; }
    if (i == 0) { if (o->kind == F_PR) { c->in = o->pipe; o->pipe->readers++; } else c->nostdin = 1; }
    else if (o->kind == F_PW) { if (i == 1) c->out = o->pipe; else c->err = o->pipe; o->pipe->writers++; }
    else if (o->kind == F_STDOUT || o->kind == F_STDERR) { if (i == 1) c->out_inherit = 1; else c->err_inherit = 1; }
  }
  for (c->argc = 0; argv[c->argc]; c->argc++) ;
  c->argv = calloc(c->argc + 1, sizeof(char *)); for (int i = 0; i < c->argc; i++) c->argv[i] = strdup(argv[i]);
  for (int i = 0; envp && envp[i]; i++) { buf_put(&c->env, envp[i], strlen(envp[i])); buf_put(&c->env, "\n", 1); }
  now += 300000; c->t_spawn = now; *pid = c->pid; nC++; reap_peak(); tr_ret(c->pid);
  return 0;
}
EXPORT int posix_spawnp(pid_t *restrict pid, const char *restrict f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *restrict a, char *const argv[restrict], char *const envp[restrict]) { (void)a; if (!active) return ENOSYS; return sim_spawn(pid, f, fa, argv, envp); }
EXPORT int posix_spawn(pid_t *restrict pid, const char *restrict f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *restrict a, char *const argv[restrict], char *const envp[restrict]) { (void)a; if (!active) return ENOSYS; return sim_spawn(pid, f, fa, argv, envp); }
EXPORT int pidfd_spawnp(int *p, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *a, char *const argv[], char *const envp[]) { (void)p; (void)f; (void)fa; (void)a; (void)argv; (void)envp; return ENOSYS; }
static int pred_child(Thr *t) {
  for (int i = 0; i < nC; i++) if (!C[i].reaped && (t->pid == -1 || C[i].pid == t->pid) && C[i].zombie) return 1;
  return 0;
}
static Child *find_wait(pid_t pid, int *any) {
  *any = 0; Child *z = 0;
  for (int i = 0; i < nC; i++) if (!C[i].reaped && (pid == -1 || pid == 0 || C[i].pid == pid)) { *any = 1; if (C[i].zombie && !z) z = &C[i]; }
  return z;
}
static Child *sim_wait(pid_t pid, int nohang, int noreap, int *err) {
  Eff ef = op(OP_WAIT, ""); *err = 0;
  if (ef.err) { *err = ef.err; return 0; }
  for (;;) {
    int any; Child *z = find_wait(pid, &any);
    if (!any) { *err = ECHILD; return 0; }
    if (z) { if (!noreap) { z->reaped = 1; z->t_reap = now; } return z; }
    if (nohang) return 0;
    if (bug(BG_EINTR_MISC)) { *err = EINTR; return 0; }
    T[cur].pid = pid <= 0 ? -1 : pid; T[cur].pred = pred_child; T[cur].deadline = 0; block("wait for a formatter"); T[cur].pred = 0;
  }
}
EXPORT pid_t waitpid(pid_t pid, int *st, int opt) {
  if (!active) return ret_real(R4(SYS_wait4, pid, st, opt, 0));
  int e; Child *c = sim_wait(pid, !!(opt & WNOHANG), 0, &e);
  if (e) FAIL(e);
  if (!c) return (pid_t)tr_ret(0);
  if (st) *st = c->status;
  return (pid_t)tr_ret(c->pid);
}
EXPORT pid_t wait(int *st) { return waitpid(-1, st, 0); }
EXPORT pid_t wait4(pid_t p, int *st, int o, struct rusage *r) { if (r) memset(r, 0, sizeof *r); return waitpid(p, st, o); }
EXPORT int waitid(idtype_t t, id_t id, siginfo_t *si, int opt) {
  if (!active) return ret_real(R6(SYS_waitid, t, id, si, opt, 0, 0));
  if (t != P_PID && t != P_ALL) { errno = EINVAL; return -1; }
  int e; Child *c = sim_wait(t == P_ALL ? -1 : (pid_t)id, !!(opt & WNOHANG), !!(opt & WNOWAIT), &e);
  if (e) FAIL(e);
  memset(si, 0, sizeof *si);
  if (c) { si->si_signo = SIGCHLD; si->si_pid = c->pid; si->si_status = c->status & 127 ? c->status & 127 : c->status >> 8; si->si_code = c->status & 127 ? CLD_KILLED : CLD_EXITED; }
  return (int)tr_ret(0);
}
EXPORT int kill(pid_t pid, int sig) {
  if (!active) return ret_real(R2(SYS_kill, pid, sig));
  OPCHK(OP_KILL, "");
  pid_t p = pid < 0 ? -pid : pid;
  for (int i = 0; i < nC; i++) if (C[i].pid == p && !C[i].reaped) {
    if (sig && !C[i].zombie && !C[i].dying) {
      // a process may take a moment to go
      C[i].killed = 1; u64 k = mix(S.seed ^ (0x51c6 + i * 31)) % 4;
      if (!k) child_die(&C[i], sig); else { C[i].dying = sig; C[i].wake = now + (k - 1) * 700000; }
    }
    if (pid < 0 && attr_pgroup && C[i].gd_until) { C[i].gd_until = 1; gd_expire(); }
    return (int)tr_ret(0);
  }
  if (p == 1000) finalize(V_ABORT, 128 + sig);
  FAIL(ESRCH);
}
EXPORT int killpg(pid_t g, int s) { return kill(-g, s); }

// ---- endings and things that are not simulated
EXPORT void exit(int c) { if (!active) { R1(SYS_exit_group, c); __builtin_unreachable(); } finalize(V_EXIT, c & 255); }
EXPORT void _exit(int c) { if (!active) { R1(SYS_exit_group, c); __builtin_unreachable(); } finalize(V_EXIT, c & 255); }
EXPORT void _Exit(int c) { _exit(c); }
EXPORT void quick_exit(int c) { _exit(c); }
EXPORT void abort(void) { if (!active) { R2(SYS_kill, R0(SYS_getpid), SIGABRT); R1(SYS_exit_group, 134); __builtin_unreachable(); } finalize(V_ABORT, 134); }
static int (*real_sigaction)(int, const struct sigaction *, struct sigaction *);
EXPORT int sigaction(int s, const struct sigaction *restrict a, struct sigaction *restrict o) {
  if (!real_sigaction) real_sigaction = dlsym(RTLD_NEXT, "sigaction");
  if (active && s == SIGPIPE) { if (o) { memset(o, 0, sizeof *o); o->sa_handler = sigpipe_ign ? SIG_IGN : SIG_DFL; } if (a) sigpipe_ign = a->sa_handler != SIG_DFL; return 0; }
  return real_sigaction(s, a, o);
}
EXPORT sighandler_t signal(int s, sighandler_t h) {
  if (active && s == SIGPIPE) { sighandler_t o = sigpipe_ign ? SIG_IGN : SIG_DFL; sigpipe_ign = h != SIG_DFL; return o; }
  struct sigaction a, o; memset(&a, 0, sizeof a); a.sa_handler = h; if (sigaction(s, &a, &o)) return SIG_ERR; return o.sa_handler;
}
#define UNSUP(ret, name, args) EXPORT ret name args { if (active) die("unsupported: " #name); errno = ENOSYS; return (ret)-1; }
UNSUP(int, execvp, (const char *f, char *const a[])) UNSUP(int, execve, (const char *f, char *const a[], char *const e[]))
UNSUP(int, socketpair, (int a, int b, int c, int d[2])) UNSUP(ssize_t, sendmsg, (int a, const struct msghdr *m, int f)) UNSUP(ssize_t, recvmsg, (int a, struct msghdr *m, int f))
UNSUP(int, socket, (int a, int b, int c)) UNSUP(int, chroot, (const char *p)) UNSUP(int, eventfd, (unsigned a, int b)) UNSUP(int, epoll_create1, (int a)) UNSUP(int, memfd_create, (const char *n, unsigned f)) UNSUP(int, inotify_init1, (int f)) UNSUP(int, pause, (void))
static pid_t (*real_fork)(void);
EXPORT pid_t fork(void) { if (active) die("unsupported: fork"); if (!real_fork) real_fork = dlsym(RTLD_NEXT, "fork"); return real_fork(); }
