// scenario parsing, fork server (part of libsim.c)
static int mkpath_dir(const char *path) { // creates directories as needed (initial tree)
  int d = 0; char *t = strdup(path), *sv = 0;
  for (char *c = strtok_r(t, "/", &sv); c; c = strtok_r(0, "/", &sv)) {
    int i = dir_get(d, c);
    if (i < 0) { i = node_new(N_DIR, 0755); N[i].initial = 1; dir_add(d, c, i); }
    d = i;
  }
  free(t); return d;
}
static void set_dev(int d, int dev) { // every mount point begins a file system of its own
  N[d].dev = dev;
  for (int i = 0; i < N[d].nd; i++) { int k = N[d].d[i].ino; set_dev(k, N[k].mount ? 100 + k : dev); }
}
static void load_scenario(void) {
  long fd = R3(SYS_open, scn_path, O_RDONLY, 0); if (fd < 0) die("cannot open scenario");
  struct stat st; R2(SYS_fstat, fd, &st);
  u8 *m = malloc(st.st_size + 1); size_t got = 0;
  while (got < (size_t)st.st_size) { long r = R3(SYS_read, fd, m + got, st.st_size - got); if (r <= 0) break; got += r; }
  R1(SYS_close, fd);
  sc_p = m; sc_e = m + got;
  if (g_u64() != 0x314e4353484d4953ull) die("bad scenario");
  S.seed = g_u64(); S.rand_seed = g_u64(); S.strategy = (int)g_u64(); S.p_op = (u32)g_u64(); S.p_fine = (u32)g_u64(); S.p_block = (u32)g_u64();
  S.npct = g_u64(); S.pct_len = g_u64(); S.fine = (int)g_u64(); S.replay = (int)g_u64(); S.replay_bg = (int)g_u64();
  S.nsched = g_u64(); S.sched = malloc(16 * S.nsched + 16); for (u64 i = 0; i < 2 * S.nsched; i++) S.sched[i] = g_u64();
  S.nbg = g_u64(); S.bgl = malloc(16 * S.nbg + 16); for (u64 i = 0; i < 2 * S.nbg; i++) S.bgl[i] = g_u64();
  S.max_ops = g_u64(); S.max_fine = g_u64(); S.mono0 = g_u64(); S.real0 = g_u64(); S.ncpu = g_u64(); S.op_cost = g_u64(); S.capacity = g_u64(); S.pipe_cap = g_u64(); S.uid = g_u64();
  S.argc = (int)g_u64(); S.argv = calloc(S.argc + 1, 8); for (int i = 0; i < S.argc; i++) S.argv[i] = g_str();
  S.envc = (int)g_u64(); S.envp = calloc(S.envc + 1, 8); for (int i = 0; i < S.envc; i++) S.envp[i] = g_str();
  S.cwd = g_str(); S.in = g_blob(&S.nin);
  S.out_limit = (i64)g_u64(); S.out_errno = (int)g_u64(); S.err_limit = (i64)g_u64(); S.err_errno = (int)g_u64();
  for (int i = 0; i < BG_N; i++) S.bgp[i] = (u32)g_u64();
  S.shuffle_dirs = (int)g_u64(); S.trace_max = g_u64();
  node_new(N_DIR, 0755); N[0].uid = 0; N[0].initial = 1;
  u64 nn = g_u64(); int *ids = calloc(nn + 1, sizeof(int));
  for (u64 i = 0; i < nn; i++) {
    char *path = g_str(); int type = (int)g_u64(); u32 mode = (u32)g_u64(), uid = (u32)g_u64(); i64 hard = (i64)g_u64(); size_t n; u8 *data = g_blob(&n);
    char *slash = strrchr(path, '/'); char *dirp = strdup(path); dirp[slash - path] = 0;
    if (type == N_DIR) { int d = mkpath_dir(path); N[d].mode = N[d].dmode = mode & 07777; N[d].uid = uid; N[d].mount = mode >> 20 & 1; ids[i] = d; free(dirp); continue; }
    int d = mkpath_dir(dirp); free(dirp);
    if (hard >= 0) { dir_add(d, slash + 1, ids[hard]); ids[i] = ids[hard]; continue; }
    int k = node_new(type, mode); N[k].uid = uid; N[k].initial = 1; N[k].dmode = mode; ids[i] = k;
    if (type == N_LNK) N[k].link = (char *)data; else { buf_put(&N[k].data, data, n); node_flush(k); }
    dir_add(d, slash + 1, k);
  }
  set_dev(0, 42);
  for (int i = 0; i < nN; i++) if (N[i].type == N_DIR) for (int k = 0; k < N[i].nd; k++) dent_add(&N[i].dd, &N[i].ndd, &N[i].cdd, N[i].d[k].name, N[i].d[k].ino);
  S.nfaults = (int)g_u64(); S.faults = calloc(S.nfaults + 1, sizeof(Fault));
  for (int i = 0; i < S.nfaults; i++) { Fault *f = &S.faults[i]; f->cls = (int)g_u64(); f->path = g_str(); f->skip = g_u64(); f->times = g_u64(); f->act = (int)g_u64(); f->arg = (i64)g_u64(); f->p2 = g_str(); f->blob = g_blob(&f->nblob); }
  S.nscripts = (int)g_u64(); S.scripts = calloc(S.nscripts + 1, sizeof(Script));
  for (int i = 0; i < S.nscripts; i++) { Script *s = &S.scripts[i]; s->prog = g_str(); s->spawn_errno = (int)g_u64(); s->nsteps = (int)g_u64(); s->steps = calloc(s->nsteps + 1, sizeof(Step)); for (int k = 0; k < s->nsteps; k++) { Step *t = &s->steps[k]; t->op = (int)g_u64(); t->a = g_u64(); t->b = g_u64(); t->blob = g_blob(&t->nblob); } }
  S.nwatch = (int)g_u64(); S.watch = calloc(S.nwatch + 1, sizeof(Watch));
  for (int i = 0; i < S.nwatch; i++) { Watch *w = &S.watch[i]; w->path = g_str(); w->may_be_missing = (int)g_u64(); w->nallowed = (int)g_u64(); w->blob = calloc(w->nallowed + 1, 8); w->n = calloc(w->nallowed + 1, 8); for (int k = 0; k < w->nallowed; k++) w->blob[k] = g_blob(&w->n[k]); }
  if (g_u64() != 0x314e4353444e4553ull) die("bad scenario end");
  Res r; u32 su = S.uid; S.uid = 0; if (resolve(0, S.cwd, 1, &r) || r.ino < 0 || N[r.ino].type != N_DIR) die("bad cwd"); cwd_node = r.ino; S.uid = su;
  for (int i = 0; i < 3; i++) { Ofd *o = ofd_new(F_STDIN + i); o->path = 0; fd_alloc(o); }
}

static int (*user_main)(int, char **, char **);
static int wrapped_main(int c, char **v, char **e) { int r = user_main(c, v, e); finalize(V_EXIT, r & 255); return r; }

static int find_data(struct dl_phdr_info *i, size_t n, void *x) { // the first one is the executable
  (void)n; (void)x;
  exe_base = i->dlpi_addr;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    const ElfW(Phdr) *p = &i->dlpi_phdr[k]; u64 lo = i->dlpi_addr + p->p_vaddr, hi = lo + p->p_memsz;
    if (p->p_type == PT_LOAD && (p->p_flags & PF_W)) { if (!data_hi) data_lo = lo; data_hi = hi; }
    if (p->p_type == PT_GNU_RELRO) { ro_lo = lo; ro_hi = hi; }
  }
  return 1;
}
typedef int (*lsm_t)(int (*)(int, char **, char **), int, char **, void (*)(void), void (*)(void), void (*)(void), void *);
EXPORT int __libc_start_main(int (*m)(int, char **, char **), int argc, char **argv, void (*init)(void), void (*fini)(void), void (*rfini)(void), void *stk) {
  lsm_t real = dlsym(RTLD_NEXT, "__libc_start_main");
  const char *dir = getenv("HSIM_DIR");
  if (!dir) return real(m, argc, argv, init, fini, rfini, stk);
  real_pthread_create = dlsym(RTLD_NEXT, "pthread_create"); real_pthread_join = dlsym(RTLD_NEXT, "pthread_join"); real_fork = dlsym(RTLD_NEXT, "fork");
  snprintf(scn_path, sizeof scn_path, "%s/scn", dir); snprintf(dump_path, sizeof dump_path, "%s/out", dir);
  char cp[600]; snprintf(cp, sizeof cp, "%s/cov", dir);
  long cfd = R4(SYS_openat, AT_FDCWD, cp, O_RDWR, 0);
  if (cfd >= 0) { long r = R6(SYS_mmap, 0, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED, cfd, 0); if (r > 0) covmap = (u8 *)r; R1(SYS_close, cfd); }
  user_main = m; dl_iterate_phdr(find_data, 0); stack_hi = (u64)__builtin_frame_address(0);
  for (;;) {
    char c; long r = R3(SYS_read, 198, &c, 1);
    if (r == -EINTR) continue;
    if (r <= 0) R1(SYS_exit_group, 0);
    pid_t p = real_fork();
    if (p == 0) break;
    int pid32 = p; real_write_all(199, &pid32, 4);
    int st = 0; struct rusage ru; while (R4(SYS_wait4, p, &st, 0, &ru) == -EINTR) ;
    real_write_all(199, &st, 4);
  }
  R1(SYS_close, 198); R1(SYS_close, 199);
  struct rlimit rl = {20, 20}; R4(SYS_prlimit64, 0, RLIMIT_CPU, &rl, 0);
  rl.rlim_cur = rl.rlim_max = 0; R4(SYS_prlimit64, 0, RLIMIT_CORE, &rl, 0);
  load_scenario();
  char **av = calloc(S.argc + S.envc + 4, sizeof(char *)); int k = 0;
  for (int i = 0; i < S.argc; i++) av[k++] = S.argv[i];
  av[k++] = 0; char **ev = av + k;
  for (int i = 0; i < S.envc; i++) av[k++] = S.envp[i];
  av[k++] = 0;
  // the auxiliary vector follows the environment; ours is only used by code that walks past envp, which nothing here does
  extern char **environ; environ = ev;
  pthread_key_create(&exit_key, on_thread_exit);
  T[0].state = TS_RUN; T[0].pt = pthread_self(); T[0].prio = 2000000 + mix(S.seed ^ 99) % 1000000;
  active = 1;
  return real(wrapped_main, S.argc, av, init, fini, rfini, stk);
}
