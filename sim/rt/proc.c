/* Simulated processes, commands, clocks and timers.

   A spawned process is a real child, but it runs only while the simulator
   lets it: it stops at every seam and the scheduler (in the main process)
   decides which child takes the next step, or is killed there. Process ids,
   exit statuses, waiting and killing are answered from the simulator's own
   process table. */
#include "simrt.h"

#define CTLFD 198
#define REPFD 199
enum pst { P_FREE, P_RUN, P_ZOMBIE, P_REAPED };
typedef struct { int idx, pid; pid_t real; enum pst st; int status, ctl, rep; uint64_t wake; int starved; uint64_t nsteps; int exited_once; } sproc;
#define MAXP 64
static sproc procs[MAXP]; static int nprocs;
int sim_child_pending;
static int wctl = -1, wrep = -1;             /* in a worker */
static uint64_t forced_after = 12;

static int rdline(int fd, char *b, int n)
{
    int i = 0;
    while (i < n - 1) { ssize_t r = read(fd, b + i, 1); if (r < 0 && errno == EINTR) continue; if (r <= 0) return -1; if (b[i] == '\n') break; i++; }
    b[i] = 0; return i;
}

void proc_init_run(void)
{
    char path[2048];
    snprintf(path, sizeof path, "%s/bin:/usr/local/bin:/usr/bin:/bin", sim_outdir);
    setenv("PATH", path, 1);
    setenv("GZIP", "-n", 1); setenv("LC_ALL", "C", 1); setenv("TZ", "UTC", 1);
    unsetenv("GZIP");
    forced_after = (uint64_t)plan_int("fair", 12);
}

/* Child pN has ended: collect it. */
static void collect(sproc *p)
{
    int st = 0;
    while (waitpid(p->real, &st, 0) < 0 && errno == EINTR) ;
    p->st = P_ZOMBIE; p->status = st;
    close(p->ctl); close(p->rep);
    slog("PEXIT %d status %d", p->idx, st);
}
static void pkill(sproc *p, int sig)
{
    kill(p->real, sig);
    if (sig != SIGKILL) {          /* may be blocked on us: let it go on to its death */
        struct timespec ts = { 0, 20000000 }; (void)ts;
        write(p->ctl, "g", 1);
        char b[256];
        while (rdline(p->rep, b, sizeof b) >= 0) write(p->ctl, "g", 1);
    }
    kill(-p->real, SIGKILL);
    collect(p);
}
/* Let child p take one step. */
static void grant(sproc *p, const char *why)
{
    char b[256]; int64_t aux;
    p->starved = 0; p->nsteps++;
    if (fire(K_WKILL, &aux, 3)) {
        static const int sg[3] = { SIGKILL, SIGKILL, SIGTERM };
        slog("WKILL %d", p->idx);
        (void)sg;
        pkill(p, SIGKILL);
        return;
    }
    slog("GRANT %d %s", p->idx, why);
    if (write(p->ctl, "g", 1) != 1) { collect(p); return; }
    if (rdline(p->rep, b, sizeof b) < 0) { collect(p); return; }
    if (b[0] == 'w') { p->wake = vclock_now() + strtoull(b + 2, NULL, 10); slog("PSLEEP %d %s", p->idx, b + 2); }
    else slog("PSTOP %d %s", p->idx, b + 2);
}
static int runnable(sproc **v)
{
    int n = 0;
    for (int i = 0; i < nprocs; i++) if (procs[i].st == P_RUN && procs[i].wake <= vclock_now()) v[n++] = &procs[i];
    return n;
}
void proc_step(const char *why)
{
    sproc *v[MAXP]; int64_t aux; int n;
    static int in; if (in || !nprocs) return;
    in = 1;
    if ((n = runnable(v)) > 0 && fire(K_WORKER, &aux, 64)) grant(v[aux % n], why);
    in = 0;
}
/* The main process is idle (sleeping, waiting): fair progress. */
static void idle_step(void)
{
    sproc *v[MAXP]; int64_t aux; int n = runnable(v);
    for (int i = 0; i < n; i++) if (v[i]->st == P_RUN && fire(K_WORKER, &aux, 64)) { int m = runnable(v); if (!m) return; grant(v[aux % m], "idle"); n = m = runnable(v); }
    n = runnable(v);
    for (int i = 0; i < n; i++) if (v[i]->st == P_RUN && (uint64_t)++v[i]->starved > forced_after) grant(v[i], "fair");
}
static uint64_t next_wake(void)
{
    uint64_t w = 0;
    for (int i = 0; i < nprocs; i++) if (procs[i].st == P_RUN && procs[i].wake > vclock_now() && (!w || procs[i].wake < w)) w = procs[i].wake;
    return w;
}
/* Returns how much is left if an interrupt cut it short. */
static uint64_t vsleep(uint64_t ns, int intr)
{
    if (sim_worker) {
        char b[64]; int n = snprintf(b, sizeof b, "w %lu\n", ns);
        write(wrep, b, n);
        if (read(wctl, b, 1) != 1) _exit(99);
        vclock_advance(ns);
        return 0;
    }
    uint64_t end = vclock_now() + ns;
    for (int i = 0; i < 200; i++) {
        if (intr && sim_armed && maybe_interrupt()) return end > vclock_now() ? end - vclock_now() : 0;
        idle_step();
        uint64_t w = next_wake(), step = end > vclock_now() ? (end - vclock_now()) / 4 + 1 : 0;
        if (w && w < vclock_now() + step) step = w - vclock_now();
        vclock_advance(step);
        if (vclock_now() >= end) break;
    }
    if (vclock_now() < end) vclock_advance(end - vclock_now());
    return 0;
}
static sproc *by_pid(int pid) { for (int i = 0; i < nprocs; i++) if (procs[i].pid == pid) return &procs[i]; return NULL; }

pid_t __wrap_fork(void)
{
    int a[2], b[2];
    if (!sim_active) return fork();
    if (sim_worker) { errno = EAGAIN; return -1; }
    sim_yield("fork");
    if (nprocs >= MAXP || (sim_armed && plan_int("fork_faults", 0) && fire(K_SYSERR, NULL, 0))) { slog("FORKFAIL"); errno = EAGAIN; return -1; }
    fflush(stdout); fflush(stderr);
    if (pipe(a) || pipe(b)) return -1;
    for (int i = 0; i < 2; i++) { fcntl(a[i], F_SETFD, FD_CLOEXEC); fcntl(b[i], F_SETFD, FD_CLOEXEC); }
    sproc *p = &procs[nprocs];
    p->idx = nprocs + 1; p->pid = 2001 + nprocs; p->st = P_RUN; p->wake = 0;
    nprocs++;
    pid_t r = fork();
    if (r == 0) {
        setpgid(0, 0);
        sim_child_pending = p->idx;
        dup2(a[0], CTLFD); dup2(b[1], REPFD);
        return 0;
    }
    setpgid(r, r);
    close(a[0]); close(b[1]);
    p->real = r; p->ctl = a[1]; p->rep = b[0];
    slog("SPAWN %d pid %d", p->idx, p->pid);
    return p->pid;
}
int __wrap_execlp(const char *file, const char *a0, const char *a1, const char *cmd, ...)
{
    char n[32], tok;
    if (!sim_child_pending) { errno = ENOEXEC; return -1; }
    (void)file; (void)a0; (void)a1;
    snprintf(n, sizeof n, "%d", sim_child_pending);
    setenv("VSIM_WORKER", n, 1); setenv("VSIM_RUNDIR", sim_rundir, 1); setenv("VSIM_OUT", sim_outdir, 1);
    unsetenv("VSIM_CTL"); unsetenv("VSIM_COLD");
    if (read(CTLFD, &tok, 1) != 1) _exit(99);
    char *x = xlate_cmd(cmd);
    for (int fd = 3; fd < 256; fd++) if (fd != CTLFD && fd != REPFD) close(fd);
    execl("/bin/bash", "bash", "-c", x, (char *)NULL);
    _exit(127);
}
pid_t __wrap_waitpid(pid_t pid, int *st, int opt)
{
    sproc *p = NULL;
    if (!sim_active || sim_worker) return waitpid(pid, st, opt);
    sim_yield("waitpid");
    if (pid == -1) {
        int live = 0;
        for (;;) {
            for (int i = 0; i < nprocs; i++) { if (procs[i].st == P_ZOMBIE) { p = &procs[i]; goto found; } live += procs[i].st == P_RUN; }
            if (!live) { errno = ECHILD; return -1; }
            if (opt & WNOHANG) return 0;
            vsleep(1000000, 0);
        }
    }
    p = by_pid(pid);
    if (!p || p->st == P_REAPED) { errno = ECHILD; return -1; }
    while (p->st == P_RUN) { if (opt & WNOHANG) { slog("WAIT %d running", p->idx); return 0; } vsleep(1000000, 0); }
found:
    p->st = P_REAPED;
    if (st) *st = p->status;
    slog("REAP %d status %d", p->idx, p->status);
    return p->pid;
}
static const char *kill_by = "KILL";
int __wrap_kill(pid_t pid, int sig)
{
    if (!sim_active) return kill(pid, sig);
    if (sim_worker) { errno = ESRCH; return -1; }
    sim_yield("kill");
    sproc *p = by_pid(pid);
    if (pid <= 0) { slog("%s-WIDE %d %d", kill_by, (int)pid, sig); return 0; }
    if (!p) { slog("%s-STRANGER %d %d", kill_by, (int)pid, sig); errno = ESRCH; return -1; }
    if (p->st == P_REAPED) { slog("%s-REAPED %d %d", kill_by, p->idx, sig); errno = ESRCH; return -1; }
    slog("KILL %d %d", p->idx, sig);
    if (p->st == P_ZOMBIE || sig == 0) return 0;
    if (sig == SIGKILL || sig == SIGTERM || sig == SIGINT) pkill(p, SIGKILL), p->status = p->status == SIGKILL ? sig : p->status;
    return 0;
}
/* What a changed fl might use instead. */
pid_t __wrap_getppid(void) { return sim_active ? sim_worker ? 2000 : 1999 : ({ extern pid_t __real_getppid(void); __real_getppid(); }); }
pid_t __wrap_vfork(void) { return __wrap_fork(); }
pid_t __wrap_wait(int *st) { return __wrap_waitpid(-1, st, 0); }
pid_t __wrap_getpid(void) { return sim_active ? 2000 + (sim_worker ? sim_worker : 0) : getpid(); }

void proc_end_run(void)
{
    for (int i = 0; i < nprocs; i++) {
        slog("ATEXIT %d %s", procs[i].idx, procs[i].st == P_RUN ? "running" : procs[i].st == P_ZOMBIE ? "zombie" : "reaped");
        if (procs[i].st == P_RUN) kill(-procs[i].real, SIGKILL);
    }
}

/* --------------------------------------------------------------- workers */
void worker_init(void)
{
    wctl = CTLFD; wrep = REPFD;
    fcntl(wctl, F_SETFD, FD_CLOEXEC); fcntl(wrep, F_SETFD, FD_CLOEXEC);
    sim_armed = 1;
}
void worker_yield(const char *what)
{
    char b[200]; char tok;
    static int in; if (in || sim_log_done) return;
    in = 1;
    int n = snprintf(b, sizeof b, "s %s\n", what);
    write(wrep, b, n);
    if (read(wctl, &tok, 1) != 1) _exit(99);
    in = 0;
}
/* "sleep" as seen by simulated shell commands. */
void sleep_shim(const char *arg)
{
    char b[64]; char tok; uint64_t ns = (uint64_t)(strtod(arg ? arg : "0", NULL) * 1e9);
    if (!getenv("VSIM_WORKER") || fcntl(REPFD, F_GETFD) < 0) _exit(0);
    int n = snprintf(b, sizeof b, "w %lu\n", ns);
    write(REPFD, b, n);
    if (read(CTLFD, &tok, 1) != 1) _exit(99);
    _exit(0);
}

/* -------------------------------------------------------------- commands */
static int copy_prefix(const char *from, const char *to, int pct)
{
    int a = open(from, O_RDONLY), b = open(to, O_WRONLY | O_CREAT | O_TRUNC, 0666);
    if (a < 0 || b < 0) { if (a >= 0) close(a); if (b >= 0) close(b); return -1; }
    struct stat st; fstat(a, &st);
    off_t left = st.st_size * pct / 100; char buf[65536];
    while (left > 0) { ssize_t r = read(a, buf, left < (off_t)sizeof buf ? left : (off_t)sizeof buf); if (r <= 0) break; write(b, buf, r); left -= r; }
    close(a); close(b); return 0;
}
static int real_system(const char *cmd)
{
    char *x = xlate_cmd(cmd);
    fflush(stdout); fflush(stderr);
    int st = __real_system(x);
    free(x);
    return st;
}
/* tar writing an archive: visible on disk as a truncated file for a while. */
static int tar_create(const char *cmd)
{
    const char *f = strstr(cmd, " -f "); char file[1024], tmp[1400]; int64_t aux; int err = 0, pct = 100;
    if (!f || sscanf(f + 4, "%1000s", file) != 1) return real_system(cmd);
    const char *rest = f + 4 + strspn(f + 4, " ") + strlen(file);
    snprintf(tmp, sizeof tmp, "%s/.tar%d", sim_rundir, sim_worker);
    char *c = malloc(strlen(cmd) + 2000);
    sprintf(c, "%.*s -f %s%s", (int)(f - cmd), cmd, tmp, rest);
    int st = real_system(c);
    free(c);
    char dst[1400]; snprintf(dst, sizeof dst, "%s", xlate(file));
    if (st) { unlink(tmp); return st; }
    if (disk_full) { pct = 0; err = 1; }
    else if (sim_armed && fire(K_SYSERR, &aux, 400)) { pct = aux % 100; err = 1 + aux / 100; }
    int fd = open(dst, O_WRONLY | O_CREAT | O_TRUNC, 0666);
    if (fd < 0) { unlink(tmp); return 2 << 8; }
    close(fd);
    sim_yield("tar-open");
    if (pct > 1) { copy_prefix(tmp, dst, pct / 2); sim_yield("tar-half"); }
    copy_prefix(tmp, dst, pct);
    unlink(tmp);
    if (err) slog("TARFAIL %d", pct);
    sim_yield("tar-done");
    if (err == 3) return 9;              /* killed */
    if (err) return 2 << 8;
    return 0;
}
int __wrap_system(const char *cmd)
{
    int sig, pid, n = 0; int64_t aux;
    if (gui_system(cmd)) return 0;
    if (!sim_active) return __real_system(cmd);
    sim_yield("system");
    slog("SYSTEM %s", cmd);
    if (sscanf(cmd, " kill -%d %d %n", &sig, &pid, &n) == 2 && n && !cmd[n]) {
        kill_by = "KILLCMD";
        int rc = __wrap_kill(pid, sig) == 0 ? 0 : 1 << 8;
        kill_by = "KILL";
        return rc;
    }
    if (!strncmp(cmd, "tar -c", 6)) return tar_create(cmd);
    if (sim_armed && !strncmp(cmd, "tar ", 4) && fire(K_SYSERR, &aux, 3)) return aux == 0 ? -1 : aux == 1 ? 127 << 8 : 2 << 8;
    if (sim_armed && strncmp(cmd, "rm ", 3) && plan_int("system_faults", 0) && fire(K_SYSERR, &aux, 3)) return aux == 0 ? -1 : aux == 1 ? 127 << 8 : 9;
    double s;
    if (sscanf(cmd, "sleep %lf", &s) == 1) vsleep((uint64_t)(s * 1e9), 0);
    return real_system(cmd);
}

/* ---------------------------------------------------------- clocks, timers */
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
    extern int __real_clock_gettime(clockid_t, struct timespec *);
    if (!sim_active) return __real_clock_gettime(c, ts);
    (void)c;
    uint64_t t = vclock_now();
    ts->tv_sec = t / 1000000000ull; ts->tv_nsec = t % 1000000000ull;
    vclock_advance(1000);
    return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
    struct timespec ts; (void)tz;
    __wrap_clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
int __wrap_getrusage(int who, struct rusage *u)
{
    extern int __real_getrusage(int, struct rusage *);
    if (!sim_active) return __real_getrusage(who, u);
    memset(u, 0, sizeof *u);
    uint64_t t = vclock_now() - 1700000000ull * 1000000000ull;
    u->ru_utime.tv_sec = t / 1000000000ull; u->ru_utime.tv_usec = t % 1000000000ull / 1000;
    u->ru_maxrss = 100000;
    return 0;
}
int __wrap_nanosleep(const struct timespec *a, struct timespec *b)
{
    extern int __real_nanosleep(const struct timespec *, struct timespec *);
    if (!sim_active) return __real_nanosleep(a, b);
    if (a->tv_nsec < 0 || a->tv_nsec > 999999999 || a->tv_sec < 0) { errno = EINVAL; return -1; }
    slog("SLEEP %ld.%09ld", (long)a->tv_sec, a->tv_nsec);
    if (!sim_worker) sim_yield("nanosleep");
    uint64_t left = vsleep(a->tv_sec * 1000000000ull + a->tv_nsec, 1);
    if (b) { b->tv_sec = left / 1000000000ull; b->tv_nsec = left % 1000000000ull; }
    if (left) { slog("SLEEPINTR %lu", left); errno = EINTR; return -1; }
    return 0;
}
unsigned __wrap_sleep(unsigned s)
{
    struct timespec ts = { s, 0 };
    if (!sim_active) { extern unsigned __real_sleep(unsigned); return __real_sleep(s); }
    __wrap_nanosleep(&ts, NULL); return 0;
}
int __wrap_usleep(useconds_t u)
{
    struct timespec ts = { u / 1000000, u % 1000000 * 1000 };
    if (!sim_active) { extern int __real_usleep(useconds_t); return __real_usleep(u); }
    return __wrap_nanosleep(&ts, NULL);
}
time_t __wrap_time(time_t *t)
{
    extern time_t __real_time(time_t *);
    if (!sim_active) return __real_time(t);
    struct timespec ts;
    __wrap_clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
int __wrap_setitimer(int which, const struct itimerval *n, struct itimerval *o)
{
    extern int __real_setitimer(int, const struct itimerval *, struct itimerval *);
    if (!sim_active) return __real_setitimer(which, n, o);
    if (o) memset(o, 0, sizeof *o);
    if (n->it_value.tv_sec < 0 || n->it_value.tv_usec < 0 || n->it_value.tv_usec > 999999) { errno = EINVAL; return -1; }
    /* It may expire at the last moment before it is stopped. */
    if (sim_armed && vtimer_is_armed() && !n->it_value.tv_sec && fire(K_SAT, NULL, 0)) { vtimer_set(0); raise(SIGVTALRM); }
    vtimer_set(n->it_value.tv_sec + (n->it_value.tv_usec > 0));
    slog("TIMER %ld", (long)n->it_value.tv_sec);
    return 0;
}
int __wrap_setrlimit(int res, const struct rlimit *r)
{
    extern int __real_setrlimit(int, const struct rlimit *);
    if (res == RLIMIT_STACK) return 0;       /* the driver sets a fixed one */
    if (res == RLIMIT_CPU) { slog("CPULIMIT %ld", (long)r->rlim_cur); return 0; }
    return __real_setrlimit(res, r);
}
