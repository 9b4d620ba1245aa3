#include <execinfo.h>
/* Simulator core: PRNG, plan, decisions, event log, hooks, fork server. */
#include "simrt.h"

kind_t kinds[K_N] = {
    [K_GC]      = { .name = "gc" },      [K_BGC]    = { .name = "bgc" },
    [K_REORD]   = { .name = "reord" },   [K_INTR]   = { .name = "intr" },
    [K_SAT]     = { .name = "sat" },     [K_FSERR]  = { .name = "fserr" },
    [K_SHORT]   = { .name = "short" },   [K_SYSERR] = { .name = "syserr" },
    [K_CRASH]   = { .name = "crash" },   [K_MEMFAIL]= { .name = "memfail" },
    [K_WORKER]  = { .name = "worker" },  [K_WKILL]  = { .name = "wkill" },
    [K_PEER]    = { .name = "peer" },
};
int sim_active, sim_armed, sim_worker;
uint64_t sim_seed;
char sim_rundir[512], sim_outdir[512];

static int ctl_in = -1, ctl_out = -1;
uint64_t sim_gc_done, sim_bgc_done, sim_reord;
static uint64_t steps, steps_max = 200000000ull;
static uint64_t vnow = 1700000000ull * 1000000000ull;

/* ------------------------------------------------------------------ PRNG */
static uint64_t splitmix(uint64_t *x)
{
    uint64_t z = (*x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
void rng_seed(rng_t *r, uint64_t seed, const char *stream)
{
    uint64_t x = seed;
    for (; *stream; stream++) x = x * 1099511628211ull + (unsigned char)*stream;
    for (int i = 0; i < 4; i++) r->s[i] = splitmix(&x);
}
#define ROTL(x,k) (((x) << (k)) | ((x) >> (64 - (k))))
uint64_t rng_next(rng_t *r)
{
    uint64_t *s = r->s, res = ROTL(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
    s[2] ^= t; s[3] = ROTL(s[3], 45);
    return res;
}
uint64_t rng_below(rng_t *r, uint64_t n) { return n ? rng_next(r) % n : 0; }

/* ------------------------------------------------------------- event log */
static char *logbuf; static size_t loglen, logcap;
static uint64_t loghash = 1469598103934665603ull;
static void log_raw(const char *s, size_t n)
{
    for (size_t i = 0; i < n; i++) loghash = (loghash ^ (unsigned char)s[i]) * 1099511628211ull;
    if (loglen + n > (8u << 20)) return;          /* keep the first 8 MB; the hash covers all */
    if (loglen + n + 1 > logcap) {
        size_t nc = logcap ? logcap * 2 : 65536;
        while (nc < loglen + n + 1) nc *= 2;
        char *nb = mmap(NULL, nc, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (nb == MAP_FAILED) return;
        if (logbuf) { memcpy(nb, logbuf, loglen); munmap(logbuf, logcap); }
        logbuf = nb; logcap = nc;
    }
    memcpy(logbuf + loglen, s, n); loglen += n;
}
void slog(const char *fmt, ...)
{
    char b[1024]; va_list a;
    if (!sim_active) return;
    va_start(a, fmt); int n = vsnprintf(b, sizeof b - 1, fmt, a); va_end(a);
    if (n < 0) return;
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    log_raw(b, n);
}
int sim_log_done;
static void log_write_file(const char *how, int code)
{
    char p[640], tail[512]; int fd;
    if (sim_log_done || !sim_active || sim_child_pending) return;
    sim_log_done = 1;
    if (sim_worker) snprintf(p, sizeof p, "%s/wlog%d", sim_rundir, sim_worker);
    else snprintf(p, sizeof p, "%s/log", sim_rundir);
    fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0666);
    if (fd < 0) return;
    size_t off = 0;
    while (off < loglen) { ssize_t w = write(fd, logbuf + off, loglen - off); if (w <= 0) break; off += w; }
    for (int k = 0; k < K_N; k++) if (kinds[k].count) {
        int n = snprintf(tail, sizeof tail, "COUNT %s %lu %lu\n", kinds[k].name, kinds[k].count, kinds[k].fired);
        write(fd, tail, n);
    }
    if (sim_gc_done) { int n = snprintf(tail, sizeof tail, "COUNT collections %lu %lu\n", sim_gc_done, sim_gc_done); write(fd, tail, n); }
    int n = snprintf(tail, sizeof tail, "END %s %d steps %lu vtime_ns %lu hash %016lx\n", how, code, steps,
                     vnow - 1700000000ull * 1000000000ull, loghash);
    write(fd, tail, n);
    close(fd);
}
void sim_die(int code, const char *why)
{
    fflush(stdout); fflush(stderr);
    slog("DIE %s", why);
    log_write_file(why, code);
    _exit(code);
}
static void at_exit_log(int code, void *arg) { (void)arg; fflush(stdout); fflush(stderr); if (!sim_log_done) proc_end_run(); log_write_file("exit", code); }
static void crash_handler(int sig)
{
    fflush(stdout); fflush(stderr);
    if (getenv("VSIM_BT")) { void *b[60]; int n = backtrace(b, 60); backtrace_symbols_fd(b, n, 2); }
    slog("SIGNAL %d", sig);
    log_write_file("signal", sig);
    signal(sig, SIG_DFL); raise(sig); _exit(128 + sig);
}

/* ------------------------------------------------------------------ plan */
static char *plan_text;
const char *plan_get(const char *key, const char *dflt)
{
    static char val[65536]; size_t kl = strlen(key);
    for (char *p = plan_text; p && *p; ) {
        char *e = strchr(p, '\n'); size_t l = e ? (size_t)(e - p) : strlen(p);
        if (l > kl && !strncmp(p, key, kl) && p[kl] == ' ') {
            size_t vl = l - kl - 1; if (vl >= sizeof val) vl = sizeof val - 1;
            memcpy(val, p + kl + 1, vl); val[vl] = 0; return val;
        }
        p = e ? e + 1 : NULL;
    }
    return dflt;
}
int64_t plan_int(const char *key, int64_t dflt)
{
    const char *v = plan_get(key, NULL); return v ? strtoll(v, NULL, 10) : dflt;
}
static char *slurp(const char *path)
{
    int fd = open(path, O_RDONLY); struct stat st;
    if (fd < 0 || fstat(fd, &st)) return NULL;
    char *b = mmap(NULL, st.st_size + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    ssize_t n = 0, r;
    while (n < st.st_size && (r = read(fd, b + n, st.st_size - n)) > 0) n += r;
    b[n] = 0; close(fd); return b;
}
static void draw_next(kind_t *k)
{
    if (!k->rate) { k->next = 0; return; }
    if (k->rate == 1) { k->next = k->count + 1; return; }
    /* geometric by repeated fair-ish draws; uniform over [1, 2*rate] is as good here and cheap */
    k->next = k->count + 1 + rng_below(&k->rng, 2 * k->rate - 1);
}
/* Plan entries of kind k in this process: in worker N "wN_<kind>_x" if there is
   one, else "worker_<kind>_x"; in the main process "<kind>_x". */
static const char *kind_key(const char *name, const char *what)
{
    static char key[96];
    if (!sim_worker) { snprintf(key, sizeof key, "%s_%s", name, what); return key; }
    snprintf(key, sizeof key, "w%d_%s_%s", sim_worker, name, what);
    if (!plan_get(key, NULL)) snprintf(key, sizeof key, "worker_%s_%s", name, what);
    return key;
}
static void load_kinds(void)
{
    for (int i = 0; i < K_N; i++) {
        kind_t *k = &kinds[i];
        k->count = k->fired = k->i_list = k->burst_left = 0;
        rng_seed(&k->rng, sim_seed, k->name);
        k->rate = plan_int(kind_key(k->name, "rate"), 0);
        k->burst = plan_int(kind_key(k->name, "burst"), 0);
        k->max = plan_int(kind_key(k->name, "max"), 1ll << 60);
        const char *key = kind_key(k->name, "at");
        const char *v = plan_get(key, NULL);
        k->explicit_list = v != NULL;
        if (v) {   /* "n:aux n:aux ..." */
            size_t n = 1; for (const char *p = v; *p; p++) n += *p == ' ';
            k->list = mmap(NULL, n * 16 + 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            k->aux = (int64_t *)(k->list + n); k->n_list = 0;
            for (char *p = (char *)v; *p; ) {
                char *e; uint64_t c = strtoull(p, &e, 10); int64_t a = 0;
                if (e == p) { p++; continue; }
                if (*e == ':') a = strtoll(e + 1, &e, 10);
                k->list[k->n_list] = c; k->aux[k->n_list++] = a; p = e;
            }
        }
        if (!k->explicit_list) {
            int64_t st = plan_int(kind_key(k->name, "start"), 0);
            if (st > 0) k->next = st; else draw_next(k);
        }
    }
}
int fire(enum kind ki, int64_t *aux, uint64_t naux)
{
    kind_t *k = &kinds[ki];
    if (!sim_armed || sim_log_done) return 0;
    uint64_t c = ++k->count; int64_t a = 0; int f = 0;
    if (k->explicit_list) {
        while (k->i_list < k->n_list && k->list[k->i_list] < c) k->i_list++;
        if (k->i_list < k->n_list && k->list[k->i_list] == c) { f = 1; a = k->aux[k->i_list]; }
    } else if (k->burst_left) {
        k->burst_left--; f = 1;
        if (naux) a = rng_below(&k->rng, naux);
    } else if (c == k->next) {
        if (k->fired < k->max) { f = 1; if (naux) a = rng_below(&k->rng, naux); k->burst_left = k->burst; }
        draw_next(k);
    }
    if (!f) return 0;
    k->fired++;
    if (aux) *aux = a;
    slog("FIRE %s %lu:%ld", k->name, c, a);
    return 1;
}

/* ----------------------------------------------------------------- hooks */
extern unsigned do_gc_asap __attribute__((weak));
static uint64_t gc_colls = 1ull << 60;      /* at most this many collections */
static int vtimer_armed; static uint64_t cpu_ticks, vtimer_deadline;

static uint64_t tick_ns = 100;
void vtimer_set(uint64_t secs) { vtimer_armed = secs > 0; vtimer_deadline = cpu_ticks + secs; }
int vtimer_is_armed(void) { return vtimer_armed; }

static uint64_t boot_gc;
/* Returns 1 if the signal came and its handler returned ("continue"). */
int maybe_interrupt(void)
{
    kind_t *k = &kinds[K_INTR];
    if ((k->rate || k->explicit_list || k->next || k->burst_left) && fire(K_INTR, NULL, 0)) { raise(SIGINT); return 1; }
    return 0;
}
int voss_sim_point(int site)
{
    if (!sim_armed) {
        /* Collections while loading the start-up code keep the heap small. */
        static uint64_t n;
        return boot_gc && !sim_active && site == SIM_FL_ALLOC && ++n % boot_gc == 0;
    }
    steps++; vnow += tick_ns;
    if (steps > steps_max) sim_die(97, "stepmax");
    switch (site) {
    case SIM_FL_ALLOC:
        maybe_interrupt();
        /* A request while one is pending changes nothing. */
        if (kinds[K_GC].explicit_list) return fire(K_GC, NULL, 0);
        if (sim_gc_done >= gc_colls || (&do_gc_asap && do_gc_asap)) { kinds[K_GC].count++; if (kinds[K_GC].next == kinds[K_GC].count) kinds[K_GC].next++; return 0; }
        return fire(K_GC, NULL, 0);
    case SIM_GC: sim_gc_done++; slog("GC %lu", steps); return 0;
    case SIM_BDD_ALLOC: maybe_interrupt(); return fire(K_BGC, NULL, 0);
    case SIM_REORDER:   if (fire(K_REORD, NULL, 0)) { sim_reord++; return 1; } return 0;
    case SIM_INTERRUPT: maybe_interrupt(); return 0;
    case SIM_SWAP:      maybe_interrupt(); return 0;
    case SIM_STE_STEP:  maybe_interrupt(); return 0;
    case SIM_SAT:
        maybe_interrupt();
        if (vtimer_armed && fire(K_SAT, NULL, 0)) { vtimer_armed = 0; raise(SIGVTALRM); }
        return 0;
    }
    return 0;
}
void sim_yield(const char *what)
{
    if (!sim_active) return;
    vnow += 1000;
    if (sim_worker) { worker_yield(what); return; }
    if (sim_armed) {
        int64_t aux;
        steps++;
        maybe_interrupt();
        if (fire(K_CRASH, &aux, 2)) sim_die(96, "crash");
        proc_step(what);
    }
}
void vclock_advance(uint64_t ns) { vnow += ns; }
uint64_t vclock_now(void) { return vnow; }

/* ----------------------------------------------------------------- paths */
void simpath_back(char *p)
{
    size_t n = strlen(sim_rundir), m = strlen(sim_outdir);
    if (n && !strncmp(p, sim_rundir, n) && (p[n] == '/' || !p[n])) { memmove(p + 4, p + n, strlen(p + n) + 1); memcpy(p, "/sim", 4); }
    else if (m && !strncmp(p, sim_outdir, m) && p[m] == '/') { memmove(p + 5, p + m, strlen(p + m) + 1); memcpy(p, "/voss", 5); }
}
int is_sim_path(const char *p) { return !strncmp(p, "/sim/", 5) || !strcmp(p, "/sim") || p[0] != '/'; }
const char *xlate(const char *p)
{
    static char b[4][4096]; static int i; char *r;
    if (!strncmp(p, "/sim", 4) && (p[4] == '/' || !p[4]) && sim_rundir[0]) {
        r = b[i = (i + 1) & 3]; snprintf(r, 4096, "%s%s", sim_rundir, p + 4); return r;
    }
    if (!strncmp(p, "/voss/", 6) && sim_outdir[0]) {
        r = b[i = (i + 1) & 3]; snprintf(r, 4096, "%s/%s", sim_outdir, p + 6); return r;
    }
    return p;
}
char *xlate_cmd(const char *c)
{
    size_t n = strlen(c), cap = n * 2 + 8192; char *o = malloc(cap), *w = o;
    for (const char *p = c; *p && w < o + cap - 1200; ) {
        int at_start = p == c || !(isalnum((unsigned char)p[-1]) || p[-1] == '/' || p[-1] == '.' || p[-1] == '_');
        if (at_start && !strncmp(p, "/sim", 4) && !(isalnum((unsigned char)p[4]) || p[4] == '_')) { w += sprintf(w, "%s", sim_rundir); p += 4; }
        else if (at_start && !strncmp(p, "/voss/", 6)) { w += sprintf(w, "%s/", sim_outdir); p += 6; }
        else *w++ = *p++;
    }
    *w = 0; return o;
}

/* ------------------------------------------------------- user at terminal */
static char *script, *script_pos; static int script_line;
static rng_t user_rng;
extern char *Voss_tmp_dir;
static int eof_polls;

static void begin_run(const char *dir)
{
    char p[640]; int fd;
    snprintf(sim_rundir, sizeof sim_rundir, "%s", dir);
    if (chdir(dir)) _exit(95);
    snprintf(p, sizeof p, "%s/plan", dir);   plan_text = slurp(p);
    snprintf(p, sizeof p, "%s/script", dir); script = slurp(p); script_pos = script;
    if (!plan_text) _exit(95);
    fflush(stdout); fflush(stderr);
    fd = open("out", O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0666); dup2(fd, 1); close(fd);
    fd = open("err", O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0666); dup2(fd, 2); close(fd);
    fd = open("/dev/null", O_RDONLY); dup2(fd, 0); close(fd);
    sim_seed = strtoull(plan_get("seed", "1"), NULL, 10);
    gc_colls = plan_int("gc_colls", 1ll << 60);
    steps_max = plan_int("steps_max", 60000000);
    tick_ns = plan_int("tick_ns", 100);
    sim_active = 1;
    load_kinds();
    rng_seed(&user_rng, sim_seed, "user");
    const char *tmp = plan_get("tmpdir", "/sim/tmp");
    if (&Voss_tmp_dir) Voss_tmp_dir = strdup(tmp);
    mkdir(xlate(tmp), 0777);
    stack_t ss = { .ss_sp = mmap(NULL, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0), .ss_size = 65536 };
    sigaltstack(&ss, NULL);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = crash_handler; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL);
    sigaction(SIGABRT, &sa, NULL); sigaction(SIGILL, &sa, NULL);
    on_exit(at_exit_log, NULL);
    fs_init_run();
    proc_init_run();
    gui_init_run();
    slog("SEED %lu", sim_seed);
}

static int read_line_fd(int fd, char *b, int n)
{
    int i = 0;
    while (i < n - 1) { ssize_t r = read(fd, b + i, 1); if (r <= 0) return i ? (b[i] = 0, i) : -1; if (b[i] == '\n') break; i++; }
    b[i] = 0; return i;
}
/* The process has finished its start-up: from here every RUN request is
   served by a forked copy, so all runs start from this very state. */
static void fork_server(void)
{
    char line[1024], dir[512], msg[128]; int st;
    fflush(stdout); fflush(stderr);
    dprintf(ctl_out, "READY\n");
    for (;;) {
        if (read_line_fd(ctl_in, line, sizeof line) < 0) _exit(0);
        if (sscanf(line, "RUN %500s", dir) != 1) continue;
        pid_t p = fork();
        if (p == 0) { close(ctl_in); close(ctl_out); ctl_in = ctl_out = -1; setpgid(0, 0); begin_run(dir); return; }
        setpgid(p, p);
        dprintf(ctl_out, "PID %d\n", (int)p);
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
        kill(-p, SIGKILL);
        while (waitpid(-1, NULL, WNOHANG) > 0) ;
        snprintf(msg, sizeof msg, "DONE %d\n", st);
        write(ctl_out, msg, strlen(msg));
    }
}

static int started;
char *__wrap_readline(const char *prompt)
{
    (void)prompt;
    if (!started && ctl_in >= 0) { started = 1; fork_server(); }
    fflush(stdout);
    for (;;) {
        if (!script_pos || !*script_pos) {       /* end of file at the terminal */
            sim_armed = 0;
            if (++eof_polls > 50) sim_die(98, "eofloop");
            slog("EOF");
            return NULL;
        }
        char *e = strchr(script_pos, '\n'); size_t l = e ? (size_t)(e - script_pos) : strlen(script_pos);
        char *line = script_pos; script_pos = e ? e + 1 : script_pos + l;
        script_line++;
        if (l && line[0] == '#') {
            if (!strncmp(line, "#arm", 4)) sim_armed = 1;
            else if (!strncmp(line, "#disarm", 7)) sim_armed = 0;
            else if (!strncmp(line, "#eof", 4)) { sim_armed = 0; script_pos = NULL; eof_polls++; slog("EOF"); return NULL; }
            else if (!strncmp(line, "#crash", 6)) sim_die(96, "crash");
            else if (!strncmp(line, "#vtime ", 7)) vnow += strtoull(line + 7, NULL, 10) * 1000000ull;
            continue;
        }
        if (!l) continue;
        fflush(stdout); fflush(stderr);
        char m[64]; int n = snprintf(m, sizeof m, "\n@@%d@@\n", script_line);
        write(1, m, n); write(2, m, n);
        slog("CMD %d %lu", script_line, steps);
        if (steps > steps_max) sim_die(97, "stepmax");
        char *r = malloc(l + 1); memcpy(r, line, l); r[l] = 0;
        return r;
    }
}
void __wrap_add_history(const char *s) { (void)s; }
int  __wrap_rl_initialize(void) { return 0; }
int  __real_isatty(int fd);
int  __wrap_isatty(int fd) { if (sim_active && fd == 0) return eof_polls == 0; return __real_isatty(fd); }

/* Graphical mode: what the user types next (a line of the script; a \\x01 in it
   is a line end), or NULL. */
char *gui_next_statement(void)
{
    for (;;) {
        if (!script_pos || !*script_pos) return NULL;
        char *e = strchr(script_pos, '\n'); size_t l = e ? (size_t)(e - script_pos) : strlen(script_pos);
        char *line = script_pos;
        if (l && line[0] == '#' && !strncmp(line, "#events", 7) && gui_events_left()) { gui_events_first(1); return NULL; }
        script_pos = e ? e + 1 : script_pos + l;
        script_line++;
        if (l && line[0] == '#') {
            if (!strncmp(line, "#arm", 4)) sim_armed = 1;
            else if (!strncmp(line, "#disarm", 7)) sim_armed = 0;
            else if (!strncmp(line, "#events", 7)) gui_events_first(0);
            else if (!strncmp(line, "#eof", 4)) { script_pos = NULL; return NULL; }
            continue;
        }
        if (!l) continue;
        fflush(stdout); fflush(stderr);
        char m[64]; int n = snprintf(m, sizeof m, "\n@@%d@@\n", script_line);
        write(1, m, n); write(2, m, n);
        slog("CMD %d %lu", script_line, steps);
        char *r = malloc(l + 1); memcpy(r, line, l); r[l] = 0;
        for (char *c = r; *c; c++) if (*c == '\x01') *c = '\n';
        return r;
    }
}
int gui_script_done(void) { return !script_pos || !*script_pos; }
void gui_first_wait(void) { if (!started && ctl_in >= 0) { started = 1; fork_server(); } }
void sim_tick(void) { if (++steps > steps_max) sim_die(97, "stepmax"); }

/* The simulated user's answer when asked what to do about an interrupt. */
static int user_answer(const char *which)
{
    const char *a = plan_get(which, "c");
    size_t n = strlen(a); int c = a[rng_below(&user_rng, n ? n : 1)];
    slog("ANSWER %s %c", which, c);
    return c;
}
int gui_intr_answer(void) { return user_answer("intr_answer"); }
int __wrap_fgetc(FILE *fp)
{
    if (sim_active && fp == stdin) return user_answer("intr_answer");
    return __real_fgetc(fp);
}
int __wrap_getchar(void)
{
    if (sim_active) return user_answer("reorder_answer");
    return __real_getchar();
}
int __real_getc(FILE *fp);
int __wrap_getc(FILE *fp)
{
    if (sim_active && fp == stdin) return user_answer("reorder_answer");   /* getchar, expanded inline */
    return __real_getc(fp);
}
int __real__IO_getc(FILE *fp);
int __wrap__IO_getc(FILE *fp) { return __wrap_getc(fp); }
void __wrap_exit(int code)
{
    if (sim_active) slog("EXIT %d", code);
    __real_exit(code);
}

/* ------------------------------------------------------------- start-up */
__attribute__((constructor)) static void sim_start(int argc, char **argv, char **envp)
{
    const char *c = getenv("VSIM_CTL");
    const char *base = strrchr(argv[0], '/'); base = base ? base + 1 : argv[0];
    if (!strcmp(base, "sleep")) sleep_shim(argc > 1 ? argv[1] : "0");
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
        if (personality(ADDR_NO_RANDOMIZE | personality(0xffffffff)) >= 0) execve("/proc/self/exe", argv, envp);
    }
    if (getenv("VSIM_OUT")) snprintf(sim_outdir, sizeof sim_outdir, "%s", getenv("VSIM_OUT"));
    if (getenv("VSIM_BOOTGC")) boot_gc = strtoull(getenv("VSIM_BOOTGC"), NULL, 10);
    gui_boot();
    if (c) sscanf(c, "%d,%d", &ctl_in, &ctl_out);
    if (getenv("VSIM_WORKER")) {
        snprintf(sim_rundir, sizeof sim_rundir, "%s", getenv("VSIM_RUNDIR"));
        char p[640]; snprintf(p, sizeof p, "%s/plan", sim_rundir); plan_text = slurp(p);
        sim_seed = strtoull(plan_get("seed", "1"), NULL, 10) * 1000003 + atoi(getenv("VSIM_WORKER"));
        for (int i = 1; i < argc; i++) simpath_back(argv[i]);
        sim_worker = atoi(getenv("VSIM_WORKER")); sim_active = 1; load_kinds();
        fs_init_run();
        worker_init();
        on_exit(at_exit_log, NULL);
        slog("WORKER %s", getenv("VSIM_WORKER"));
    } else if (getenv("VSIM_COLD")) {
        started = 1; begin_run(getenv("VSIM_COLD"));
    }
}
