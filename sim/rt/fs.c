/* Simulated storage and memory: every file the program opens under /sim (or by
   a relative path) goes through here, as does the allocator. */
#include "simrt.h"
extern int __real_system(const char *);

int disk_full;
static int64_t quota = -1;               /* bytes left on the disk, if limited */
static uint64_t mk_counter;
static int bufsz;
static uint64_t junk; static int pad_max, poison;
static rng_t pad_rng;
static int open_files, read_faults;

void fs_init_run(void)
{
    quota = plan_int("quota", -1);
    bufsz = (int)plan_int("bufsz", 0);
    junk = (uint64_t)plan_int("junk", 0);
    pad_max = (int)plan_int("pad", 0);
    poison = (int)plan_int("poison", 0);
    read_faults = (int)plan_int("read_faults", 0);
    rng_seed(&pad_rng, sim_seed, "layout");
    int64_t shift = plan_int("shift", 0);
    if (shift > 0) { void *p = malloc(shift); (void)p; }
}

/* ---------------------------------------------------------------- faults */
static const int open_errs[] = { EACCES, EMFILE, ENOSPC, EIO, ENFILE };
/* How many of n bytes the disk accepts; *err is set if it is not all. */
static size_t disk_take(size_t n, int *err)
{
    int64_t aux; *err = 0;
    if (!sim_armed && !disk_full) return n;
    if (disk_full) { *err = ENOSPC; return 0; }
    if (quota >= 0) {
        if ((int64_t)n > quota) { n = quota; quota = 0; disk_full = 1; *err = ENOSPC; slog("DISKFULL quota"); return n; }
        quota -= n;
    }
    if (fire(K_FSERR, &aux, 400)) {
        size_t part = aux % 100 == 0 ? 0 : n * (aux % 100) / 100;
        switch (aux / 100) {
        case 0: *err = ENOSPC; return 0;
        case 1: *err = ENOSPC; disk_full = 1; return part;
        case 2: *err = EIO; return part;
        case 3: *err = EDQUOT; disk_full = 1; return 0;
        }
    }
    return n;
}
static ssize_t write_all(int fd, const char *b, size_t n)
{
    size_t o = 0;
    while (o < n) { ssize_t w = write(fd, b + o, n - o); if (w < 0) return o ? (ssize_t)o : w; o += w; }
    return o;
}

/* --------------------------------------------------------------- streams */
typedef struct sfile { int fd; int pipe; char *path; FILE *fp; pid_t child; struct sfile *next; int closing; char *tmp; int status; } sfile;
static sfile *files;

static ssize_t ck_read(void *c, char *b, size_t n)
{
    sfile *f = c; int64_t aux; size_t want = n;
    sim_yield("read");
    if (sim_armed && fire(K_SHORT, &aux, 100) && n > 1) { want = 1 + n * aux / 100; if (want > n) want = n; }
    if (!f->pipe && sim_armed && read_faults && fire(K_FSERR, &aux, 1)) { errno = EIO; return -1; }
    return read(f->fd, b, want);
}
static ssize_t ck_write(void *c, const char *b, size_t n)
{
    sfile *f = c; int err;
    sim_yield("write");
    if (!f->pipe) {
        size_t m = disk_take(n, &err);
        if (m) write_all(f->fd, b, m);
        if (err) { slog("WERR %s %zu/%zu", f->path, m, n); errno = err; return m; }
        return n;
    }
    return write_all(f->fd, b, n);
}
static int ck_seek(void *c, off64_t *o, int w)
{
    sfile *f = c; off_t r = lseek(f->fd, *o, w);
    if (r < 0) return -1;
    *o = r; return 0;
}
static int ck_close(void *c)
{
    sfile *f = c; int64_t aux; int r = 0;
    sim_yield("close");
    if (f->fd >= 0) close(f->fd);
    slog("CLOSE %s", f->path);
    open_files--;
    if (!f->pipe && sim_armed && fire(K_FSERR, &aux, 1)) { errno = EIO; r = -1; }
    for (sfile **pp = &files; *pp; pp = &(*pp)->next) if (*pp == f) { *pp = f->next; break; }
    f->fd = -1;
    return r;
}
static FILE *wrap_fd(int fd, const char *path, const char *mode, int pipe)
{
    cookie_io_functions_t io = { .read = ck_read, .write = ck_write, .seek = ck_seek, .close = ck_close };
    sfile *f = calloc(1, sizeof *f);
    f->fd = fd; f->pipe = pipe; f->path = strdup(path); f->next = files; files = f;
    open_files++;
    FILE *fp = fopencookie(f, mode, io);
    f->fp = fp;
    if (bufsz > 0) setvbuf(fp, malloc(bufsz), _IOFBF, bufsz); else setvbuf(fp, malloc(4096), _IOFBF, 4096);
    if (pipe) fp->_fileno = -1;
    return fp;
}
FILE *__wrap_fopen(const char *path, const char *mode)
{
    int64_t aux; int flags;
    if (!sim_active || !is_sim_path(path)) return fopen(xlate(path), mode);
    sim_yield("fopen");
    slog("OPEN %s %s", path, mode);
    int w = mode[0] != 'r' || strchr(mode, '+');
    if (sim_armed && fire(K_FSERR, &aux, 5)) { errno = open_errs[aux]; return NULL; }
    if (disk_full && mode[0] == 'w' && access(xlate(path), F_OK) && quota == 0) { errno = ENOSPC; return NULL; }
    switch (mode[0]) {
    case 'r': flags = strchr(mode, '+') ? O_RDWR : O_RDONLY; break;
    case 'w': flags = (strchr(mode, '+') ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': flags = (strchr(mode, '+') ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: errno = EINVAL; return NULL;
    }
    (void)w;
    int fd = open(xlate(path), flags | O_CLOEXEC, 0666);
    if (fd < 0) return NULL;
    return wrap_fd(fd, path, mode, 0);
}
FILE *__wrap_fdopen(int fd, const char *mode)
{
    FILE *g = gui_fdopen(fd, mode);
    if (g) return g;
    if (!sim_active) return fdopen(fd, mode);
    return wrap_fd(fd, "fd", mode, 0);
}
static sfile *find_file(FILE *fp) { for (sfile *f = files; f; f = f->next) if (f->fp == fp) return f; return NULL; }
int __wrap_fclose(FILE *fp) { return fclose(fp); }

/* popen: the command runs to completion at once (its output is captured), so
   how it interleaves with the reader cannot depend on the machine. */
FILE *__wrap_popen(const char *cmd, const char *mode)
{
    int64_t aux;
    if (!sim_active) return popen(cmd, mode);
    sim_yield("popen");
    slog("POPEN %s", cmd);
    if (sim_armed && fire(K_SYSERR, &aux, 1)) { errno = EAGAIN; return NULL; }
    char tmp[700]; snprintf(tmp, sizeof tmp, "%s/.pipe%lu.%d", sim_rundir, ++mk_counter, sim_worker);
    char *x = xlate_cmd(cmd);
    if (mode[0] == 'r') {
        char *full = malloc(strlen(x) + 900);
        sprintf(full, "exec 8>&-; { %s\n} > '%s' </dev/null", x, tmp);
        fflush(stdout);
        int st = __real_system(full);
        free(full); free(x);
        /* give paths in the output their simulated names */
        int fd = open(tmp, O_RDONLY | O_CLOEXEC); unlink(tmp);
        if (fd < 0) return NULL;
        struct stat sb; fstat(fd, &sb);
        char *b = malloc(sb.st_size + 1), *o = malloc(sb.st_size + 1); size_t n = 0, r = 0; ssize_t k;
        while (n < (size_t)sb.st_size && (k = read(fd, b + n, sb.st_size - n)) > 0) n += k;
        close(fd);
        size_t m = strlen(sim_rundir), q = strlen(sim_outdir);
        for (size_t i = 0; i < n; ) {
            if (m && i + m <= n && !memcmp(b + i, sim_rundir, m)) { memcpy(o + r, "/sim", 4); r += 4; i += m; }
            else if (q && i + q <= n && !memcmp(b + i, sim_outdir, q)) { memcpy(o + r, "/voss", 5); r += 5; i += q; }
            else o[r++] = b[i++];
        }
        free(b);
        fd = open(tmp, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600); unlink(tmp);
        write_all(fd, o, r); free(o); lseek(fd, 0, SEEK_SET);
        FILE *fp = wrap_fd(fd, "popen", "r", 1);
        find_file(fp)->status = st;
        return fp;
    }
    int fd = open(tmp, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
    FILE *fp = wrap_fd(fd, "popen", "w", 1);
    sfile *f = find_file(fp); f->tmp = strdup(tmp); free(f->path); f->path = x;
    return fp;
}
int __wrap_pclose(FILE *fp)
{
    sfile *f = find_file(fp);
    if (!f) return pclose(fp);
    int st = f->status; char *tmp = f->tmp, *cmd = f->path;
    if (tmp) {
        f->path = strdup("popen");
        fclose(fp);
        char *full = malloc(strlen(cmd) + 900);
        sprintf(full, "exec 8>&-; { %s\n} < '%s'", cmd, tmp);
        fflush(stdout);
        st = __real_system(full); unlink(tmp);
        free(full); free(tmp); free(cmd);
        return st;
    }
    fclose(fp);
    return st;
}

/* ------------------------------------------------------------ raw calls */
int __wrap_open(const char *path, int flags, mode_t mode)
{
    int64_t aux;
    if (!sim_active || !is_sim_path(path)) return open(xlate(path), flags, mode);
    sim_yield("open");
    slog("OPENRAW %s", path);
    if (sim_armed && fire(K_FSERR, &aux, 5)) { errno = open_errs[aux]; return -1; }
    return open(xlate(path), flags | O_CLOEXEC, mode);
}
int __wrap_close(int fd) { return close(fd); }
ssize_t __wrap_read(int fd, void *b, size_t n)
{
    int64_t aux; int mine;
    ssize_t gr = gui_read(fd, b, n, 0, &mine);
    if (mine) return gr;
    if (!sim_active) return read(fd, b, n);
    sim_yield("rawread");
    if (sim_armed && n > 1 && fire(K_SHORT, &aux, 100)) { size_t w = 1 + n * aux / 100; n = w < n ? w : n; }
    return read(fd, b, n);
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
    int err, mine;
    ssize_t gr = gui_write(fd, b, n, 0, &mine);
    if (mine) return gr;
    if (!sim_active || fd <= 2) return write(fd, b, n);
    sim_yield("rawwrite");
    size_t m = disk_take(n, &err);
    if (m) write_all(fd, b, m);
    if (err && !m) { errno = err; return -1; }
    return m;
}
off_t __wrap_lseek(int fd, off_t o, int w) { return lseek(fd, o, w); }
int __wrap_access(const char *p, int m) { if (sim_active) sim_yield("access"); return access(xlate(p), m); }
int __wrap_unlink(const char *p)
{
    if (sim_active) { sim_yield("unlink"); slog("UNLINK %s", p); }
    return unlink(xlate(p));
}
int __wrap_rename(const char *a, const char *b)
{
    extern int __real_rename(const char *, const char *);
    char t[PATH_MAX]; int64_t aux;
    if (!sim_active) return __real_rename(a, b);
    sim_yield("rename"); slog("RENAME %s %s", a, b);
    if (sim_armed && fire(K_FSERR, &aux, 2)) { errno = aux ? EIO : ENOSPC; return -1; }
    snprintf(t, sizeof t, "%s", xlate(a));
    return __real_rename(t, xlate(b));
}
int __wrap_remove(const char *p)
{
    extern int __real_remove(const char *);
    if (!sim_active) return __real_remove(p);
    sim_yield("remove"); slog("REMOVE %s", p);
    return __real_remove(xlate(p));
}
int __wrap_rmdir(const char *p) { extern int __real_rmdir(const char *); if (sim_active) { sim_yield("rmdir"); slog("RMDIR %s", p); } return __real_rmdir(xlate(p)); }
int __wrap_mkdir(const char *p, mode_t m) { extern int __real_mkdir(const char *, mode_t); if (sim_active) { sim_yield("mkdir"); slog("MKDIR %s", p); } return __real_mkdir(xlate(p), m); }
int __wrap_stat(const char *p, struct stat *s) { extern int __real_stat(const char *, struct stat *); if (sim_active) sim_yield("stat"); return __real_stat(xlate(p), s); }
int __wrap_lstat(const char *p, struct stat *s) { extern int __real_lstat(const char *, struct stat *); if (sim_active) sim_yield("stat"); return __real_lstat(xlate(p), s); }
static char *fresh_name(char *tmpl)
{
    size_t l = strlen(tmpl);
    if (l < 6 || strcmp(tmpl + l - 6, "XXXXXX")) { errno = EINVAL; return NULL; }
    char num[8]; snprintf(num, sizeof num, "%c%05lu", sim_worker ? 'a' + (sim_worker - 1) % 26 : 'M', ++mk_counter % 100000);
    memcpy(tmpl + l - 6, num, 6);
    return tmpl;
}
int __wrap_mkstemp(char *t)
{
    int64_t aux;
    if (!sim_active) { extern int __real_mkstemp(char *); return __real_mkstemp(t); }
    sim_yield("mkstemp");
    if (sim_armed && fire(K_FSERR, &aux, 5)) { errno = open_errs[aux]; return -1; }
    for (int i = 0; i < 1000; i++) {
        size_t l = strlen(t);
        if (i) memcpy(t + l - 6, "XXXXXX", 6);
        if (!fresh_name(t)) return -1;
        int fd = open(xlate(t), O_RDWR | O_CREAT | O_EXCL | O_CLOEXEC, 0600);
        if (fd >= 0 || errno != EEXIST) { slog("MKSTEMP %s", t); return fd; }
    }
    return -1;
}
char *__wrap_mkdtemp(char *t)
{
    int64_t aux;
    if (!sim_active) { extern char *__real_mkdtemp(char *); return __real_mkdtemp(t); }
    if (!strncmp(t, "/tmp/", 5)) memcpy(t, "/sim", 4);     /* a worker's own directory */
    sim_yield("mkdtemp");
    if (sim_armed && fire(K_FSERR, &aux, 5)) { errno = open_errs[aux]; return NULL; }
    for (int i = 0; i < 1000; i++) {
        size_t l = strlen(t);
        if (i) memcpy(t + l - 6, "XXXXXX", 6);
        if (!fresh_name(t)) return NULL;
        if (!__real_mkdir(xlate(t), 0700)) { slog("MKDTEMP %s", t); return t; }
        if (errno != EEXIST) return NULL;
    }
    return NULL;
}
char *__wrap_realpath(const char *p, char *out)
{
    char b[PATH_MAX]; char *r = __real_realpath(xlate(p), b);
    if (!r) { if (out) { strcpy(out, b); simpath_back(out); } return NULL; }
    simpath_back(r);
    if (!out) out = malloc(PATH_MAX);
    strcpy(out, r); return out;
}
char *__wrap_getcwd(char *b, size_t n)
{
    char t[PATH_MAX];
    if (!__real_getcwd(t, sizeof t)) return NULL;
    if (getenv("VSIM_CTL") && !sim_active) strcpy(t, "/sim");   /* where every run will be */
    simpath_back(t);
    if (strlen(t) + 1 > n) { errno = ERANGE; return NULL; }
    return strcpy(b, t);
}
ssize_t __wrap_readlink(const char *p, char *b, size_t n)
{
    extern ssize_t __real_readlink(const char *, char *, size_t);
    if (!strncmp(p, "/proc/", 6) && strstr(p, "/exe") && sim_outdir[0]) {
        const char *s = "/voss/bin/fl"; size_t l = strlen(s); if (l > n) l = n; memcpy(b, s, l); return l;
    }
    return __real_readlink(xlate(p), b, n);
}

/* ------------------------------------------------------------- allocator */
static int fail_alloc(size_t n)
{
    (void)n;
    if (sim_armed && (kinds[K_MEMFAIL].next || kinds[K_MEMFAIL].explicit_list) && fire(K_MEMFAIL, NULL, 0)) { errno = ENOMEM; return 1; }
    return 0;
}
static size_t padded(size_t n) { return pad_max ? n + rng_below(&pad_rng, pad_max) : n; }
void *__wrap_malloc(size_t n)
{
    if (!sim_active) return malloc(n);
    if (fail_alloc(n)) return NULL;
    void *p = malloc(padded(n));
    if (p && junk) memset(p, (int)junk, n);
    return p;
}
void *__wrap_calloc(size_t a, size_t b)
{
    if (!sim_active) return calloc(a, b);
    if (fail_alloc(a * b)) return NULL;
    return calloc(1, padded(a * b));
}
void *__wrap_realloc(void *o, size_t n)
{
    if (!sim_active) return realloc(o, n);
    if (fail_alloc(n)) return NULL;
    if (!junk && !poison && !pad_max) return realloc(o, n);
    extern size_t malloc_usable_size(void *);
    if (n == 0) return realloc(o, n);
    void *p = malloc(padded(n));
    if (!p) return NULL;
    size_t u = o ? malloc_usable_size(o) : 0;
    if (u > n) u = n;
    if (junk) memset((char *)p + u, (int)junk, n - u);
    if (o) { memcpy(p, o, u); if (poison) memset(o, 0xA5, malloc_usable_size(o)); free(o); }
    return p;
}
void __wrap_free(void *p)
{
    extern size_t malloc_usable_size(void *);
    if (sim_active && poison && p) memset(p, 0xA5, malloc_usable_size(p));
    free(p);
}
int __wrap_posix_memalign(void **r, size_t a, size_t n)
{
    if (sim_active && fail_alloc(n)) return ENOMEM;
    int x = __real_posix_memalign(r, a, n);
    if (!x && sim_active && junk) memset(*r, (int)junk, n);
    return x;
}
