/* Simulator runtime for VossII's fl: shared declarations. */
#ifndef SIMRT_H
#define SIMRT_H
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <ctype.h>
#include <time.h>
#include <poll.h>
#include <dirent.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/socket.h>
#include <sys/mman.h>
#include <limits.h>
#include "voss_sim.h"

/* The runtime itself talks to the real libc. */
#define REAL(r, f, ...) extern r __real_##f(__VA_ARGS__)
REAL(void *, malloc, size_t); REAL(void *, calloc, size_t, size_t); REAL(void *, realloc, void *, size_t);
REAL(void, free, void *); REAL(int, posix_memalign, void **, size_t, size_t);
REAL(FILE *, fopen, const char *, const char *); REAL(FILE *, fdopen, int, const char *);
REAL(int, fclose, FILE *); REAL(FILE *, popen, const char *, const char *); REAL(int, pclose, FILE *);
REAL(int, open, const char *, int, ...); REAL(int, close, int);
REAL(ssize_t, read, int, void *, size_t); REAL(ssize_t, write, int, const void *, size_t);
REAL(off_t, lseek, int, off_t, int); REAL(int, access, const char *, int); REAL(int, unlink, const char *);
REAL(char *, realpath, const char *, char *); REAL(char *, getcwd, char *, size_t);
REAL(int, system, const char *); REAL(pid_t, fork, void); REAL(pid_t, waitpid, pid_t, int *, int);
REAL(int, kill, pid_t, int); REAL(pid_t, getpid, void); REAL(void, exit, int) __attribute__((noreturn));
REAL(int, isatty, int); REAL(int, fgetc, FILE *); REAL(int, getchar, void);
#define malloc(...)  __real_malloc(__VA_ARGS__)
#define calloc(...)  __real_calloc(__VA_ARGS__)
#define realloc(...) __real_realloc(__VA_ARGS__)
#define free(...)    __real_free(__VA_ARGS__)
#define fopen(...)   __real_fopen(__VA_ARGS__)
#define fdopen(...)  __real_fdopen(__VA_ARGS__)
#define fclose(...)  __real_fclose(__VA_ARGS__)
#define popen(...)   __real_popen(__VA_ARGS__)
#define pclose(...)  __real_pclose(__VA_ARGS__)
#define open(...)    __real_open(__VA_ARGS__)
#define close(...)   __real_close(__VA_ARGS__)
#define read(...)    __real_read(__VA_ARGS__)
#define write(...)   __real_write(__VA_ARGS__)
#define lseek(...)   __real_lseek(__VA_ARGS__)
#define access(...)  __real_access(__VA_ARGS__)
#define unlink(...)  __real_unlink(__VA_ARGS__)
REAL(int, mkdir, const char *, mode_t);
#define mkdir(...)   __real_mkdir(__VA_ARGS__)
#define fork(...)    __real_fork(__VA_ARGS__)
#define waitpid(...) __real_waitpid(__VA_ARGS__)
#define kill(...)    __real_kill(__VA_ARGS__)
#define getpid(...)  __real_getpid(__VA_ARGS__)

/* Kinds of scheduler decisions. Each has its own counter of opportunities,
   its own pseudo-random stream, and either a rate (seeded search) or an
   explicit list of opportunities to use (replay, minimisation). */
enum kind { K_GC, K_BGC, K_REORD, K_INTR, K_SAT, K_FSERR, K_SHORT, K_SYSERR,
            K_CRASH, K_MEMFAIL, K_WORKER, K_WKILL, K_PEER, K_N };

typedef struct { uint64_t s[4]; } rng_t;
uint64_t rng_next(rng_t *r);
uint64_t rng_below(rng_t *r, uint64_t n);
void     rng_seed(rng_t *r, uint64_t seed, const char *stream);

typedef struct {
    const char *name;
    uint64_t    count;       /* opportunities seen while armed */
    uint64_t    fired;
    uint64_t    rate;        /* 1/rate per opportunity; 0 = never */
    uint64_t    burst;       /* after a fire, fire this many more in a row */
    uint64_t    burst_left;
    uint64_t    max;         /* at most this many fires */
    uint64_t    next;        /* opportunity number of the next fire */
    rng_t       rng;
    int         explicit_list;
    uint64_t    n_list, i_list;
    uint64_t   *list;
    int64_t    *aux;
} kind_t;

extern kind_t kinds[K_N];
extern int    sim_active;    /* a run is in progress */
extern int    sim_armed;     /* faults are allowed right now */
extern int    sim_worker;    /* this process is a simulated worker process */
extern uint64_t sim_seed;
extern char   sim_rundir[512], sim_outdir[512];

/* Does kind k fire at this opportunity? If so *aux gets its parameter,
   drawn below naux (or taken from the replay file). */
int  fire(enum kind k, int64_t *aux, uint64_t naux);
void slog(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void sim_die(int code, const char *why) __attribute__((noreturn));
const char *xlate(const char *path);
char *xlate_cmd(const char *cmd);
int  is_sim_path(const char *path);
void sim_yield(const char *what);      /* scheduling point at a seam */
void vclock_advance(uint64_t ns);
uint64_t vclock_now(void);
const char *plan_get(const char *key, const char *dflt);
int64_t plan_int(const char *key, int64_t dflt);

extern int sim_log_done, sim_child_pending, disk_full;
void vtimer_set(uint64_t secs);
void simpath_back(char *path);         /* real path -> virtual path, in place */

/* fs.c */
void fs_init_run(void);
int  run_command(const char *cmd, FILE **out);   /* simulated system()/popen() */

/* proc.c */
void proc_init_run(void);
void proc_step(const char *why);
void proc_end_run(void);
int maybe_interrupt(void);
void worker_init(void);
void sleep_shim(const char *arg);
void worker_yield(const char *what);

/* gui.c */
void gui_init_run(void);
int  gui_enabled(void);
void gui_boot(void);
FILE *gui_fdopen(int fd, const char *mode);
int  gui_system(const char *cmd);
ssize_t gui_read(int fd, void *b, size_t n, int nb, int *mine);
ssize_t gui_write(int fd, const void *b, size_t n, int nb, int *mine);
void gui_events_first(int on);
int  gui_events_left(void);
char *gui_next_statement(void);
int  gui_intr_answer(void), gui_script_done(void);
void gui_first_wait(void), sim_tick(void);
#endif
