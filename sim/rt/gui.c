/* Graphical mode: the five socket connections to the Tcl/Tk front end, and a
   stand-in for that front end (the protocol of front_end.tcl; its windows are
   left out). When and in what pieces bytes arrive, how slow the front end is,
   which of its event sources it serves first, and when its user presses a
   button are decisions of the seed (kind "peer"). */
#include "simrt.h"

enum { C_SYNC, C_OUT, C_CMD, C_CB, C_CBRES, C_N };
static const char *cname[C_N] = { "sync", "out", "cmd", "callback", "cbres" };

typedef struct { char *b; size_t n, cap; } bytes_t;
typedef struct {
    int     fd;
    FILE   *fp;
    bytes_t in;               /* towards fl: arrived .. in.n are still on their way */
    size_t  arrived;
    bytes_t out;              /* from fl; the front end has read the first taken of them but no whole line */
    size_t  taken;
    int     hold, cut, gap;
    uint64_t quiet;           /* no new trouble before this step: every delay is followed by as much time without */
} chan_t;
static chan_t ch[C_N];
static int gui_on, n_accepted, lfd = -1;
static size_t sock_cap = 1u << 20;

static void badd(bytes_t *x, const char *s, size_t n)
{
    if (x->n + n + 1 > x->cap) { x->cap = (x->n + n + 1) * 2; x->b = realloc(x->b, x->cap); }
    memcpy(x->b + x->n, s, n); x->n += n; x->b[x->n] = 0;
}
static void bcut(bytes_t *x, size_t n) { memmove(x->b, x->b + n, x->n - n + 1); x->n -= n; }
static char *bline(bytes_t *x)       /* the first complete line, without its end */
{
    char *e = x->n ? memchr(x->b, '\n', x->n) : NULL;
    if (!e) return NULL;
    size_t l = e - x->b; char *r = malloc(l + 1);
    memcpy(r, x->b, l); r[l] = 0; bcut(x, l + 1); return r;
}
int gui_enabled(void) { return gui_on; }

/* ------------------------------------------------ front_end.tcl's encoding */
static char *tcl_protect(const char *s)
{
    char *r = malloc(strlen(s) * 6 + 1), *w = r;
    for (; *s; s++) {
        if (strchr("][{};#\"\\$ \r\t\n", *s) || (unsigned char)*s >= 0x80) w += sprintf(w, "\\u%04x", (unsigned char)*s);
        else *w++ = *s;
    }
    *w = 0; return r;
}
static char *tcl_unprotect(const char *s)
{
    char *r = malloc(strlen(s) + 1), *w = r; unsigned u;
    for (; *s; ) {
        if (*s == '\\' && s[1] == 'u' && strspn(s + 2, "0123456789abcdefABCDEF") >= 4 && sscanf(s, "\\u%04x", &u) == 1) { *w++ = (char)u; s += 6; }
        else *w++ = *s++;
    }
    *w = 0; return r;
}
static void clean_backslashes(char *s)
{
    char *w = s; int seen = 0;
    for (; *s; s++) {
        if (seen) { if (*s != '{' && *s != '}') *w++ = '\\'; *w++ = *s; seen = 0; }
        else if (*s == '\\') seen = 1;
        else *w++ = *s;
    }
    *w = 0;
}

/* -------------------------------------------------------- scripted programs */
typedef struct { int id, n; char **op; } prog_t;
static prog_t *progs; static int n_progs;
static int *events, n_events, next_event;
typedef struct { char *name, *tag; } exp_t;
static exp_t *exports; static int n_exports;
typedef struct { int kind, sync_id, pc, wait_rid, sleep; prog_t *p; char *res, *kept[10]; int res_ok; } frame_t;
enum { F_USER, F_SYNC, F_EVENT };
static frame_t fr[400]; static int nfr;
static char *results[20000]; static int next_rid = 1;
static char *cmd_result; static int user_waits;
static int stall, swapped, slow, pressed, intr_now;
static uint64_t idle, now, quiet;
static uint64_t noprog;              /* steps since a byte was taken or written or the front end did something */
static int draining;                 /* #events: let all events happen */

static prog_t *find_prog(int id) { for (int i = 0; i < n_progs; i++) if (progs[i].id == id) return &progs[i]; return NULL; }
static void load_peer(void)
{
    char *t = NULL, *save; int fd = open("peer", O_RDONLY); struct stat st;
    n_progs = n_events = next_event = 0;
    if (fd < 0 || fstat(fd, &st)) return;
    t = calloc(1, st.st_size + 1); if (read(fd, t, st.st_size) != st.st_size) _exit(95);
    close(fd);
    progs = calloc(1000, sizeof *progs); events = calloc(1000, sizeof *events);
    prog_t *p = NULL;
    for (char *l = strtok_r(t, "\n", &save); l; l = strtok_r(NULL, "\n", &save)) {
        for (char *c = l; *c; c++) if (*c == '\x01') *c = '\n';
        if (!strncmp(l, "P ", 2)) { p = &progs[n_progs++]; p->id = atoi(l + 2); p->op = calloc(200, sizeof *p->op); }
        else if (!strncmp(l, "V ", 2)) events[n_events++] = atoi(l + 2);
        else if (p && p->n < 200) p->op[p->n++] = l;
    }
}
static void send_fl(int c, const char *s) { badd(&ch[c].in, s, strlen(s)); }

static frame_t *push_frame(int kind, int sync_id, prog_t *p)
{
    if (nfr >= 400) sim_die(98, "peerdepth");
    frame_t *f = &fr[nfr++]; memset(f, 0, sizeof *f);
    f->kind = kind; f->sync_id = sync_id; f->p = p; return f;
}
static void answer_sync(int id, int failed, const char *text)
{
    char *p = tcl_protect(text), *b = malloc(strlen(p) + 40);
    sprintf(b, "%d%d %s\n", failed, id, p); send_fl(C_SYNC, b);
    slog("TCLRES %d %d %zu %.200s", id, failed, strlen(text), p);
    free(p); free(b);
}
static void finish_frame(int failed, const char *text)
{
    frame_t f = fr[--nfr];
    if (f.kind == F_SYNC) answer_sync(f.sync_id, failed, text);
    else slog("EVENTDONE %d %d", f.p ? f.p->id : -1, failed);
}
/* The front end has one thread: while a program is not waiting nothing else happens. */
static int runnable(frame_t *f) { return f->wait_rid ? results[f->wait_rid] != NULL : f->sleep <= 0; }
/* One action of the top frame. */
static int run_frame(void)
{
    frame_t *f = &fr[nfr - 1];
    if (f->wait_rid) {
        char *r = results[f->wait_rid];
        f->res_ok = r[0] == '1'; f->res = r[0] ? r + 1 : r;
        slog("CBRES %d %s", f->wait_rid, r);
        if (r[0] == '0' && !strncmp(r + 1, "Interrupt", 9)) slog("REJECTED %d", f->wait_rid);
        f->wait_rid = 0;
        char *nx = f->pc < f->p->n ? f->p->op[f->pc] : "";
        if (!f->res_ok && strncmp(nx, "want", 4)) { finish_frame(1, f->res); return 1; }   /* an uncaught error */
        return 1;
    }
    if (f->pc >= f->p->n) { finish_frame(0, ""); return 1; }
    char *op = f->p->op[f->pc++];
    if (!strncmp(op, "call ", 5)) {
        char name[200]; int n = 0; char *tag = NULL;
        sscanf(op + 5, "%199s %n", name, &n);
        for (int i = 0; i < n_exports; i++) if (!strcmp(exports[i].name, name)) tag = exports[i].tag;
        if (!tag) { slog("NOPROC %s", name); finish_frame(1, "invalid command name"); return 1; }
        const char *args = n ? op + 5 + n : "";
        char *x = calloc(1, strlen(args) + 1000), *w = x;
        for (const char *a = args; *a && w < x + strlen(args) + 900; a++)      /* $0: a result kept before */
            if (*a == '$' && isdigit((unsigned char)a[1])) { w += sprintf(w, "%.100s", f->kept[a[1] - '0'] ? f->kept[a[1] - '0'] : ""); a++; }
            else *w++ = *a;
        args = x;
        char *b = malloc(strlen(tag) + strlen(args) + 60);
        if (next_rid >= 20000) sim_die(98, "peercalls");
        f->wait_rid = next_rid++;
        sprintf(b, "%d %s %s\n", f->wait_rid, tag, args); send_fl(C_CB, b);
        slog("CALL %d %s %.200s", f->wait_rid, name, args);
        free(b); free(x);
    } else if (!strncmp(op, "keep ", 5)) { f->kept[op[5] - '0'] = f->res ? strdup(f->res) : NULL;
    } else if (!strncmp(op, "want ", 5)) {
        int ok = op[5] == '1';
        if (ok != f->res_ok || strcmp(f->res, op + 7)) slog("MISMATCH prog %d op %d: got %d %s", f->p->id, f->pc - 1, f->res_ok, f->res);
    } else if (!strncmp(op, "wantfail ", 9)) {
        if (f->res_ok || !strstr(f->res, op + 9)) slog("MISMATCH prog %d op %d: got %d %s", f->p->id, f->pc - 1, f->res_ok, f->res);
    } else if (!strcmp(op, "wantany")) {
        if (!f->res_ok) { slog("MISMATCH prog %d op %d: got 0 %s", f->p->id, f->pc - 1, f->res); finish_frame(1, f->res); }
    } else if (!strncmp(op, "ret ", 4)) finish_frame(0, op + 4);
    else if (!strcmp(op, "ret")) finish_frame(0, "");
    else if (!strcmp(op, "retlast")) finish_frame(!f->res_ok, f->res ? f->res : "");
    else if (!strncmp(op, "err ", 4)) finish_frame(1, op + 4);
    else if (!strncmp(op, "log ", 4)) slog("PEERLOG %s", op + 4);
    else if (!strncmp(op, "wait ", 5)) f->sleep = atoi(op + 5);
    return 1;
}
/* A line of the channel for requests without result. */
static int out_line(void)
{
    char *l = bline(&ch[C_OUT].out), name[200], tag[300];
    if (!l) return 0;
    static const struct { const char *cmd; int fd; } W[] = {
        { "WriteStdOut", 1 }, { "WriteFlGC", 1 }, { "WriteBddGC", 1 }, { "WriteWarning", 1 },
        { "WriteStdErr", 2 }, { "WriteSim", 2 }, { NULL, 0 } };
    char *u = tcl_unprotect(l);
    int done = 0;
    for (int i = 0; W[i].cmd; i++) {
        size_t k = strlen(W[i].cmd), n = strlen(u);
        if (strncmp(u, W[i].cmd, k) || strncmp(u + k, " {", 2)) continue;
        done = 1;
        if (n < k + 3 || u[n - 1] != '}') { slog("BADOUT %s", l); break; }
        u[n - 1] = 0; clean_backslashes(u + k + 2);
        const char *s = u + k + 2; size_t sl = strlen(s);
        while (sl) { ssize_t w = write(W[i].fd, s, sl); if (w <= 0) break; s += w; sl -= w; }
        break;
    }
    if (!done && sscanf(u, "proc %199s args { eval __basic_fl_callback %299s $args; }", name, tag) == 2) {
        done = 1; slog("PROC %s %s", name, tag);
        exports = realloc(exports, (n_exports + 1) * sizeof *exports);
        exports[n_exports].name = strdup(name); exports[n_exports++].tag = strdup(tag);
    }
    if (!done) slog("OUT %.300s", l);
    free(u); free(l); return 1;
}
static int sync_line(void)
{
    char *l = bline(&ch[C_SYNC].out);
    if (!l) return 0;
    char *e; int id = (int)strtol(l, &e, 10); if (*e == ' ') e++;
    char *cmd = tcl_unprotect(e);
    slog("TCL %d %zu %.200s", id, strlen(cmd), e);
    if (!sim_active) { char b[40]; sprintf(b, "0%d \n", id); send_fl(C_SYNC, b); }
    else if (!strncmp(cmd, "run ", 4)) {
        prog_t *p = find_prog(atoi(cmd + 4));
        if (p) push_frame(F_SYNC, id, p); else answer_sync(id, 1, "no such program");
    } else if (!strncmp(cmd, "echo ", 5)) answer_sync(id, 0, cmd + 5);
    else if (!strncmp(cmd, "fail ", 5)) answer_sync(id, 1, cmd + 5);
    else if (!strncmp(cmd, "imp", 3)) answer_sync(id, 0, cmd);       /* an imported function: its words */
    else if (!strcmp(cmd, "voss2_interrupt_action")) { char a[2] = { (char)gui_intr_answer(), 0 }; answer_sync(id, 0, a); }
    else if (!strcmp(cmd, "voss2_recursion_limit_override")) answer_sync(id, 0, "a");
    else answer_sync(id, 0, "");
    free(cmd); free(l); return 1;
}
static int cbres_line(void)
{
    char *l = bline(&ch[C_CBRES].out);
    if (!l) return 0;
    char *u = tcl_unprotect(l), *e; long rid = strtol(u, &e, 10);
    if (e == u || *e != ' ' || rid < 1 || rid >= next_rid) slog("MISMATCH answer to no call: %.200s", l);
    else if (results[rid]) slog("MISMATCH second answer to call %ld: %.200s", rid, l);
    else { results[rid] = strdup(e + 1); slog("GOT %ld", rid); }
    free(u); free(l); return 1;
}
static int cmdres_line(void)
{
    char *l = bline(&ch[C_CMD].out);
    if (!l) return 0;
    slog("CMDRES %s", l);
    if (!user_waits) slog("MISMATCH answer to no command: %s", l);
    cmd_result = l; user_waits = 0; return 1;
}
static void start_event(void)
{
    prog_t *p = find_prog(events[next_event++]);
    if (!p) return;
    slog("EVENT %d", p->id); push_frame(F_EVENT, 0, p);
}
/* The user types the next statement once the last one is answered. */
static int user_step(void)
{
    if (user_waits || nfr) return 0;
    while (out_line()) ;
    char *s = gui_next_statement();
    if (!s) return 0;
    user_waits = 1; free(cmd_result); cmd_result = NULL;
    int lines = 1; for (char *c = s; *c; c++) lines += *c == '\n';
    char b[40]; sprintf(b, "%d\n", lines); send_fl(C_CMD, b);
    for (char *l = s; l; ) {
        char *e = strchr(l, '\n'); if (e) *e = 0;
        char *p = tcl_protect(l); send_fl(C_CMD, p); send_fl(C_CMD, "\n"); free(p);
        l = e ? e + 1 : NULL;
    }
    free(s); return 1;
}
/* One event of the front end's event loop. */
static int tcl_step(void)
{
    int did = 0;
    if (nfr && runnable(&fr[nfr - 1])) return run_frame();
    if (pressed && next_event < n_events) { pressed--; start_event(); return 1; }
    if (swapped) { swapped--; did = sync_line() || cbres_line() || cmdres_line() || out_line(); }
    else did = out_line() || cmdres_line() || cbres_line() || sync_line();
    for (int i = 0; i < C_N; i++) {
        if (ch[i].taken > ch[i].out.n || did) ch[i].taken = 0;
        if (!did && ch[i].taken < ch[i].out.n) { ch[i].taken = ch[i].out.n; did = 1; break; }
    }
    if (did) return 1;
    if (nfr && fr[nfr - 1].sleep > 0) { fr[nfr - 1].sleep--; return 1; }
    if (!nfr && sim_active && draining && next_event < n_events && !user_waits) { start_event(); return 1; }
    if (sim_active && user_step()) return 1;
    return 0;
}
static void step(const char *why)
{
    int64_t aux; int moved = 0;
    if (sim_active) {
        vclock_advance(1000); sim_tick();
        if (sim_armed) {
            if (maybe_interrupt()) intr_now = 1;
            now++;
            if (fire(K_PEER, &aux, 4096)) {
                int op = aux % 8, par = (int)(aux / 8);
                chan_t *c = &ch[(int[]){ C_SYNC, C_CMD, C_CB }[par % 3]];
                switch (op) {
                case 0: case 1: if (now < c->quiet) break; c->quiet = now + 2 * (1 + par / 128) + 4; c->cut = 1 + par / 3 % 40; c->gap = 1 + par / 128; break;
                case 2: if (now < quiet) break; stall = 1 + par; quiet = now + 2 * stall + 20; break;
                case 3: case 4: pressed++; break;
                case 5: if (now < c->quiet) break; c->hold = 1 + par / 4; c->quiet = now + 2 * c->hold + 4; break;
                case 6: if (now < quiet) break; slow = 1 + par; quiet = now + 2 * slow + 20; break;
                case 7: swapped = 1 + par / 8; break;
                }
            }
        }
    }
    if (stall > 0) { stall--; moved = 1; }
    else {
        int k = slow > 0 ? 1 : 100000;
        if (slow > 0) slow--;
        while (k-- > 0 && tcl_step()) { moved = 1; noprog = 0; }
    }
    for (int i = 0; i < C_N; i++) {
        if (ch[i].hold > 0) { ch[i].hold--; moved = 1; continue; }
        if (ch[i].arrived != ch[i].in.n) { ch[i].arrived = ch[i].in.n; moved = 1; }
    }
    if (moved) idle = 0; else idle++;
    if (++noprog > 30000 && sim_active) {
        for (int i = 0; i < C_N; i++) slog("LEFT %s in %zu/%zu out %zu", cname[i], ch[i].arrived, ch[i].in.n, ch[i].out.n);
        slog("GUISTUCK %s frames %d userwaits %d", why, nfr, user_waits);
        sim_die(99, "guistuck");
    }
}
void gui_events_first(int on) { draining = on; }
int gui_events_left(void) { return next_event < n_events || nfr; }

/* ------------------------------------------------------------ system calls */
static chan_t *by_fd(int fd) { if (gui_on) for (int i = 0; i < C_N; i++) if (i < n_accepted && ch[i].fd == fd) return &ch[i]; return NULL; }
static int nonblock(chan_t *c) { int f = fcntl(c->fd, F_GETFL, 0); return f >= 0 && (f & O_NONBLOCK); }
static ssize_t chan_read(chan_t *c, char *b, size_t n, int nb)
{
    for (;;) {
        step("read");
        if (c->gap > 0 && !c->cut) { c->gap--; idle = 0; }
        else if (c->arrived) {
            size_t k = c->arrived < n ? c->arrived : n;
            if (c->cut) { if ((size_t)c->cut < k) k = c->cut; c->cut = 0; }
            memcpy(b, c->in.b, k); bcut(&c->in, k); c->arrived -= k; idle = noprog = 0;
            slog("RD %s %zu", cname[c - ch], k);
            return k;
        }
        if (nb) { errno = EAGAIN; return -1; }
    }
}
static ssize_t chan_write(chan_t *c, const char *b, size_t n, int nb)
{
    step("write");
    size_t done = 0;
    while (done < n) {
        size_t room = c->out.n - c->taken < sock_cap ? sock_cap - (c->out.n - c->taken) : 0;
        if (!room) {
            if (nb) { if (done) return done; slog("EAGAIN %s", cname[c - ch]); errno = EAGAIN; return -1; }
            step("fullwrite"); continue;
        }
        size_t k = n - done < room ? n - done : room;
        badd(&c->out, b + done, k); done += k; idle = noprog = 0;
    }
    return done;
}
static ssize_t gk_read(void *v, char *b, size_t n) { return chan_read(v, b, n, nonblock(v)); }
static ssize_t gk_write(void *v, const char *b, size_t n)
{
    /* like the C library's write to a descriptor: until all is written or an error */
    size_t done = 0; chan_t *c = v;
    while (done < n) { ssize_t k = chan_write(c, b + done, n - done, nonblock(c)); if (k < 0) break; done += k; }
    return done;
}
FILE *gui_fdopen(int fd, const char *mode)
{
    if (!gui_on) return NULL;
    for (int i = 0; i < C_N; i++) if (ch[i].fd == fd && fd > 0) {
        cookie_io_functions_t io = { .read = gk_read, .write = gk_write };
        FILE *fp = fopencookie(&ch[i], mode, io);
        if (!ch[i].fp) ch[i].fp = fp;
        return fp;
    }
    return NULL;
}
int gui_system(const char *cmd) { return gui_on && !strncmp(cmd, "wish ", 5); }
ssize_t gui_read(int fd, void *b, size_t n, int nb, int *mine)
{
    chan_t *c = by_fd(fd); *mine = c != NULL;
    return c ? chan_read(c, b, n, nb || nonblock(c)) : 0;
}
ssize_t gui_write(int fd, const void *b, size_t n, int nb, int *mine)
{
    chan_t *c = by_fd(fd); *mine = c != NULL;
    return c ? chan_write(c, b, n, nb || nonblock(c)) : 0;
}
#define R(r, f, ...) extern r __real_##f(__VA_ARGS__)
R(int, socket, int, int, int); R(int, bind, int, const struct sockaddr *, socklen_t);
R(int, getsockname, int, struct sockaddr *, socklen_t *); R(int, listen, int, int);
R(int, accept, int, struct sockaddr *, socklen_t *); R(int, poll, struct pollfd *, nfds_t, int);
R(int, fileno, FILE *); R(void *, XOpenDisplay, const char *); R(char *, XResourceManagerString, void *); R(int, XCloseDisplay, void *); R(ssize_t, recv, int, void *, size_t, int); R(ssize_t, send, int, const void *, size_t, int);
int __wrap_socket(int d, int t, int p) { if (!gui_on) return __real_socket(d, t, p); return lfd = open("/dev/null", O_RDWR); }
int __wrap_bind(int s, const struct sockaddr *a, socklen_t l) { return gui_on && s == lfd ? 0 : __real_bind(s, a, l); }
int __wrap_getsockname(int s, struct sockaddr *a, socklen_t *l) { return gui_on && s == lfd ? 0 : __real_getsockname(s, a, l); }
int __wrap_listen(int s, int n) { return gui_on && s == lfd ? 0 : __real_listen(s, n); }
int __wrap_accept(int s, struct sockaddr *a, socklen_t *l)
{
    if (!gui_on || s != lfd) return __real_accept(s, a, l);
    if (n_accepted >= C_N) { errno = EMFILE; return -1; }
    return ch[n_accepted++].fd = open("/dev/null", O_RDWR);
}
int __wrap_fileno(FILE *fp)
{
    if (gui_on) for (int i = 0; i < C_N; i++) if (ch[i].fp == fp) return ch[i].fd;
    return __real_fileno(fp);
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int flags)
{
    int mine; ssize_t r = gui_read(fd, b, n, (flags & MSG_DONTWAIT) != 0, &mine);
    return mine ? r : __real_recv(fd, b, n, flags);
}
ssize_t __wrap_send(int fd, const void *b, size_t n, int flags)
{
    int mine; ssize_t r = gui_write(fd, b, n, (flags & MSG_DONTWAIT) != 0, &mine);
    return mine ? r : __real_send(fd, b, n, flags);
}
int __wrap_poll(struct pollfd *p, nfds_t n, int timeout)
{
    if (!gui_on) return __real_poll(p, n, timeout);
    gui_first_wait();
    for (int round = 0; ; round++) {
        int k = 0;
        step("poll");
        for (nfds_t i = 0; i < n; i++) {
            chan_t *c = by_fd(p[i].fd);
            p[i].revents = 0;
            if (!c) continue;
            if (c->gap > 0 && !c->cut) { c->gap--; idle = 0; continue; }
            if ((p[i].events & POLLIN) && c->arrived) p[i].revents |= POLLIN;
            if ((p[i].events & POLLOUT) && c->out.n - c->taken < sock_cap) p[i].revents |= POLLOUT;
            k += p[i].revents != 0;
        }
        if (k) return k;
        if (timeout >= 0 && round >= timeout) return 0;
        if (intr_now) { intr_now = 0; errno = EINTR; return -1; }
        /* The user has nothing more to type and nothing is under way. */
        if (sim_active && idle > 50 && !user_waits && !nfr && gui_script_done()) { slog("EOF"); __real_exit(0); }
    }
}
void gui_init_run(void)
{
    if (!gui_on) return;
    sock_cap = plan_int("sock_cap", 1 << 20);
    load_peer();
    stall = swapped = slow = draining = pressed = intr_now = 0; now = quiet = 0; idle = noprog = 0; nfr = 0; user_waits = 0;
}
void gui_boot(void) { gui_on = getenv("VSIM_GUI") != NULL; }
/* The X server is only asked for a font preference. */
void *__wrap_XOpenDisplay(const char *n) { static char d[64]; return gui_on ? (void *)d : __real_XOpenDisplay(n); }
char *__wrap_XResourceManagerString(void *d) { return gui_on ? NULL : __real_XResourceManagerString(d); }
int __wrap_XCloseDisplay(void *d) { return gui_on ? 0 : __real_XCloseDisplay(d); }
