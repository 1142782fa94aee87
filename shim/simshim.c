// System-call seam for the real programs (iso-tool, the Python module).
// Preloaded into the process; a seeded scheduler decides what each call on the simulated
// part of the file system does: short transfers, interruptions, errors, torn writes, full
// disk, death, listing order, changes made by "someone else". Everything outside the
// simulated root can be read but not modified: such attempts are recorded and refused.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>
#include <sys/uio.h>
#include <sys/types.h>
#include <sys/syscall.h>
#include <unistd.h>

enum { K_OPEN, K_READ, K_WRITE, K_LSEEK, K_STAT, K_READDIR, K_OPENDIR, K_MKDIR, K_SYNC, K_TRUNC, K_CLOSE, K_OTHER, NK };
enum { A_NONE, A_SHORT, A_EINTR, A_ERR, A_ERRFOREVER, A_TORN, A_ZERO, A_ZEROFOREVER, A_CRASH, A_SWAP, A_ERRKIND };
#define NC 4
#define MAXEV 65536
#define MAXFIRED 65536
#define MAXFD 4096
#define TEXT (1 << 20)
#define MAXJUMP 8192

struct fired { uint32_t kind, cls; uint64_t nth; uint32_t act, pad; uint64_t arg; };
struct jump { uint32_t kind, cls; uint64_t nth, dir; }; // the first transfer after an open or a move
struct log {
    uint64_t magic, steps, trace, overbudget, hard, fullhits, nfired, ntext, crashed, started;
    uint64_t wbytes[NC];
    uint64_t counts[NC][NK];
    uint64_t clocks, njump;
    struct jump jump[MAXJUMP];
    struct fired fired[MAXFIRED];
    char text[TEXT]; // lines: E <op> <path> = refused modification; S <i> <0|1> = swap done, already opened before
};
struct ev { uint32_t kind, cls; uint64_t nth; uint32_t act; uint64_t arg; };

static struct log *L;
static int on;
static pthread_mutex_t mu = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;
static char root[PATH_MAX];
static size_t rootlen;
static struct { char path[PATH_MAX]; int cls; } classes[16];
static int nclasses;
static struct { uint64_t seed; int shrt, eintr, style; } amb[NC];
static struct ev *evs;
static int nev;
static int explicit_;
static uint64_t dirseed, rndseed, rndctr, clkctr, mono = 1000000000000ull, budget = ~0ull;
static uint64_t cap[NC], used[NC];
static uint32_t forever[NC]; // act, errno in arg
static uint64_t forever_arg[NC];
static uint64_t forever_kind[NC][NK]; // errno
static struct { char path[PATH_MAX], repl[PATH_MAX]; int seen, done; } swaps[8];
static int nswaps;
static struct { int used, cls, fresh; char path[512]; } fds[MAXFD];

static uint64_t mix(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static uint64_t mix2(uint64_t a, uint64_t b) { uint64_t m = mix(b); return mix(a ^ (m << 17 | m >> 47)); }
static uint64_t hash(const char *s) { uint64_t h = 7; while (*s) h = mix2(h, (unsigned char)*s++); return h; }

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__); if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static void text(const char *fmt, ...) {
    char b[2 * PATH_MAX];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    if (L && L->ntext + n + 1 < TEXT) { memcpy(L->text + L->ntext, b, n); L->ntext += n; L->text[L->ntext++] = '\n'; }
}

__attribute__((constructor)) static void init(void) {
    const char *conf = getenv("SIM_CONF");
    if (!conf) return;
    FILE *f = fopen(conf, "r");
    if (!f) _exit(97);
    evs = calloc(MAXEV, sizeof *evs);
    char *line = NULL;
    size_t cap_ = 0;
    char logp[PATH_MAX] = "";
    while (getline(&line, &cap_, f) > 0) {
        line[strcspn(line, "\n")] = 0;
        char *sp = strchr(line, ' ');
        if (!sp) continue;
        *sp++ = 0;
        unsigned long long a, b, c, d, e;
        if (!strcmp(line, "root")) { snprintf(root, sizeof root, "%s", sp); rootlen = strlen(root); }
        else if (!strcmp(line, "log")) snprintf(logp, sizeof logp, "%s", sp);
        else if (!strcmp(line, "class") && nclasses < 16) { classes[nclasses].cls = atoi(sp); snprintf(classes[nclasses].path, PATH_MAX, "%s", strchr(sp, ' ') + 1); nclasses++; }
        else if (!strcmp(line, "ambient")) { sscanf(sp, "%llu %llu %llu %llu %llu", &a, &b, &c, &d, &e); amb[a].seed = b; amb[a].shrt = c; amb[a].eintr = d; amb[a].style = e; }
        else if (!strcmp(line, "event") && nev < MAXEV) { sscanf(sp, "%llu %llu %llu %llu %llu", &a, &b, &c, &d, &e); evs[nev++] = (struct ev){a, b, c, d, e}; }
        else if (!strcmp(line, "explicit")) explicit_ = atoi(sp);
        else if (!strcmp(line, "dirseed")) dirseed = strtoull(sp, 0, 10);
        else if (!strcmp(line, "rndseed")) rndseed = strtoull(sp, 0, 10);
        else if (!strcmp(line, "budget")) budget = strtoull(sp, 0, 10);
        else if (!strcmp(line, "capacity")) { sscanf(sp, "%llu %llu", &a, &b); cap[a] = b + 1; }
        else if (!strcmp(line, "swap") && nswaps < 8) { // swap PATH\tREPLACEMENT ("" = remove)
            char *t = strchr(sp, '\t');
            *t++ = 0;
            snprintf(swaps[nswaps].path, PATH_MAX, "%s", sp);
            snprintf(swaps[nswaps].repl, PATH_MAX, "%s", t);
            nswaps++;
        }
    }
    free(line);
    fclose(f);
    int fd = syscall(SYS_openat, AT_FDCWD, logp, O_RDWR | O_CLOEXEC, 0);
    if (fd < 0) _exit(97);
    L = mmap(NULL, sizeof *L, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (L == MAP_FAILED) _exit(97);
    syscall(SYS_close, fd);
    L->started = 1;
    unsetenv("LD_PRELOAD");
    unsetenv("SIM_CONF");
    on = 1;
}

// ---- paths
static void lexical(char *p) { // absolute path, removes . and .. and double slashes
    char out[PATH_MAX] = "";
    size_t n = 0;
    char *save, *c, b[PATH_MAX];
    snprintf(b, sizeof b, "%s", p);
    for (c = strtok_r(b, "/", &save); c; c = strtok_r(NULL, "/", &save)) {
        if (!strcmp(c, ".")) continue;
        if (!strcmp(c, "..")) { while (n > 0 && out[n - 1] != '/') n--; if (n > 0) n--; out[n] = 0; continue; }
        n += snprintf(out + n, sizeof out - n, "/%s", c);
        if (n >= sizeof out) n = sizeof out - 1;
    }
    snprintf(p, PATH_MAX, "%s", n ? out : "/");
}
static void resolve(int dirfd, const char *path, int follow, char *out) {
    char full[2 * PATH_MAX];
    if (path[0] == '/') snprintf(full, sizeof full, "%s", path);
    else {
        char base[PATH_MAX] = "/";
        if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) strcpy(base, "/"); }
        else {
            char l[64];
            snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t n = syscall(SYS_readlink, l, base, sizeof base - 1);
            base[n > 0 ? n : 0] = 0;
        }
        snprintf(full, sizeof full, "%s/%s", base, path);
    }
    int e = errno;
    if (follow && realpath(full, out)) { errno = e; return; }
    // resolve the parent, keep the last component
    size_t n = strlen(full);
    while (n > 1 && full[n - 1] == '/') full[--n] = 0;
    char *s = strrchr(full, '/');
    char last[PATH_MAX];
    snprintf(last, sizeof last, "%s", s + 1);
    if (strcmp(last, "..") && strcmp(last, ".") && s != full) {
        *s = 0;
        char par[PATH_MAX];
        if (realpath(full, par)) {
            snprintf(out, PATH_MAX, "%.*s/%.*s", PATH_MAX - 260, strcmp(par, "/") ? par : "", 255, last);
            errno = e;
            return;
        }
        *s = '/';
    }
    snprintf(out, PATH_MAX, "%.*s", PATH_MAX - 1, full);
    lexical(out);
    errno = e;
}
static int inside(const char *p) { return rootlen && !strncmp(p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen]); }
static int class_of(const char *p) {
    if (!inside(p)) return -1;
    int best = 3;
    size_t bl = 0;
    for (int i = 0; i < nclasses; i++) {
        size_t l = strlen(classes[i].path);
        if (l >= bl && !strncmp(p, classes[i].path, l) && (p[l] == '/' || !p[l])) { best = classes[i].cls; bl = l; }
    }
    return best;
}
// a modification of path: 0 = go on, else refused
static int forbid(const char *op, const char *p) {
    if (!strcmp(p, "/dev/null") || !strcmp(p, "/dev/tty")) return 0;
    int c = class_of(p);
    if (c == 2) return 0; // only the destination may change
    text("E %s %s", op, c >= 0 ? p + rootlen : p);
    errno = EACCES;
    return 1;
}

static void die(void) { L->crashed = 1; syscall(SYS_exit_group, 99); __builtin_unreachable(); }

static void swap_points(uint64_t which) {
    for (int i = 0; i < nswaps; i++) if ((uint64_t)i == which && !swaps[i].done) {
        swaps[i].done = 1;
        int r;
        if (swaps[i].repl[0]) r = syscall(SYS_rename, swaps[i].repl, swaps[i].path);
        else r = syscall(SYS_unlink, swaps[i].path);
        text("S %d %d %d", i, swaps[i].seen, r);
    }
}

// the decision for one call
static uint32_t decide(int kind, int cls, uint64_t len, uint64_t *arg) {
    *arg = 0;
    if (++L->steps > budget) { L->overbudget = 1; syscall(SYS_exit_group, 98); }
    uint64_t nth = L->counts[cls][kind]++;
    uint32_t act = A_NONE;
    if (forever[cls]) {
        *arg = forever_arg[cls];
        L->hard++;
        if (forever[cls] == A_ZEROFOREVER) return kind == K_READ || kind == K_WRITE ? A_ZERO : A_NONE;
        return kind == K_CLOSE ? A_NONE : A_ERR;
    }
    if (forever_kind[cls][kind]) {
        *arg = forever_kind[cls][kind];
        L->hard++;
        return A_ERR;
    }
    for (int i = 0; i < nev; i++)
        if ((int)evs[i].kind == kind && (int)evs[i].cls == cls && evs[i].nth == nth) {
            if (evs[i].act == A_SWAP) {
                swap_points(evs[i].arg);
                if (L->nfired < MAXFIRED) L->fired[L->nfired++] = (struct fired){kind, cls, nth, A_SWAP, 0, evs[i].arg};
                continue;
            }
            act = evs[i].act; *arg = evs[i].arg;
        }
    if (!act && !explicit_ && (kind == K_READ || kind == K_WRITE) && len > 0 && (amb[cls].shrt || amb[cls].eintr)) {
        uint64_t h = mix2(amb[cls].seed ^ (uint64_t)cls << 40, nth << 4 | kind);
        if ((h & 1023) < (uint64_t)amb[cls].eintr) act = A_EINTR;
        else if (len > 1 && (h >> 10 & 1023) < (uint64_t)amb[cls].shrt) {
            act = A_SHORT;
            uint64_t r = mix(h);
            uint64_t m = len - 1;
            if (amb[cls].style == 1 && m > 17 && (len <= 0x4000 || (h >> 20 & 31) == 0)) m = 17;
            *arg = 1 + r % m;
            if (amb[cls].style == 2) *arg = len - *arg % 40 - 1 > 0 && len > 41 ? len - 1 - *arg % 40 : *arg;
            if (len > 0x4000 && amb[cls].style != 1 && *arg < len / 8) *arg += len / 4;
        }
    }
    if (!act) return 0;
    // out of domain events are ignored
    int rw = kind == K_READ || kind == K_WRITE;
    switch (act) {
    case A_SHORT: if (!rw || *arg < 1 || *arg >= len) act = 0; break;
    case A_EINTR: if (!(rw && len) && kind != K_OPEN) act = 0; break;
    case A_TORN: if (kind != K_WRITE || !len) act = 0; else *arg %= len; break;
    case A_ZERO: case A_ZEROFOREVER: if (!rw || !len) act = 0; break;
    case A_CRASH: if (kind == K_WRITE) *arg %= len + 1; else *arg = 0; break;
    case A_ERR: case A_ERRFOREVER: case A_ERRKIND: if (kind == K_CLOSE) act = 0; break;
    default: break;
    }
    if (!act) return 0;
    if (L->nfired < MAXFIRED) L->fired[L->nfired++] = (struct fired){kind, cls, nth, act, 0, *arg};
    if (act != A_SHORT && act != A_EINTR) L->hard++;
    if (act == A_ERRFOREVER) { forever[cls] = act; forever_arg[cls] = *arg; return A_ERR; }
    if (act == A_ERRKIND) { forever_kind[cls][kind] = *arg ? *arg : EIO; return A_ERR; }
    if (act == A_ZEROFOREVER) { forever[cls] = act; return A_ZERO; }
    return act;
}
static void note(int kind, uint64_t a, uint64_t b) { L->trace = mix2(L->trace ^ a, (uint64_t)kind << 56 ^ b); }

// simple calls: returns 1 when the call must fail (errno set)
static int simple(int kind, int cls, uint64_t h) {
    uint64_t arg;
    uint32_t a = decide(kind, cls, 0, &arg);
    note(kind, h, a);
    if (a == A_CRASH) die();
    if (a == A_ERR) { errno = arg ? (int)arg : EIO; return 1; }
    if (a == A_EINTR) { errno = EINTR; return 1; }
    return 0;
}
#define LOCK pthread_mutex_lock(&mu)
#define UNLOCK pthread_mutex_unlock(&mu)
static int track(int fd) { return on && fd >= 0 && fd < MAXFD && fds[fd].used; }

// a point at which something new starts, with the folder it happens in
static void mark(int kind, int cls, const char *path) {
    if (L->njump >= MAXJUMP) return;
    char d[512];
    snprintf(d, sizeof d, "%.500s", path);
    char *s = strrchr(d, '/');
    if (s) *s = 0;
    L->jump[L->njump++] = (struct jump){kind, cls, L->counts[cls][kind], hash(d)};
}

// ---- open
static int do_open(const char *op, int dirfd, const char *path, int flags, mode_t mode, int (*real)(int, const char *, int, mode_t)) {
    if (!on || !path) return real(dirfd, path, flags, mode);
    LOCK;
    char p[PATH_MAX];
    resolve(dirfd, path, !(flags & O_NOFOLLOW), p);
    int cls = class_of(p);
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    int r = -1;
    if (wr && forbid(op, p)) { UNLOCK; return -1; }
    if (cls >= 0) {
        mark(flags & O_DIRECTORY ? K_OPENDIR : K_OPEN, cls, p + rootlen);
        if (simple(flags & O_DIRECTORY ? K_OPENDIR : K_OPEN, cls, hash(p + rootlen))) { UNLOCK; return -1; }
        for (int i = 0; i < nswaps; i++) if (!strcmp(swaps[i].path, p)) swaps[i].seen = 1;
    }
    r = real(dirfd, path, flags, mode);
    if (r >= 0 && r < MAXFD) {
        int e = errno;
        fds[r].used = cls >= 0;
        fds[r].cls = cls;
        fds[r].fresh = 1;
        if (cls >= 0) snprintf(fds[r].path, sizeof fds[r].path, "%.500s", p + rootlen);
        errno = e;
    }
    UNLOCK;
    return r;
}
static int raw_openat(int d, const char *p, int f, mode_t m) { REAL(int, openat64, int, const char *, int, ...); return real_openat64(d, p, f, m); }
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { MODE return do_open("open", AT_FDCWD, p, flags, m, raw_openat); }
int open64(const char *p, int flags, ...) { MODE return do_open("open", AT_FDCWD, p, flags, m, raw_openat); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open("open", d, p, flags, m, raw_openat); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open("open", d, p, flags, m, raw_openat); }
int creat(const char *p, mode_t m) { return do_open("creat", AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m, raw_openat); }
int creat64(const char *p, mode_t m) { return creat(p, m); }

int close(int fd) {
    REAL(int, close, int);
    if (track(fd)) {
        LOCK;
        uint64_t a;
        if (decide(K_CLOSE, fds[fd].cls, 0, &a) == A_CRASH) die();
        fds[fd].used = 0;
        UNLOCK;
    }
    return real_close(fd);
}
int dup(int fd) { REAL(int, dup, int); int r = real_dup(fd); if (r >= 0 && track(fd) && r < MAXFD) fds[r] = fds[fd]; return r; }
static int fcntl_dup(int fd, int cmd, long arg) { int r = syscall(SYS_fcntl, fd, cmd, arg); if (r >= 0 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && track(fd) && r < MAXFD) fds[r] = fds[fd]; return r; }
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl_dup(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl_dup(fd, cmd, a); }

// ---- read / write
static void jumped(int kind, int fd, size_t n) {
    if (!fds[fd].fresh || !n) return;
    fds[fd].fresh = 0;
    mark(kind, fds[fd].cls, fds[fd].path);
}
static ssize_t do_read(int fd, void *buf, size_t n, off_t off, int positioned) {
    if (!track(fd)) return positioned ? syscall(SYS_pread64, fd, buf, n, off) : syscall(SYS_read, fd, buf, n);
    LOCK;
    uint64_t arg, h = hash(fds[fd].path);
    jumped(K_READ, fd, n);
    uint32_t a = decide(K_READ, fds[fd].cls, n, &arg);
    ssize_t r;
    if (a == A_CRASH) die();
    if (a == A_ERR) { if (n) memset(buf, 0xEE, n / 2); errno = arg ? (int)arg : EIO; r = -1; }
    else if (a == A_EINTR) { errno = EINTR; r = -1; }
    else if (a == A_ZERO) r = 0;
    else {
        if (a == A_SHORT) n = arg;
        r = positioned ? syscall(SYS_pread64, fd, buf, n, off) : syscall(SYS_read, fd, buf, n);
    }
    note(K_READ, h, (uint64_t)r << 8 | a);
    UNLOCK;
    return r;
}
static ssize_t do_write(int fd, const void *buf, size_t n, off_t off, int positioned) {
    if (!track(fd)) return positioned ? syscall(SYS_pwrite64, fd, buf, n, off) : syscall(SYS_write, fd, buf, n);
    LOCK;
    int cls = fds[fd].cls;
    uint64_t arg, h = hash(fds[fd].path);
    jumped(K_WRITE, fd, n);
    uint32_t a = decide(K_WRITE, cls, n, &arg);
    ssize_t r = 0;
    size_t want = n;
    if (a == A_ERR) { errno = arg ? (int)arg : EIO; r = -1; }
    else if (a == A_EINTR) { errno = EINTR; r = -1; }
    else if (a == A_ZERO) r = 0;
    else {
        if (a == A_SHORT || a == A_TORN || a == A_CRASH) want = arg;
        if (cap[cls]) {
            uint64_t room = cap[cls] - 1 > used[cls] ? cap[cls] - 1 - used[cls] : 0;
            if (want > room) { L->fullhits++; L->hard++; want = room; }
            used[cls] += want;
            if (!want && n && a != A_CRASH && a != A_TORN) { errno = ENOSPC; r = -1; goto out; }
        }
        size_t done = 0;
        while (done < want) { // the real disk is not part of the experiment
            ssize_t k = positioned ? syscall(SYS_pwrite64, fd, (char *)buf + done, want - done, off + done) : syscall(SYS_write, fd, (char *)buf + done, want - done);
            if (k <= 0) break;
            done += k;
        }
        r = done;
        L->wbytes[cls] += done;
        if (done < want && done == 0) r = -1;
        if (a == A_CRASH) die();
        if (a == A_TORN) { errno = EIO; r = -1; }
    }
out:
    note(K_WRITE, h, (uint64_t)r << 8 | a);
    UNLOCK;
    return r;
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t x) { (void)x; return do_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!track(fd)) return syscall(SYS_readv, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    return 0;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!track(fd)) return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    return 0;
}
static off_t do_lseek(int fd, off_t o, int w) {
    if (track(fd)) {
        LOCK;
        int bad = simple(K_LSEEK, fds[fd].cls, (uint64_t)o);
        UNLOCK;
        if (bad) return -1;
        off_t was = syscall(SYS_lseek, fd, 0, SEEK_CUR), now = syscall(SYS_lseek, fd, o, w);
        if (now != was) fds[fd].fresh = 1;
        return now;
    }
    return syscall(SYS_lseek, fd, o, w);
}
off_t lseek(int fd, off_t o, int w) { return do_lseek(fd, o, w); }
off_t lseek64(int fd, off_t o, int w) { return do_lseek(fd, o, w); }
ssize_t copy_file_range(int a, off_t *b, int c, off_t *d, size_t e, unsigned f) { (void)b; (void)d; (void)e; (void)f; if (track(a) || track(c)) { errno = ENOSYS; return -1; } return syscall(SYS_copy_file_range, a, b, c, d, e, f); }
ssize_t sendfile(int a, int b, off_t *c, size_t d) { if (track(a) || track(b)) { errno = ENOSYS; return -1; } return syscall(SYS_sendfile, a, b, c, d); }
ssize_t sendfile64(int a, int b, off_t *c, size_t d) { return sendfile(a, b, c, d); }
ssize_t splice(int a, off_t *b, int c, off_t *d, size_t e, unsigned f) { if (track(a) || track(c)) { errno = ENOSYS; return -1; } return syscall(SYS_splice, a, b, c, d, e, f); }

// ---- metadata
static int fd_simple(int kind, int fd) {
    if (!track(fd)) return 0;
    LOCK;
    int r = simple(kind, fds[fd].cls, hash(fds[fd].path));
    UNLOCK;
    return r;
}
static int path_simple(int kind, int d, const char *path, int follow) {
    if (!on || !path) return 0;
    LOCK;
    char p[PATH_MAX];
    resolve(d, path, follow, p);
    int c = class_of(p), r = 0;
    if (c >= 0) mark(kind, c, p + rootlen);
    if (c >= 0) r = simple(kind, c, hash(p + rootlen));
    UNLOCK;
    return r;
}
int statx(int d, const char *restrict p, int fl, unsigned m, struct statx *restrict b) {
    REAL(int, statx, int, const char *, int, unsigned, struct statx *);
    const char *volatile vp = p; // Rust's runtime asks with a null path; the header says non-null
    if (!vp) return real_statx(d, vp, fl, m, b);
    if (p && !*p && (fl & AT_EMPTY_PATH)) { if (fd_simple(K_STAT, d)) return -1; }
    else if (path_simple(K_STAT, d, p, !(fl & AT_SYMLINK_NOFOLLOW))) return -1;
    return real_statx(d, p, fl, m, b);
}
#define STATLIKE(name, st, follow) int name(const char *restrict p, struct st *restrict b) { REAL(int, name, const char *, struct st *); if (path_simple(K_STAT, AT_FDCWD, p, follow)) return -1; return real_##name(p, b); }
STATLIKE(stat, stat, 1) STATLIKE(stat64, stat64, 1) STATLIKE(lstat, stat, 0) STATLIKE(lstat64, stat64, 0)
int fstat(int fd, struct stat *b) { REAL(int, fstat, int, struct stat *); if (fd_simple(K_STAT, fd)) return -1; return real_fstat(fd, b); }
int fstat64(int fd, struct stat64 *b) { REAL(int, fstat64, int, struct stat64 *); if (fd_simple(K_STAT, fd)) return -1; return real_fstat64(fd, b); }
int fstatat(int d, const char *restrict p, struct stat *restrict b, int fl) { REAL(int, fstatat, int, const char *, struct stat *, int); if (p && !*p ? fd_simple(K_STAT, d) : path_simple(K_STAT, d, p, !(fl & AT_SYMLINK_NOFOLLOW))) return -1; return real_fstatat(d, p, b, fl); }
int fstatat64(int d, const char *restrict p, struct stat64 *restrict b, int fl) { REAL(int, fstatat64, int, const char *, struct stat64 *, int); if (p && !*p ? fd_simple(K_STAT, d) : path_simple(K_STAT, d, p, !(fl & AT_SYMLINK_NOFOLLOW))) return -1; return real_fstatat64(d, p, b, fl); }
int fsync(int fd) { if (fd_simple(K_SYNC, fd)) return -1; return syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if (fd_simple(K_SYNC, fd)) return -1; return syscall(SYS_fdatasync, fd); }
int ftruncate(int fd, off_t n) { if (fd_simple(K_TRUNC, fd)) return -1; return syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }

// ---- modifications by path
static int mod(const char *op, int kind, int d, const char *path, int follow) {
    if (!on || !path) return 0;
    LOCK;
    char p[PATH_MAX];
    resolve(d, path, follow, p);
    int r = 0;
    struct stat st;
    // creating a folder that exists changes nothing, wherever it is
    if (kind == K_MKDIR && class_of(p) != 2 && syscall(SYS_newfstatat, AT_FDCWD, p, &st, 0) == 0) { errno = EEXIST; r = 1; }
    else if (forbid(op, p)) r = 1;
    else if (simple(kind, class_of(p) < 0 ? 3 : class_of(p), hash(inside(p) ? p + rootlen : p))) r = 1;
    UNLOCK;
    return r;
}
int mkdir(const char *p, mode_t m) { if (mod("mkdir", K_MKDIR, AT_FDCWD, p, 0)) return -1; return syscall(SYS_mkdirat, AT_FDCWD, p, m); }
int mkdirat(int d, const char *p, mode_t m) { if (mod("mkdir", K_MKDIR, d, p, 0)) return -1; return syscall(SYS_mkdirat, d, p, m); }
int unlink(const char *p) { if (mod("unlink", K_OTHER, AT_FDCWD, p, 0)) return -1; return syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int f) { if (mod("unlink", K_OTHER, d, p, 0)) return -1; return syscall(SYS_unlinkat, d, p, f); }
int rmdir(const char *p) { if (mod("rmdir", K_OTHER, AT_FDCWD, p, 0)) return -1; return syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR); }
int remove(const char *p) { if (mod("remove", K_OTHER, AT_FDCWD, p, 0)) return -1; if (syscall(SYS_unlinkat, AT_FDCWD, p, 0) == 0) return 0; return syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR); }
int renameat2(int a, const char *p, int b, const char *q, unsigned f) { if (mod("rename", K_OTHER, a, p, 0) || mod("rename", K_OTHER, b, q, 0)) return -1; return syscall(SYS_renameat2, a, p, b, q, f); }
int rename(const char *p, const char *q) { return renameat2(AT_FDCWD, p, AT_FDCWD, q, 0); }
int renameat(int a, const char *p, int b, const char *q) { return renameat2(a, p, b, q, 0); }
int symlink(const char *t, const char *p) { if (mod("symlink", K_OTHER, AT_FDCWD, p, 0)) return -1; return syscall(SYS_symlinkat, t, AT_FDCWD, p); }
int symlinkat(const char *t, int d, const char *p) { if (mod("symlink", K_OTHER, d, p, 0)) return -1; return syscall(SYS_symlinkat, t, d, p); }
int linkat(int a, const char *p, int b, const char *q, int f) { if (mod("link", K_OTHER, b, q, 0)) return -1; return syscall(SYS_linkat, a, p, b, q, f); }
int link(const char *p, const char *q) { return linkat(AT_FDCWD, p, AT_FDCWD, q, 0); }
int truncate(const char *p, off_t n) { if (mod("truncate", K_TRUNC, AT_FDCWD, p, 1)) return -1; return syscall(SYS_truncate, p, n); }
int truncate64(const char *p, off_t n) { return truncate(p, n); }
int chmod(const char *p, mode_t m) { if (mod("chmod", K_OTHER, AT_FDCWD, p, 1)) return -1; return syscall(SYS_fchmodat, AT_FDCWD, p, m); }
int fchmodat(int d, const char *p, mode_t m, int f) { (void)f; if (mod("chmod", K_OTHER, d, p, 1)) return -1; return syscall(SYS_fchmodat, d, p, m); }
int mknod(const char *p, mode_t m, dev_t v) { (void)p; (void)m; (void)v; if (mod("mknod", K_OTHER, AT_FDCWD, p, 0)) return -1; errno = EPERM; return -1; }
int utimensat(int d, const char *p, const struct timespec *t, int f) { if (p && mod("utimens", K_OTHER, d, p, 1)) return -1; return syscall(SYS_utimensat, d, p, t, f); }

// ---- directories: a fixed (sorted) order, then shuffled by the seed
struct lst { DIR *d; int cls, n, at; struct dirent64 *e; struct lst *next; };
static struct lst *lists;
static int cmpent(const void *a, const void *b) { return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name); }
static void load(DIR *d, const char *p, int cls) {
    REAL(struct dirent64 *, readdir64, DIR *);
    struct lst *l = calloc(1, sizeof *l);
    l->d = d;
    l->cls = cls;
    int capn = 16;
    l->e = malloc(capn * sizeof *l->e);
    struct dirent64 *x;
    while ((x = real_readdir64(d))) {
        if (l->n == capn) l->e = realloc(l->e, (capn *= 2) * sizeof *l->e);
        memset(&l->e[l->n], 0, sizeof *x);
        memcpy(&l->e[l->n], x, x->d_reclen < sizeof *x ? x->d_reclen : sizeof *x);
        l->n++;
    }
    qsort(l->e, l->n, sizeof *l->e, cmpent);
    if (dirseed) {
        uint64_t s = mix2(dirseed, hash(p + rootlen));
        for (int i = l->n - 1; i > 0; i--) {
            s = mix(s);
            int j = s % (i + 1);
            struct dirent64 t = l->e[i];
            l->e[i] = l->e[j];
            l->e[j] = t;
        }
    }
    l->next = lists;
    lists = l;
}
DIR *opendir(const char *path) {
    REAL(DIR *, opendir, const char *);
    if (!on) return real_opendir(path);
    LOCK;
    char p[PATH_MAX];
    resolve(AT_FDCWD, path, 1, p);
    int c = class_of(p);
    DIR *d = NULL;
    if (c < 0 || !simple(K_OPENDIR, c, hash(p + rootlen))) {
        d = real_opendir(path);
        if (d && c >= 0) load(d, p, c);
    }
    UNLOCK;
    return d;
}
DIR *fdopendir(int fd) {
    REAL(DIR *, fdopendir, int);
    DIR *d = real_fdopendir(fd);
    if (d && track(fd)) {
        LOCK;
        char p[PATH_MAX];
        snprintf(p, sizeof p, "%.*s%s", 2000, root, fds[fd].path);
        load(d, p, fds[fd].cls);
        fds[fd].used = 0;
        UNLOCK;
    }
    return d;
}
static struct dirent64 *next_ent(DIR *d, int *mine) {
    *mine = 0;
    if (!on) return NULL;
    struct dirent64 *r = NULL;
    LOCK;
    for (struct lst *l = lists; l; l = l->next) if (l->d == d) {
        *mine = 1;
        if (simple(K_READDIR, l->cls, l->at)) break;
        if (l->at < l->n) r = &l->e[l->at++];
        break;
    }
    UNLOCK;
    return r;
}
struct dirent64 *readdir64(DIR *d) { REAL(struct dirent64 *, readdir64, DIR *); int m; struct dirent64 *r = next_ent(d, &m); return m ? r : real_readdir64(d); }
struct dirent *readdir(DIR *d) { REAL(struct dirent *, readdir, DIR *); int m; struct dirent64 *r = next_ent(d, &m); return m ? (struct dirent *)r : real_readdir(d); }
int readdir64_r(DIR *d, struct dirent64 *b, struct dirent64 **res) { // older style listing
    int m; int e = errno; errno = 0;
    struct dirent64 *r = next_ent(d, &m);
    if (!m) { errno = 0; REAL(struct dirent64 *, readdir64, DIR *); r = real_readdir64(d); }
    int er = errno; errno = e;
    if (r) { *b = *r; *res = b; return 0; }
    *res = NULL;
    return er;
}
int closedir(DIR *d) {
    REAL(int, closedir, DIR *);
    if (on) {
        LOCK;
        for (struct lst **l = &lists; *l; l = &(*l)->next) if ((*l)->d == d) { struct lst *x = *l; *l = x->next; free(x->e); free(x); break; }
        UNLOCK;
    }
    return real_closedir(d);
}

// ---- randomness
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (!on) return syscall(SYS_getrandom, b, n, f);
    unsigned char *p = b;
    for (size_t i = 0; i < n; i++) p[i] = mix2(rndseed, rndctr++) >> 8;
    return n;
}
int getentropy(void *b, size_t n) { getrandom(b, n, 0); return 0; }

// ---- time: only as the code under test sees it, not the interpreter around it
static int for_us(void *ret) {
    Dl_info d;
    if (!on || !dladdr(ret, &d) || !d.dli_fname) return 0;
    return strstr(d.dli_fname, "disc_riider") || strstr(d.dli_fname, "iso-tool");
}
#include <sys/time.h>
#include <time.h>
static void sim_time(clockid_t id, struct timespec *t) {
    LOCK;
    uint64_t n = clkctr++, h = mix2(rndseed ^ 0xC10C, n);
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) { // any date within a hundred years, may jump either way
        t->tv_sec = mix2(rndseed ^ 0xC10C, (h & 7) ? ~0ull : n + 1000) % 3000000000ull;
        t->tv_nsec = (h >> 8) % 1000000000ull;
    } else {
        mono += (h & 7) == 0 ? 0 : (h & 7) == 1 ? 5000000000ull : (h & 7) == 2 ? 40000000ull : (h >> 8) % 100000;
        t->tv_sec = mono / 1000000000ull;
        t->tv_nsec = mono % 1000000000ull;
    }
    L->clocks++;
    UNLOCK;
}
int clock_gettime(clockid_t id, struct timespec *t) {
    if (!for_us(__builtin_return_address(0))) return syscall(SYS_clock_gettime, id, t);
    sim_time(id, t);
    return 0;
}
int gettimeofday(struct timeval *restrict t, void *restrict z) {
    if (!for_us(__builtin_return_address(0))) return syscall(SYS_gettimeofday, t, z);
    struct timespec s;
    sim_time(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *t) {
    struct timespec s;
    if (for_us(__builtin_return_address(0))) sim_time(CLOCK_REALTIME, &s);
    else syscall(SYS_clock_gettime, CLOCK_REALTIME, &s);
    if (t) *t = s.tv_sec;
    return s.tv_sec;
}
pid_t getpid(void) {
    if (!for_us(__builtin_return_address(0))) return syscall(SYS_getpid);
    return mix2(rndseed ^ 0x91D, 0) % 4000000 + 2;
}
