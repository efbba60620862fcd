/* Loaded into brack by the checks of P18 - P23 and P25 (LD_PRELOAD): numbers every operation on files below
 * one directory, and makes chosen ones crash the process, fail, or stop half way. Optionally fixes
 * the order of directory entries and the seed of hash maps.
 *   BRACKMC_ROOT   the directory
 *   BRACKMC_PLAN   N:kill | N:fail:ERRNO | N:torn:BYTES (then killed) | N:short:BYTES:ERRNO (then fails) | N:full:ERRNO (this and all later writes), separated by commas
 *   BRACKMC_LOG    file that gets one line per operation
 *   BRACKMC_ORDER  number of the permutation in which directory entries are listed
 *   BRACKMC_HASH   number from which the hash seeds are made
 *   BRACKMC_SCHED  operations are announced on descriptor 200 and wait for a byte on descriptor 201
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define FDS 4096
enum { NONE, KILL, FAIL, TORN, SHORT, FULL };
struct step { long n; int what; long a, b; };
static struct step plan[16];
static int sched, steps, ready, log_fd = -1, full;
static char root[PATH_MAX], cwd_root[PATH_MAX];
static char *paths[FDS];            /* file behind a descriptor, if below the root */
static int broken[FDS];             /* errno of the next write */
static long count;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;

#define REAL(name) ({ static __typeof__(&name) f; if (!f) f = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f; })

static void setup(void) {
    if (ready) return;
    ready = 1;
    const char *r = getenv("BRACKMC_ROOT");
    if (r) { if (!realpath(r, root)) snprintf(root, sizeof root, "%s", r); }
    sched = getenv("BRACKMC_SCHED") != NULL;
    const char *l = getenv("BRACKMC_LOG");
    if (l) log_fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    const char *p = getenv("BRACKMC_PLAN");
    char buf[1024];
    snprintf(buf, sizeof buf, "%s", p ? p : "");
    for (char *s = strtok(buf, ","); s && steps < 16; s = strtok(NULL, ",")) {
        char what[16] = "";
        struct step *t = &plan[steps];
        if (sscanf(s, "%ld:%15[a-z]:%ld:%ld", &t->n, what, &t->a, &t->b) < 2) continue;
        t->what = !strcmp(what, "kill") ? KILL : !strcmp(what, "fail") ? FAIL : !strcmp(what, "torn") ? TORN : !strcmp(what, "short") ? SHORT : !strcmp(what, "full") ? FULL : NONE;
        steps++;
    }
}
__attribute__((constructor)) static void init(void) { setup(); }

/* The normalized absolute path, if it lies below the root. */
static char *inside(int dir, const char *path) {
    if (!root[0] || !path) return NULL;
    char full_path[2 * PATH_MAX];
    if (path[0] == '/') snprintf(full_path, sizeof full_path, "%s", path);
    else {
        char base[PATH_MAX];
        if (dir == AT_FDCWD) { if (!getcwd(base, sizeof base)) return NULL; }
        else if (dir >= 0 && dir < FDS && paths[dir]) snprintf(base, sizeof base, "%s", paths[dir]);
        else return NULL;
        snprintf(full_path, sizeof full_path, "%s/%s", base, path);
    }
    static __thread char out[PATH_MAX];
    size_t n = 0;
    for (char *s = full_path; *s;) {
        while (*s == '/') s++;
        size_t l = strcspn(s, "/");
        if (l == 0) break;
        if (l == 1 && s[0] == '.') ;
        else if (l == 2 && s[0] == '.' && s[1] == '.') { while (n > 0 && out[--n] != '/'); }
        else if (n + l + 2 < sizeof out) { out[n++] = '/'; memcpy(out + n, s, l); n += l; }
        s += l;
    }
    out[n] = 0;
    size_t r = strlen(root);
    if (strncmp(out, root, r) || (out[r] && out[r] != '/')) return NULL;
    return out;
}

/* Waits until it is this process's turn. */
static void turn(const char *op, const char *path, int mutating) {
    static pthread_mutex_t one = PTHREAD_MUTEX_INITIALIZER;
    char line[PATH_MAX + 100], go;
    /* the documents never change, and a listing is taken at once */
    if (!strcmp(op, "entry") || (!mutating && !strncmp(path + strlen(root), "/docs", 5))) return;
    int l = snprintf(line, sizeof line, "%c %s %s\n", mutating ? 'w' : 'r', op, path + strlen(root));
    pthread_mutex_lock(&one);
    if (syscall(SYS_write, 200, line, l) == l) while (syscall(SYS_read, 201, &go, 1) < 0 && errno == EINTR) ;
    pthread_mutex_unlock(&one);
}
/* Counts an operation and says what is to happen to it. */
static struct step *hit(const char *op, const char *path, int mutating, long size) {
    static __thread struct step now;
    if (sched) turn(op, path, mutating);
    pthread_mutex_lock(&lock);
    long n = ++count;
    struct step *found = NULL;
    for (int i = 0; i < steps; i++) if (plan[i].n == n) { now = plan[i]; found = &now; }
    if (found && found->what == FULL) full = found->a;
    if (log_fd >= 0) {
        char line[PATH_MAX + 100];
        int l = snprintf(line, sizeof line, "%ld %s %c %ld %s %s\n", n, op, mutating ? 'w' : 'r', size, found ? "HIT" : "-", path + strlen(root));
        syscall(SYS_write, log_fd, line, l);
    }
    pthread_mutex_unlock(&lock);
    if (found && found->what == KILL) { syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }
    return found;
}
static int fails(struct step *s) { if (s && s->what == FAIL) { errno = s->a; return 1; } return 0; }

static void keep(int fd, const char *path) {
    if (fd < 0 || fd >= FDS) return;
    free(paths[fd]);
    paths[fd] = path ? strdup(path) : NULL;
    broken[fd] = 0;
}

static int do_open(int dir, const char *path, int flags, mode_t mode) {
    setup();
    char *p = inside(dir, path);
    char copy[PATH_MAX];
    if (p) {
        snprintf(copy, sizeof copy, "%s", p);
        int w = (flags & (O_CREAT | O_TRUNC)) || (flags & O_ACCMODE) != O_RDONLY;
        struct step *s = hit(w ? "create" : "open", copy, w, 0);
        if (fails(s)) return -1;
        if (full && (flags & O_CREAT)) { errno = full; return -1; }
    }
    int fd = syscall(SYS_openat, dir, path, flags, mode);
    int e = errno;
    keep(fd, p ? copy : NULL);
    errno = e;
    return fd;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
int open(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int dir, const char *path, int flags, ...) { MODE return do_open(dir, path, flags, mode); }
int openat64(int dir, const char *path, int flags, ...) { MODE return do_open(dir, path, flags | O_LARGEFILE, mode); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

int close(int fd) {
    if (fd >= 0 && fd < FDS && paths[fd]) keep(fd, NULL);
    return REAL(close)(fd);
}

static ssize_t do_write(int fd, const struct iovec *v, int n, off_t at) {
    size_t total = 0;
    for (int i = 0; i < n; i++) total += v[i].iov_len;
    if (fd >= 0 && fd < FDS && paths[fd]) {
        if (broken[fd]) { errno = broken[fd]; return -1; }
        struct step *s = hit("write", paths[fd], 1, total);
        if (fails(s)) return -1;
        if (full) { errno = full; return -1; }
        if (s && (s->what == TORN || s->what == SHORT)) {
            char *all = malloc(total + 1);
            size_t k = 0;
            for (int i = 0; i < n; i++) { memcpy(all + k, v[i].iov_base, v[i].iov_len); k += v[i].iov_len; }
            size_t part = s->a < 0 ? (s->a + (long)total < 0 ? 0 : total + s->a) : (size_t)s->a > total ? total : (size_t)s->a;
            ssize_t r = part ? (at >= 0 ? syscall(SYS_pwrite64, fd, all, part, at) : syscall(SYS_write, fd, all, part)) : 0;
            free(all);
            if (s->what == TORN) { syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }
            broken[fd] = s->b;
            if (r <= 0) { errno = s->b; return -1; }
            return r;
        }
    }
    return at >= 0 ? syscall(SYS_pwritev, fd, v, n, at, 0) : syscall(SYS_writev, fd, v, n);
}
ssize_t write(int fd, const void *b, size_t n) {
    if (fd < 0 || fd >= FDS || !paths[fd]) return syscall(SYS_write, fd, b, n);
    struct iovec v = { (void *)b, n };
    return do_write(fd, &v, 1, -1);
}
ssize_t writev(int fd, const struct iovec *v, int n) { return do_write(fd, v, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t at) { struct iovec v = { (void *)b, n }; return do_write(fd, &v, 1, at); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t at) { struct iovec v = { (void *)b, n }; return do_write(fd, &v, 1, at); }

static int in_fd(const char *op, int fd, int mutating) {
    if (fd < 0 || fd >= FDS || !paths[fd]) return 0;
    if (fails(hit(op, paths[fd], mutating, 0))) return 1;
    return 0;
}
ssize_t read(int fd, void *b, size_t n) { if (in_fd("read", fd, 0)) return -1; return syscall(SYS_read, fd, b, n); }
ssize_t readv(int fd, const struct iovec *v, int n) { if (in_fd("read", fd, 0)) return -1; return syscall(SYS_readv, fd, v, n); }
ssize_t pread64(int fd, void *b, size_t n, off_t at) { if (in_fd("read", fd, 0)) return -1; return syscall(SYS_pread64, fd, b, n, at); }
int fsync(int fd) { if (in_fd("sync", fd, 1)) return -1; return syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if (in_fd("sync", fd, 1)) return -1; return syscall(SYS_fdatasync, fd); }
int ftruncate(int fd, off_t l) { if (in_fd("truncate", fd, 1)) return -1; return syscall(SYS_ftruncate, fd, l); }
int ftruncate64(int fd, off_t l) { if (in_fd("truncate", fd, 1)) return -1; return syscall(SYS_ftruncate, fd, l); }
int fchmod(int fd, mode_t m) { if (in_fd("chmod", fd, 1)) return -1; return syscall(SYS_fchmod, fd, m); }
ssize_t copy_file_range(int a, off_t *ao, int b, off_t *bo, size_t n, unsigned f) {
    if ((a >= 0 && a < FDS && paths[a]) || (b >= 0 && b < FDS && paths[b])) { errno = ENOSYS; return -1; } /* fall back to read and write */
    return syscall(SYS_copy_file_range, a, ao, b, bo, n, f);
}
ssize_t sendfile64(int b, int a, off_t *o, size_t n) {
    if ((a >= 0 && a < FDS && paths[a]) || (b >= 0 && b < FDS && paths[b])) { errno = EINVAL; return -1; }
    return syscall(SYS_sendfile, b, a, o, n);
}

static int on_path(const char *op, int dir, const char *path, int mutating) {
    setup();
    char *p = inside(dir, path);
    if (!p) return 0;
    char copy[PATH_MAX];
    snprintf(copy, sizeof copy, "%s", p);
    return fails(hit(op, copy, mutating, 0));
}
int renameat2(int da, const char *a, int db, const char *b, unsigned f) { if (on_path("rename", db, b, 1)) return -1; return syscall(SYS_renameat2, da, a, db, b, f); }
int rename(const char *a, const char *b) { return renameat2(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int da, const char *a, int db, const char *b) { return renameat2(da, a, db, b, 0); }
int mkdirat(int d, const char *p, mode_t m) { if (on_path("mkdir", d, p, 1)) return -1; return syscall(SYS_mkdirat, d, p, m); }
int mkdir(const char *p, mode_t m) { return mkdirat(AT_FDCWD, p, m); }
int unlinkat(int d, const char *p, int f) { if (on_path("unlink", d, p, 1)) return -1; return syscall(SYS_unlinkat, d, p, f); }
int unlink(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
int rmdir(const char *p) { return unlinkat(AT_FDCWD, p, AT_REMOVEDIR); }
int linkat(int da, const char *a, int db, const char *b, int f) { if (on_path("link", db, b, 1)) return -1; return syscall(SYS_linkat, da, a, db, b, f); }
int link(const char *a, const char *b) { return linkat(AT_FDCWD, a, AT_FDCWD, b, 0); }
int symlinkat(const char *a, int d, const char *b) { if (on_path("symlink", d, b, 1)) return -1; return syscall(SYS_symlinkat, a, d, b); }
int symlink(const char *a, const char *b) { return symlinkat(a, AT_FDCWD, b); }
int truncate(const char *p, off_t l) { if (on_path("truncate", AT_FDCWD, p, 1)) return -1; return syscall(SYS_truncate, p, l); }
int truncate64(const char *p, off_t l) { return truncate(p, l); }
int chmod(const char *p, mode_t m) { if (on_path("chmod", AT_FDCWD, p, 1)) return -1; return syscall(SYS_chmod, p, m); }
int access(const char *p, int m) { if (on_path("stat", AT_FDCWD, p, 0)) return -1; return syscall(SYS_access, p, m); }
int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict b) {
    if (p && p[0] && on_path("stat", d, p, 0)) return -1;
    return syscall(SYS_statx, d, p, f, m, b);
}
int fstatat64(int d, const char *restrict p, struct stat64 *restrict b, int f) { if (p && p[0] && on_path("stat", d, p, 0)) return -1; return REAL(fstatat64)(d, p, b, f); }
int stat64(const char *restrict p, struct stat64 *restrict b) { if (on_path("stat", AT_FDCWD, p, 0)) return -1; return REAL(stat64)(p, b); }
int lstat64(const char *restrict p, struct stat64 *restrict b) { if (on_path("stat", AT_FDCWD, p, 0)) return -1; return REAL(lstat64)(p, b); }

/* Directories: every listing is read in full, sorted by name, and handed out in the chosen order. */
struct listing { DIR *d; struct dirent64 *e; int n, at; struct listing *next; char *path; };
static struct listing *listings;
DIR *opendir(const char *path) {
    char *p = inside(AT_FDCWD, path);
    char copy[PATH_MAX];
    if (p) {
        snprintf(copy, sizeof copy, "%s", p);
        if (fails(hit("list", copy, 0, 0))) return NULL;
    }
    DIR *d = REAL(opendir)(path);
    if (d && p) {
        struct listing *l = calloc(1, sizeof *l);
        l->d = d;
        l->path = strdup(copy);
        pthread_mutex_lock(&lock);
        l->next = listings;
        listings = l;
        pthread_mutex_unlock(&lock);
    }
    return d;
}
static struct listing *find(DIR *d) {
    pthread_mutex_lock(&lock);
    struct listing *l = listings;
    while (l && l->d != d) l = l->next;
    pthread_mutex_unlock(&lock);
    return l;
}
static int by_name(const void *a, const void *b) { return strcmp(((struct dirent64 *)a)->d_name, ((struct dirent64 *)b)->d_name); }
struct dirent64 *readdir64(DIR *d) {
    struct listing *l = find(d);
    if (!l) return REAL(readdir64)(d);
    if (fails(hit("entry", l->path, 0, 0))) return NULL;
    if (!l->e) {
        int cap = 0;
        struct dirent64 *e;
        while ((e = REAL(readdir64)(d))) {
            if (l->n == cap) { cap = cap ? 2 * cap : 16; l->e = realloc(l->e, cap * sizeof *l->e); }
            memset(&l->e[l->n], 0, sizeof *l->e);
            memcpy(&l->e[l->n++], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
        }
        if (!l->e) l->e = calloc(1, sizeof *l->e);
        qsort(l->e, l->n, sizeof *l->e, by_name);
        const char *o = getenv("BRACKMC_ORDER");
        long k = o ? atol(o) : 0;
        int from = 0; /* "." and ".." sort first */
        while (from < l->n && (!strcmp(l->e[from].d_name, ".") || !strcmp(l->e[from].d_name, ".."))) from++;
        for (int i = from; i < l->n; i++) {
            int left = l->n - i, j = i + k % left;
            k /= left;
            struct dirent64 t = l->e[j];
            memmove(&l->e[i + 1], &l->e[i], (j - i) * sizeof t);
            l->e[i] = t;
        }
    }
    if (l->at == l->n) { errno = 0; return NULL; }
    return &l->e[l->at++];
}
int closedir(DIR *d) {
    pthread_mutex_lock(&lock);
    for (struct listing **l = &listings; *l; l = &(*l)->next) if ((*l)->d == d) { struct listing *x = *l; *l = x->next; free(x->e); free(x->path); free(x); break; }
    pthread_mutex_unlock(&lock);
    return REAL(closedir)(d);
}

ssize_t getrandom(void *b, size_t n, unsigned flags) {
    static long seed = -2;
    if (seed == -2) { const char *h = getenv("BRACKMC_HASH"); seed = h ? atol(h) : -1; }
    if (seed >= 0 && n == 16) {
        unsigned long x = 0x9e3779b97f4a7c15ul * (seed + 1);
        for (size_t i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; ((unsigned char *)b)[i] = x >> 32; }
        return n;
    }
    return syscall(SYS_getrandom, b, n, flags);
}
