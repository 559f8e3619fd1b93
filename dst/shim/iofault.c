/* Simulated storage and terminal, below libc.
 *
 * Preloaded into the interpreter.  Calls on the unit database file (recognised
 * by name when it is opened) and on descriptor 1 go through a fault plan; all
 * other calls pass straight through.  Nothing here is random or timed.
 *
 * Plan: ';'-separated items  <target>:<nth>:<fault>:<arg>
 *   target  o  opens of the database        r  reads of the database
 *           w  writes to descriptor 1
 *   nth     1-based count of such calls; 0 means every call
 *   fault   E<errno number>   the call fails
 *           short             at most <arg> bytes are transferred
 *           eof               this and every later read returns 0
 *           zero              the bytes read come back as zeros from offset <arg>
 *           stick             from this write on every write fails with errno <arg>
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <langinfo.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXF 64
#define MAXFD 4096

struct fault { char target; int nth; char kind[8]; long arg; int fired; };

static struct fault plan[MAXF];
static int nplan, active;
static int count_o, count_r, count_w, at_eof, stuck;
static unsigned char tracked[MAXFD];
static char codeset[32];
static const char *NAME = "udunits2_combined.xml";

static int parse(const char *s)
{
    nplan = 0;
    while (s && *s && nplan < MAXF) {
        struct fault *f = &plan[nplan];
        memset(f, 0, sizeof *f);
        if (sscanf(s, "%c:%d:%7[^:;]:%ld", &f->target, &f->nth, f->kind, &f->arg) >= 3)
            nplan++;
        s = strchr(s, ';');
        if (s) s++;
    }
    return nplan;
}

int dst_set(const char *s)
{
    count_o = count_r = count_w = at_eof = stuck = 0;
    active = 1;
    return parse(s);
}
void dst_off(void) { active = 0; nplan = 0; stuck = at_eof = 0; }
int dst_fired(int i) { return i < nplan ? plan[i].fired : 0; }
int dst_count(int what) { return what == 'o' ? count_o : what == 'r' ? count_r : count_w; }
void dst_codeset(const char *s) { snprintf(codeset, sizeof codeset, "%s", s ? s : ""); }

__attribute__((constructor)) static void init(void)
{
    const char *s = getenv("DST_IOFAULT");
    if (s) dst_set(s);
}

static struct fault *next(char target, int n)
{
    for (int i = 0; i < nplan; i++)
        if (plan[i].target == target && (plan[i].nth == n || plan[i].nth == 0))
            return &plan[i];
    return NULL;
}

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static int is_db(const char *path)
{
    size_t n = path ? strlen(path) : 0, m = strlen(NAME);
    return n >= m && !strcmp(path + n - m, NAME);
}

static int open_fault(void)
{
    struct fault *f = next('o', ++count_o);
    if (f && f->kind[0] == 'E') { f->fired++; errno = atoi(f->kind + 1); return 1; }
    return 0;
}

static int note(int fd, const char *path)
{
    if (fd >= 0 && fd < MAXFD) tracked[fd] = is_db(path);
    return fd;
}

#define OPEN_BODY(call) \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    if (active && is_db(path) && open_fault()) return -1; \
    return note(call, path)

int open(const char *path, int flags, ...) { REAL(open); OPEN_BODY(real(path, flags, mode)); }
int open64(const char *path, int flags, ...) { REAL(open64); OPEN_BODY(real(path, flags, mode)); }
int openat(int dir, const char *path, int flags, ...) { REAL(openat); OPEN_BODY(real(dir, path, flags, mode)); }
int openat64(int dir, const char *path, int flags, ...) { REAL(openat64); OPEN_BODY(real(dir, path, flags, mode)); }

FILE *fopen(const char *path, const char *m)
{
    REAL(fopen);
    if (active && is_db(path) && open_fault()) return NULL;
    FILE *f = real(path, m);
    if (f) note(fileno(f), path);
    return f;
}
FILE *fopen64(const char *path, const char *m)
{
    REAL(fopen64);
    if (active && is_db(path) && open_fault()) return NULL;
    FILE *f = real(path, m);
    if (f) note(fileno(f), path);
    return f;
}

int close(int fd)
{
    REAL(close);
    if (fd >= 0 && fd < MAXFD) tracked[fd] = 0;
    return real(fd);
}

/* returns -2 to pass through */
static ssize_t before_read(size_t *n, struct fault **zf)
{
    struct fault *f = next('r', ++count_r);
    *zf = NULL;
    if (at_eof) return 0;
    if (!f) return -2;
    if (f->kind[0] == 'E') { f->fired++; errno = atoi(f->kind + 1); return -1; }
    if (!strcmp(f->kind, "eof")) { f->fired++; at_eof = 1; return 0; }
    if (!strcmp(f->kind, "short")) {
        size_t k = f->arg > 0 ? (size_t)f->arg : 1;
        if (*n > k) { *n = k; f->fired++; }
        return -2;
    }
    if (!strcmp(f->kind, "zero")) { *zf = f; return -2; }
    return -2;
}

static void after_read(char *buf, ssize_t got, struct fault *zf)
{
    if (zf && got > 0 && zf->arg < got) {
        size_t len = got - zf->arg;
        if (len > 512) len = 512;
        memset(buf + zf->arg, 0, len);
        zf->fired++;
    }
}

ssize_t read(int fd, void *buf, size_t n)
{
    REAL(read);
    if (!active || fd < 0 || fd >= MAXFD || !tracked[fd]) return real(fd, buf, n);
    struct fault *zf;
    ssize_t r = before_read(&n, &zf);
    if (r != -2) return r;
    r = real(fd, buf, n);
    after_read(buf, r, zf);
    return r;
}

ssize_t pread(int fd, void *buf, size_t n, off_t off)
{
    REAL(pread);
    if (!active || fd < 0 || fd >= MAXFD || !tracked[fd]) return real(fd, buf, n, off);
    struct fault *zf;
    ssize_t r = before_read(&n, &zf);
    if (r != -2) return r;
    r = real(fd, buf, n, off);
    after_read(buf, r, zf);
    return r;
}

size_t fread(void *buf, size_t size, size_t nmemb, FILE *fp)
{
    REAL(fread);
    int fd = fileno(fp);
    if (!active || fd < 0 || fd >= MAXFD || !tracked[fd]) return real(buf, size, nmemb, fp);
    struct fault *zf;
    size_t n = size * nmemb;
    ssize_t r = before_read(&n, &zf);
    if (r == -1) return 0;
    if (r == 0) return 0;
    size_t got = real(buf, 1, n, fp);
    after_read(buf, got, zf);
    return size ? got / size : 0;
}

static ssize_t before_write(size_t *n)
{
    struct fault *f = next('w', ++count_w);
    if (stuck) { errno = stuck; return -1; }
    if (!f) return -2;
    if (f->kind[0] == 'E') { f->fired++; errno = atoi(f->kind + 1); return -1; }
    if (!strcmp(f->kind, "stick")) { f->fired++; stuck = (int)f->arg; errno = stuck; return -1; }
    if (!strcmp(f->kind, "short")) {
        size_t k = f->arg > 0 ? (size_t)f->arg : 1;
        if (*n > k) { *n = k; f->fired++; }
    }
    return -2;
}

ssize_t write(int fd, const void *buf, size_t n)
{
    REAL(write);
    if (!active || fd != 1) return real(fd, buf, n);
    ssize_t r = before_write(&n);
    if (r != -2) return r;
    return real(fd, buf, n);
}

ssize_t writev(int fd, const struct iovec *iov, int cnt)
{
    REAL(writev);
    if (!active || fd != 1 || cnt < 1) return real(fd, iov, cnt);
    size_t n = iov[0].iov_len;
    ssize_t r = before_write(&n);
    if (r != -2) return r;
    return write(fd, iov[0].iov_base, n);
}

char *nl_langinfo(nl_item item)
{
    REAL(nl_langinfo);
    if (codeset[0] && item == CODESET) return codeset;
    return real(item);
}
