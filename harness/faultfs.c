// LD_PRELOAD shim: counts the calls that touch files of one directory, looks at one file before each of them,
// and makes the k-th call fail, write only half of its data before failing, or end the process.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
static char dir[4096], dest[4096], snapdir[4096];
static int armed, count, fault_at, mode, fault_done, nlooks, maxlooks = 200000;
static unsigned char fds[4096];
static uint64_t *looks; static uint64_t seen[256]; static int nseen; static uint64_t at_fault;
static int err_no;
static uint64_t look(void) {
  int fd = syscall(SYS_openat, AT_FDCWD, dest, O_RDONLY);
  uint64_t h = 1;
  if (fd >= 0) {
    static char buf[1 << 16]; ssize_t n; h = 1469598103934665603ull;
    while ((n = syscall(SYS_read, fd, buf, sizeof buf)) > 0)
      for (ssize_t i = 0; i < n; i++) { h ^= (unsigned char)buf[i]; h *= 1099511628211ull; }
    syscall(SYS_close, fd);
  }
  if (nlooks == 0 || looks[nlooks - 1] != h) {
    if (nlooks < maxlooks) looks[nlooks++] = h;
    int known = 0; for (int i = 0; i < nseen; i++) known |= seen[i] == h;
    if (!known && nseen < 256) {
      seen[nseen++] = h; char p[4200]; snprintf(p, sizeof p, "%s/%016llx", snapdir, (unsigned long long)h);
      int o = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, 0600); fd = syscall(SYS_openat, AT_FDCWD, dest, O_RDONLY);
      if (fd >= 0 && o >= 0) { static char b2[1 << 16]; ssize_t n; while ((n = syscall(SYS_read, fd, b2, sizeof b2)) > 0) syscall(SYS_write, o, b2, n); }
      if (fd >= 0) syscall(SYS_close, fd); if (o >= 0) syscall(SYS_close, o);
    }
  }
  return h;
}
void vp_arm(const char *d, const char *f, const char *s, int k, int m, int e) {
  strcpy(dir, d); strcpy(dest, f); strcpy(snapdir, s); count = 0; fault_at = k; mode = m; err_no = e; fault_done = 0; nlooks = 0; nseen = 0; at_fault = 0;
  if (!looks) looks = malloc(sizeof(uint64_t) * maxlooks);
  memset(fds, 0, sizeof fds); armed = 1; look();
}
int vp_disarm(void) { armed = 0; return count; }
int vp_nlooks(void) { return nlooks; }
uint64_t vp_look(int i) { return looks[i]; }
int vp_fault_done(void) { return fault_done; }
uint64_t vp_at_fault(void) { return at_fault; }
static void dump(void) {   // what was seen, for the parent of a process that is about to die
  char p[4200]; snprintf(p, sizeof p, "%s/looks", snapdir); int o = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  for (int i = 0; i < nlooks; i++) { char b[32]; int n = snprintf(b, sizeof b, "%016llx\n", (unsigned long long)looks[i]); syscall(SYS_write, o, b, n); }
  syscall(SYS_close, o);
}
static int in(const char *p) { return p && p[0] && (strncmp(p, dir, strlen(dir)) == 0); }
static int infd(int fd) { return fd >= 0 && fd < 4096 && fds[fd]; }
static int hit_(int wr) {     // returns 0: go on, 1: fail, 2: half then fail
  uint64_t h = look(); count++;
  if (!fault_at || count < fault_at || (count > fault_at && !wr)) return 0;   // a disk that refuses writes keeps refusing them
  if (!fault_done) at_fault = h; fault_done = 1;
  if (mode == 3) { dump(); syscall(SYS_exit_group, 99); }
  return mode;
}
#define REAL(name) static __typeof__(&name) real_; if (!real_) real_ = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
#define FAIL do { errno = err_no; return -1; } while (0)
static int opened(int fd, const char *p) { if (fd >= 0 && fd < 4096) fds[fd] = in(p); return fd; }
#define OPENBODY(name, call) REAL(name); mode_t m_ = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m_ = va_arg(ap, int); va_end(ap); } \
  if (armed && in(p)) { if (hit_(0)) FAIL; } int fd_ = call; return armed ? opened(fd_, p) : fd_;
int open(const char *p, int flags, ...) { OPENBODY(open, real_(p, flags, m_)) }
int open64(const char *p, int flags, ...) { OPENBODY(open64, real_(p, flags, m_)) }
int openat(int d, const char *p, int flags, ...) { OPENBODY(openat, real_(d, p, flags, m_)) }
int openat64(int d, const char *p, int flags, ...) { OPENBODY(openat64, real_(d, p, flags, m_)) }
int creat(const char *p, mode_t m) { REAL(creat); if (armed && in(p)) { if (hit_(0)) FAIL; } int f = real_(p, m); return armed ? opened(f, p) : f; }
ssize_t write(int fd, const void *b, size_t n) { REAL(write); if (armed && infd(fd)) { int r = hit_(1); if (r == 2) real_(fd, b, n / 2); if (r) FAIL; } return real_(fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(pwrite); if (armed && infd(fd)) { int r = hit_(1); if (r == 2) real_(fd, b, n / 2, o); if (r) FAIL; } return real_(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64); if (armed && infd(fd)) { int r = hit_(1); if (r == 2) real_(fd, b, n / 2, o); if (r) FAIL; } return real_(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int n) { REAL(writev); if (armed && infd(fd)) { if (hit_(1)) FAIL; } return real_(fd, v, n); }
ssize_t sendfile(int o, int i, off_t *f, size_t n) { REAL(sendfile); if (armed && infd(o)) { int r = hit_(1); if (r == 2) real_(o, i, f, 64); if (r) FAIL; } return real_(o, i, f, n); }
ssize_t sendfile64(int o, int i, off64_t *f, size_t n) { REAL(sendfile64); if (armed && infd(o)) { int r = hit_(1); if (r == 2) real_(o, i, f, 64); if (r) FAIL; } return real_(o, i, f, n); }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) { REAL(copy_file_range); if (armed && infd(o)) { if (hit_(1)) FAIL; } return real_(i, a, o, b, n, f); }
int ftruncate(int fd, off_t n) { REAL(ftruncate); if (armed && infd(fd)) { if (hit_(1)) FAIL; } return real_(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); if (armed && infd(fd)) { if (hit_(1)) FAIL; } return real_(fd, n); }
int fsync(int fd) { REAL(fsync); if (armed && infd(fd)) { if (hit_(0)) FAIL; } return real_(fd); }
int close(int fd) { REAL(close); if (armed && infd(fd)) { int r = hit_(0); fds[fd] = 0; if (r) { real_(fd); FAIL; } } return real_(fd); }
int rename(const char *a, const char *b) { REAL(rename); if (armed && (in(a) || in(b))) { if (hit_(0)) FAIL; } return real_(a, b); }
int renameat(int d, const char *a, int e, const char *b) { REAL(renameat); if (armed && (in(a) || in(b))) { if (hit_(0)) FAIL; } return real_(d, a, e, b); }
int link(const char *a, const char *b) { REAL(link); if (armed && (in(a) || in(b))) { if (hit_(0)) FAIL; } return real_(a, b); }
// removing files is observed but never made to fail (a clean-up that cannot remove its file cannot clean up)
int unlink(const char *a) { REAL(unlink); if (armed && in(a)) look(); return real_(a); }
int unlinkat(int d, const char *a, int f) { REAL(unlinkat); if (armed) look(); return real_(d, a, f); }
