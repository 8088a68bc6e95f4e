/* LD_PRELOAD monitor for the code under test.
 *  - pthread_create: injected start delays (VF_MON_DELAY=max us, VF_MON_SEED), counts, peak concurrency
 *  - FFTW planner / wisdom / clean-up entry points: overlap detector, live plan count
 *  - FFTW execution (VF_MON_XDELAY=max us): delays between transforms
 *  - get_nprocs (VF_MON_NPROCS)
 *  - setenv("VF_PROBE", tag): appends a resource snapshot to VF_MON_LOG
 * Counters live in the file VF_MON_FILE (shared mapping), one slot array for all processes. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

struct ctr { long threads, peak, planner, overlaps, plans, exec, delayed, planthreads, shapes[64]; };
static struct ctr local_ctr, *C = &local_ctr;
static long live_plans, delay_us, xdelay_us, hold_us, nprocs;
static int abort_on_overlap;
static uint64_t rs = 88172645463325252ull;
static volatile int inited;

__attribute__((constructor)) static void init(void)
{
  if (inited) return;
  inited = 1;
  const char *s;
  if ((s = getenv("VF_MON_DELAY"))) delay_us = atol(s);
  if ((s = getenv("VF_MON_XDELAY"))) xdelay_us = atol(s);
  if ((s = getenv("VF_MON_HOLD"))) hold_us = atol(s);
  if ((s = getenv("VF_MON_NPROCS"))) nprocs = atol(s);
  if ((s = getenv("VF_MON_ABORT"))) abort_on_overlap = atoi(s);
  if ((s = getenv("VF_MON_SEED"))) rs ^= (uint64_t)atol(s) * 0x9E3779B97F4A7C15ull;
  if (!rs) rs = 1;
  if ((s = getenv("VF_MON_FILE"))) {
    int fd = open(s, O_RDWR | O_CREAT, 0600);
    if (fd >= 0) {
      if (ftruncate(fd, 4096) == 0) {
        void *m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m != MAP_FAILED) C = m;
      }
      close(fd);
    }
  }
}
#define ADD(x, n) __atomic_add_fetch(&(x), (n), __ATOMIC_SEQ_CST)

static uint64_t rnd(void)
{
  uint64_t o = __atomic_load_n(&rs, __ATOMIC_RELAXED), n;
  do { n = o; n ^= n << 13; n ^= n >> 7; n ^= n << 17; } while (!__atomic_compare_exchange_n(&rs, &o, n, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED));
  return n;
}
static void nap(long us)
{
  struct timespec t = { us / 1000000, (us % 1000000) * 1000 };
  syscall(SYS_nanosleep, &t, 0);
}

struct start { void *(*f)(void *); void *a; long d; };
#define NS 65536
static struct start slots[NS];
static long nslot;
static void *tramp(void *p)
{
  struct start s = *(struct start *)p;
  if (s.d > 0) nap(s.d);
  return s.f(s.a);
}
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a)
{
  static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
  init();
  ADD(C->threads, 1);
  if (!delay_us) return real(t, at, f, a);
  struct start *s = &slots[ADD(nslot, 1) % NS];
  uint64_t r = rnd();
  s->f = f; s->a = a;
  s->d = (r & 3) ? (long)((r >> 8) % (uint64_t)(delay_us + 1)) : 0;
  if (s->d) ADD(C->delayed, 1);
  int rc = real(t, at, tramp, s);
  if (!((r >> 4) & 7)) nap((long)((r >> 32) % (uint64_t)(delay_us + 1)));   /* and in the creator */
  return rc;
}
int get_nprocs(void)
{
  static int (*real)(void);
  init();
  if (nprocs > 0) return (int)nprocs;
  if (!real) real = dlsym(RTLD_NEXT, "get_nprocs");
  return real();
}

static long inside;
static const char *volatile who;
static void enter(const char *n)
{
  init();
  ADD(C->planner, 1);
  if (ADD(inside, 1) > 1) {
    ADD(C->overlaps, 1);
    if (abort_on_overlap) {
      char b[256];
      int k = snprintf(b, sizeof b, "\nVFMON: overlapping planner calls: %s entered while %s was running\n", n, who ? who : "?");
      if (write(2, b, k) < 0) {}
      syscall(SYS_exit_group, 95);
    }
  }
  who = n;
  if (hold_us) nap((long)(rnd() % (uint64_t)(hold_us + 1)));
}
static void leave(void) { ADD(inside, -1); }
/* modules loaded with RTLD_LOCAL bring a libfftw3 that RTLD_NEXT does not see */
static void *fsym(const char *n)
{
  void *p = dlsym(RTLD_NEXT, n);
  if (p) return p;
  void *h = dlopen(strncmp(n, "fftwf", 5) ? "libfftw3.so.3" : "libfftw3f.so.3", RTLD_LAZY);
  p = h ? dlsym(h, n) : 0;
  if (!p) { if (write(2, "VFMON: no FFTW\n", 15) < 0) {} syscall(SYS_exit_group, 94); }
  return p;
}
#define REAL(T, n) static T real; if (!real) real = (T)fsym(#n);
#define PLAN(n, proto, call) void *n proto { typedef void *(*T) proto; REAL(T, n); enter(#n); void *r = real call; if (r) ADD(live_plans, 1); leave(); return r; }
#define DESTROY(n) void n(void *p) { typedef void (*T)(void *); REAL(T, n); enter(#n); real(p); if (p) ADD(live_plans, -1); leave(); }
#define EX(n) void n(void *p, void *a, void *b) { typedef void (*T)(void *, void *, void *); REAL(T, n); init(); ADD(C->exec, 1); if (xdelay_us && !(rnd() & 15)) nap((long)(rnd() % (uint64_t)(xdelay_us + 1))); real(p, a, b); }
#define V0(n) void n(void) { typedef void (*T)(void); REAL(T, n); enter(#n); real(); leave(); }
#define S0(n) char *n(void) { typedef char *(*T)(void); REAL(T, n); enter(#n); char *r = real(); leave(); return r; }
#define S1(n) int n(const char *s) { typedef int (*T)(const char *); REAL(T, n); enter(#n); int r = real(s); leave(); return r; }
#define ALL(X) \
 PLAN(X##_plan_dft_r2c_1d, (int n, void *a, void *b, unsigned f), (n, a, b, f)) \
 PLAN(X##_plan_dft_c2r_1d, (int n, void *a, void *b, unsigned f), (n, a, b, f)) \
 PLAN(X##_plan_dft_1d, (int n, void *a, void *b, int s, unsigned f), (n, a, b, s, f)) \
 PLAN(X##_plan_r2r_1d, (int n, void *a, void *b, int k, unsigned f), (n, a, b, k, f)) \
 DESTROY(X##_destroy_plan) \
 EX(X##_execute_dft_r2c) EX(X##_execute_dft_c2r) EX(X##_execute_dft) EX(X##_execute_r2r) \
 V0(X##_forget_wisdom) V0(X##_cleanup) V0(X##_cleanup_threads) S0(X##_export_wisdom_to_string) S1(X##_import_wisdom_from_string)
ALL(fftw)
ALL(fftwf)

static long count_dir(const char *d)
{
  DIR *x = opendir(d);
  long n = 0;
  if (!x) return -1;
  struct dirent *e;
  while ((e = readdir(x))) if (e->d_name[0] != '.') n++;
  closedir(x);
  return n;
}
void vf_probe(const char *tag)
{
  const char *l = getenv("VF_MON_LOG");
  if (!l) return;
  long tasks = count_dir("/proc/self/task"), fds = count_dir("/proc/self/fd");
  struct mallinfo2 m = mallinfo2();
  char b[400];
  long rss = 0, d1;
  FILE *f = fopen("/proc/self/statm", "r");
  if (f) { if (fscanf(f, "%ld %ld", &d1, &rss) != 2) rss = -1; fclose(f); }
  int k = snprintf(b, sizeof b, "PROBE %s heap=%ld plans=%ld tasks=%ld fds=%ld rss=%ld\n", tag, (long)(m.uordblks + m.hblkhd),
                   live_plans, tasks, fds, rss * 4096);
  int fd = open(l, O_WRONLY | O_CREAT | O_APPEND, 0600);
  if (fd >= 0) { if (write(fd, b, k) < 0) {} close(fd); }
}

static void logline(const char *b, int k)
{
  const char *l = getenv("VF_MON_LOG");
  if (!l) return;
  int fd = open(l, O_WRONLY | O_CREAT | O_APPEND, 0600);
  if (fd >= 0) { if (write(fd, b, k) < 0) {} close(fd); }
}
/* ---- interrupts: VF_INT=<delay us>:<fallback us> armed just before a call; the signal is sent <delay> after the
 * session's own SIGINT handling has been replaced, or after <fallback> if it never is */
static pthread_mutex_t int_mx = PTHREAD_MUTEX_INITIALIZER;
static volatile int int_armed, int_fired;
static long int_delay, int_fb;
static double int_cpu, int_wall, int_cpu0, int_wall0;
static struct sigaction int_base;
static double now(clockid_t c) { struct timespec t; clock_gettime(c, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static int replaced(void)
{
  struct sigaction a;
  sigaction(SIGINT, 0, &a);
  return a.sa_handler != int_base.sa_handler;
}
static void *int_thread(void *p)
{
  long seen = 0;
  double t1 = 0;
  for (;;) {
    pthread_mutex_lock(&int_mx);
    if (int_armed != (int)(intptr_t)p) { pthread_mutex_unlock(&int_mx); return 0; }
    int r = replaced();
    double t = now(CLOCK_MONOTONIC);
    if (r && !seen) { seen = 1; t1 = t; }
    if ((seen && r && (t - t1) * 1e6 >= int_delay) || (!seen && (t - int_wall0) * 1e6 >= int_fb)) {
      int_fired = seen ? 1 : 2;
      int_cpu = now(CLOCK_PROCESS_CPUTIME_ID); int_wall = t;
      kill(getpid(), SIGINT);
      pthread_mutex_unlock(&int_mx);
      return 0;
    }
    pthread_mutex_unlock(&int_mx);
    nap(100);
  }
}
static void int_arm(const char *v)
{
  static int gen;
  static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
  sigset_t all, old;
  pthread_t t;
  pthread_attr_t a;
  pthread_mutex_lock(&int_mx);
  int_fired = 0; int_delay = int_fb = 0;
  sscanf(v, "%ld:%ld", &int_delay, &int_fb);
  sigaction(SIGINT, 0, &int_base);
  int_cpu0 = now(CLOCK_PROCESS_CPUTIME_ID); int_wall0 = now(CLOCK_MONOTONIC);
  int_armed = ++gen;
  pthread_mutex_unlock(&int_mx);
  sigfillset(&all);
  pthread_sigmask(SIG_SETMASK, &all, &old);
  pthread_attr_init(&a); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
  real(&t, &a, int_thread, (void *)(intptr_t)int_armed);
  pthread_sigmask(SIG_SETMASK, &old, 0);
}
static void int_off(void)
{
  char b[300];
  if (!int_armed) return;
  pthread_mutex_lock(&int_mx);
  int_armed = 0;
  double c = now(CLOCK_PROCESS_CPUTIME_ID), w = now(CLOCK_MONOTONIC);
  int k = snprintf(b, sizeof b, "INT fired=%d before_cpu=%.6f before_wall=%.6f after_cpu=%.6f after_wall=%.6f\n", int_fired,
                   int_fired ? int_cpu - int_cpu0 : c - int_cpu0, int_fired ? int_wall - int_wall0 : w - int_wall0,
                   int_fired ? c - int_cpu : 0., int_fired ? w - int_wall : 0.);
  pthread_mutex_unlock(&int_mx);
  logline(b, k);
}
/* ---- dispositions: VF_SIG=own (a counting handler), ign, dfl; VF_SIG=check raises SIGINT when it is own, and reports */
static volatile int own_count;
static struct sigaction sig_saved;
static int sig_set;
static void own_handler(int s) { (void)s; own_count++; }
static void sig_cmd(const char *v)
{
  struct sigaction a;
  char b[200];
  if (!strcmp(v, "own") || !strcmp(v, "ign") || !strcmp(v, "dfl")) {
    memset(&a, 0, sizeof a);
    a.sa_handler = *v == 'o' ? own_handler : *v == 'i' ? SIG_IGN : SIG_DFL;
    sigaction(SIGINT, &a, sig_set ? 0 : &sig_saved);
    sig_set = 1; own_count = 0;
  } else if (!strcmp(v, "restore")) {
    int n = own_count;
    sigaction(SIGINT, 0, &a);
    const char *h = a.sa_handler == own_handler ? "own" : a.sa_handler == SIG_IGN ? "ign" : a.sa_handler == SIG_DFL ? "dfl" : sig_set && a.sa_handler == sig_saved.sa_handler ? "session" : "other";
    if (a.sa_handler == own_handler) { raise(SIGINT); }
    logline(b, snprintf(b, sizeof b, "SIG handler=%s delivered=%d\n", h, own_count - n));
    if (sig_set) sigaction(SIGINT, &sig_saved, 0);
    sig_set = 0;
  } else {
    char *p = b;
    p += snprintf(p, 100, "DISP %s", v);
    int s[3] = { SIGINT, SIGTERM, SIGABRT };
    for (int i = 0; i < 3; i++) { sigaction(s[i], 0, &a); p += snprintf(p, 40, " %p/%d", (void *)a.sa_handler, !!(a.sa_flags & SA_SIGINFO)); }
    *p++ = '\n';
    logline(b, p - b);
  }
}
static int command(const char *n, const char *v)
{
  if (strncmp(n, "VF_", 3)) return 0;
  if (!strcmp(n, "VF_PROBE")) vf_probe(v);
  else if (!strcmp(n, "VF_INT")) int_arm(v);
  else if (!strcmp(n, "VF_SIG") || !strcmp(n, "VF_DISP")) sig_cmd(v);
  else return 0;
  return 1;
}
int setenv(const char *n, const char *v, int o)
{
  static int (*real)(const char *, const char *, int);
  if (!real) real = dlsym(RTLD_NEXT, "setenv");
  if (command(n, v)) return 0;
  return real(n, v, o);
}
int unsetenv(const char *n)
{
  static int (*real)(const char *);
  if (!real) real = dlsym(RTLD_NEXT, "unsetenv");
  if (!strcmp(n, "VF_INT")) { int_off(); return 0; }
  if (!strcmp(n, "VF_SIG")) { sig_cmd("restore"); return 0; }
  if (!strcmp(n, "VF_DISP")) { sig_cmd("end"); return 0; }
  return real(n);
}
int putenv(char *s)
{
  static int (*real)(char *);
  if (!real) real = dlsym(RTLD_NEXT, "putenv");
  char *e = strchr(s, '=');
  if (e && !strncmp(s, "VF_", 3)) {
    char n[32];
    size_t k = (size_t)(e - s) < sizeof n - 1 ? (size_t)(e - s) : sizeof n - 1;
    memcpy(n, s, k); n[k] = 0;
    if (command(n, e + 1)) return 0;
  }
  return real(s);
}
