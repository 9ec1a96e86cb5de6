// Native implementation of the symbolic-input interface: replays one concrete assignment through the real code.
// The replay file holds, in order of the calls, "v <raw> <name>" lines (and, for samples, expected "o <bits> <name>" lines).
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <math.h>
#include <errno.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/uio.h>
static FILE *rf; static FILE *of; static int64_t fault_after = -1, fault_read = -1;
void sym_native_init(const char *replay, const char *obs) {
  rf = fopen(replay, "r"); if (!rf) { perror(replay); exit(4); }
  of = fopen(obs, "w"); if (!of) { perror(obs); exit(4); }
}
static uint64_t next_raw(const char *name, size_t len) {
  char line[512];
  while (rf && fgets(line, sizeof line, rf)) {
    if (line[0] != 'v') continue;
    unsigned long long v; char nm[256] = "";
    if (sscanf(line, "v %llu %255[^\n]", &v, nm) < 1) continue;
    if (strlen(nm) != len || memcmp(nm, name, len)) { fprintf(stderr, "REPLAY-MISMATCH expected %.*s got %s\n", (int)len, name, nm); exit(4); }
    return v;
  }
  return 0; // inputs beyond the recorded ones: smallest value
}
uint64_t sym_u64(const char *n, size_t l, uint64_t lo, uint64_t hi) { uint64_t v = next_raw(n, l); (void)hi; return lo + v; }
int64_t sym_i64(const char *n, size_t l, int64_t lo, int64_t hi) { uint64_t v = next_raw(n, l); (void)hi; return (int64_t)((uint64_t)lo + v); }
double sym_f64(const char *n, size_t l, int64_t lo, int64_t hi, int sc) { uint64_t v = next_raw(n, l); (void)hi; return ldexp((double)(lo + (int64_t)v), -sc); }
double sym_f64_of(const char *n, size_t l, const double *t, size_t k) { uint64_t v = next_raw(n, l); if (v >= k) exit(4); return t[v]; }
double sym_f64_any(const char *n, size_t l) { uint64_t v = next_raw(n, l); double d; memcpy(&d, &v, 8); return d; }
void sym_assume(bool b) { if (!b) { fprintf(stderr, "ASSUME-FAIL\n"); fflush(of); _exit(3); } }
void sym_check(bool b, const char *n, size_t l) { if (!b) { fprintf(stderr, "CHECK-FAIL %.*s\n", (int)l, n); fflush(of); _exit(1); } }
void sym_fail(const char *n, size_t l) { fprintf(stderr, "CHECK-FAIL %.*s\n", (int)l, n); fflush(of); _exit(1); }
void sym_observe(const char *n, size_t l, uint64_t v) { fprintf(of, "o %llu %.*s\n", (unsigned long long)v, (int)l, n); fflush(of); }
void sym_observe_f64(const char *n, size_t l, double d) { uint64_t u; memcpy(&u, &d, 8); sym_observe(n, l, u); }
uint64_t sym_conc(uint64_t v) { return v; }
double sym_conc_f64(double d) { return d; }
void sym_cover(const char *n, size_t l) { (void)n; (void)l; }
bool sym_decide(bool b) { return b; }
void sym_fault_write(int64_t k) { fault_after = k; }
void sym_fault_read(int64_t k) { fault_read = k; }
// threads, one of them runs at a time
#include <pthread.h>
static pthread_mutex_t fiber_m = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t fiber_c = PTHREAD_COND_INITIALIZER;
static unsigned fiber_cur, fiber_n = 1;
struct fiber { void (*f)(void *); void *a; unsigned id; };
static void fiber_wait(unsigned me) { while (fiber_cur != me) pthread_cond_wait(&fiber_c, &fiber_m); }
static void *fiber_main(void *p) {
  struct fiber b = *(struct fiber *)p; free(p);
  pthread_mutex_lock(&fiber_m); fiber_wait(b.id); pthread_mutex_unlock(&fiber_m);
  b.f(b.a);
  return 0;
}
uint64_t sym_fiber_new(void (*f)(void *), void *a) {
  struct fiber *b = malloc(sizeof *b); b->f = f; b->a = a; b->id = fiber_n++;
  pthread_t t; if (pthread_create(&t, 0, fiber_main, b)) { fprintf(stderr, "no thread\n"); exit(4); }
  return b->id;
}
void sym_fiber_switch(uint64_t k) {
  pthread_mutex_lock(&fiber_m);
  unsigned me = fiber_cur; fiber_cur = k; pthread_cond_broadcast(&fiber_c); fiber_wait(me);
  pthread_mutex_unlock(&fiber_m);
}
void sym_native_done(void) { fprintf(of, "e ok\n"); fclose(of); of = 0; }
// environment: deterministic randomness, write faults on regular files opened by the code under test
ssize_t getrandom(void *b, size_t n, unsigned f) { (void)f; memset(b, 0, n); return n; }
// see nextFault of the engine
static int next_fault(int64_t *f) {
  if (*f < 0) return 0;
  if (*f & 0xffffffff) { (*f)--; return 0; }
  int kind = *f >> 32;
  if (kind == 0) return 1;
  *f = -1; return kind;
}
static int wfault(int fd, size_t n) { return fd < 3 || n == 0 || (of && fd == fileno(of)) ? 0 : next_fault(&fault_after); }
ssize_t write(int fd, const void *b, size_t n) {
  switch (wfault(fd, n)) { case 1: errno = ENOSPC; return -1; case 3: errno = EINTR; return -1; case 2: n = (n + 1) / 2; }
  return syscall(SYS_write, fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) {
  if (fd >= 3 && !(rf && fd == fileno(rf))) switch (next_fault(&fault_read)) { case 1: errno = EIO; return -1; case 3: errno = EINTR; return -1; case 2: n = (n + 1) / 2; }
  return syscall(SYS_read, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int k) {
  size_t n = 0; struct iovec w[64];
  if (k > 64) k = 64;
  for (int i = 0; i < k; i++) { w[i] = v[i]; n += v[i].iov_len; }
  switch (wfault(fd, n)) { case 1: errno = ENOSPC; return -1; case 3: errno = EINTR; return -1;
    case 2: { size_t left = (n + 1) / 2; for (int i = 0; i < k; i++) { if (w[i].iov_len > left) w[i].iov_len = left; left -= w[i].iov_len; } } }
  return syscall(SYS_writev, fd, w, k);
}
