/* Native replay of engine inputs against the real code (ASan, UBSan or MSan
 * build). usage: replay FILE   where FILE holds one hex input per line.
 * For each line prints: "<verdict> <hash> <text>"; each case runs in a child. */
#define _GNU_SOURCE
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
#endif
#endif

static uint8_t in[1024]; static size_t in_n, in_p;
static uint64_t obs = 1469598103934665603ull;
static char *base;
static int out = 1;
static uint8_t next(void) { return in_p < in_n ? in[in_p++] : (in_p++, 0); }
static void say(const char *v, const char *t) { char b[512]; int n = snprintf(b, sizeof b, "%s %016llx %s\n", v, (unsigned long long)obs, t); if (write(out, b, n)) {} }

void sym_bytes(void *p, size_t n) { for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = next(); }
uint8_t sym_u8(void) { return next(); }
uint32_t sym_u32(void) { uint32_t v = 0; for (int i = 0; i < 4; i++) v |= (uint32_t)next() << 8 * i; return v; }
uint64_t sym_u64(void) { uint64_t v = 0; for (int i = 0; i < 8; i++) v |= (uint64_t)next() << 8 * i; return v; }
uint64_t sym_range(uint64_t lo, uint64_t hi) {
  uint8_t b = next();
  if (b > hi - lo) { say("INVALID", "range"); _exit(77); }
  return lo + b;
}
void sym_assume(int c) { if (!c) { say("INVALID", "assumption"); _exit(77); } }
void sym_check(int c, const char *what) { if (!c) { say("CHECK", what); _exit(78); } }
void sym_fail(const char *what) { say("CHECK", what); _exit(78); }
void sym_reach(int k) { (void)k; }
void sym_obs(uint64_t v) {
#ifdef MSAN
  __msan_check_mem_is_initialized(&v, sizeof v);
#endif
  obs = (obs ^ v) * 1099511628211ull; obs ^= obs >> 31;
}
uint64_t sym_concretize(uint64_t v) { return v; }
__attribute__((noinline)) size_t sym_stack_used(void) { return (size_t)(base - (char *)__builtin_frame_address(0)); }
void sym_block_holds(void *p, uint64_t n) { volatile uint8_t *q = p; if (n) { uint8_t t = q[0]; q[0] = t; t = q[n - 1]; q[n - 1] = t; } }
int sym_is_symbolic_engine(void) { return 0; }

/* linked with --wrap=malloc etc.: counts blocks and injects one failure */
extern void *__real_malloc(size_t); extern void *__real_calloc(size_t, size_t);
extern void *__real_realloc(void *, size_t); extern void __real_free(void *);
static uint64_t fail_at = ~0ull; static size_t live;
static int failing(void) { if (fail_at != ~0ull && fail_at-- == 0) { fail_at = ~0ull; return 1; } return 0; }
void *__wrap_malloc(size_t n) { void *p = failing() ? 0 : __real_malloc(n); if (p) live++; return p; }
void *__wrap_calloc(size_t n, size_t k) { void *p = failing() ? 0 : __real_calloc(n, k); if (p) live++; return p; }
void *__wrap_realloc(void *q, size_t n) {
  if (q && !n) { __real_free(q); live--; return 0; }
  void *p = failing() ? 0 : __real_realloc(q, n);
  if (p && !q) live++;
  return p;
}
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
size_t sym_heap_live(void) { return live; }
void sym_malloc_fail(uint64_t k) { fail_at = k; }

static void onalarm(int s) { (void)s; say("TIMEOUT", "no result within the replay time limit"); _exit(79); }

int main(int argc, char **argv) {
  static char line[4096];
  FILE *f = fopen(argv[1], "r");
  if (!f || argc < 2) return 2;
  int tmo = argc > 2 ? atoi(argv[2]) : 10;
  while (fgets(line, sizeof line, f)) {
    in_n = 0;
    for (char *p = line; p[0] && p[1] && p[0] != '\n'; p += 2) { unsigned v; if (sscanf(p, "%2x", &v) != 1) break; in[in_n++] = (uint8_t)v; }
    fflush(stdout);
    int fd[2]; if (pipe(fd)) return 2;
    pid_t p = fork();
    if (!p) {
      close(fd[0]); out = fd[1]; dup2(fd[1], 2); dup2(fd[1], 1);
      signal(SIGALRM, onalarm); alarm(tmo);
      base = (char *)__builtin_frame_address(0);
      harness();
      say("OK", "");
      _exit(0);
    }
    close(fd[1]);
    static char buf[1 << 16]; size_t n = 0; ssize_t k;
    while (n < sizeof buf - 1 && (k = read(fd[0], buf + n, sizeof buf - 1 - n)) > 0) n += k;
    char junk[4096]; while (read(fd[0], junk, sizeof junk) > 0) {}
    buf[n] = 0; close(fd[0]);
    int st; waitpid(p, &st, 0);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || (WEXITSTATUS(st) >= 77 && WEXITSTATUS(st) <= 79))) {
      char *l = buf; char *last = buf; 
      while ((l = strchr(l, '\n')) && l[1]) last = ++l;
      char *nl = strchr(last, '\n'); if (nl) *nl = 0;
      printf("%s\n", last);
    } else {
      char *e = strstr(buf, "ERROR: "); if (!e) e = strstr(buf, "WARNING: "); if (!e) e = strstr(buf, "runtime error: ");
      char what[200]; if (e) { snprintf(what, sizeof what, "%s", e); char *nl = strchr(what, '\n'); if (nl) *nl = 0; }
      else snprintf(what, sizeof what, "exit %d signal %d %.100s", WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0, buf);
      for (char *c = what; *c; c++) if (*c == '\n') *c = ' ';
      printf("CRASH 0 %s\n", what);
    }
    fflush(stdout);
  }
  return 0;
}
