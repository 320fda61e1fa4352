/* Frame of the scripted harnesses: reads "CASE id / lines / END", runs each case in a forked child (a crash of the code
 * under test is an observation), prints "CASE id" and then whatever the case prints to `out`. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

static FILE *out;
static void run_case(char **lines, int n);
static void ev(const char *fmt, ...) { va_list a; va_start(a, fmt); vfprintf(out, fmt, a); va_end(a); }
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static int unhex(const char *s, uint8_t *o) { int n = 0; while (s[0] > ' ' && s[1] > ' ') { o[n++] = hexv(s[0]) * 16 + hexv(s[1]); s += 2; } return n; }
static void harness_fail(const char *m, const char *x) { fprintf(stderr, "harness: %s %s\n", m, x); fflush(stderr); _exit(99); }

/* the whole script, not a file shared with the children: one that leaves through exit() would move it */
static FILE *script(const char *path) {
  FILE *f = fopen(path, "r"); if (!f) exit(99);
  size_t n = 0, c = 1 << 20; char *b = malloc(c); for (size_t k; (k = fread(b + n, 1, c - n, f)) > 0; ) { n += k; if (n == c) b = realloc(b, c *= 2); }
  fclose(f); return n ? fmemopen(b, n, "r") : fopen("/dev/null", "r");
}
int main(int argc, char **argv) {
  FILE *f = script(argv[1]); char *line = NULL; size_t cap = 0; ssize_t n; char **lines = NULL; int nl = 0, cl = 0; char id[64] = ""; int nhang = 0;
  setvbuf(stdout, NULL, _IOFBF, 1 << 16); out = stdout;
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  while ((n = getline(&line, &cap, f)) > 0) {
    if (line[n - 1] == '\n') line[n - 1] = 0;
    if (!strncmp(line, "CASE ", 5)) { snprintf(id, 64, "%s", line + 5); nl = 0; continue; }
    if (strcmp(line, "END")) { if (nl == cl) lines = realloc(lines, (cl = cl * 2 + 64) * sizeof(char *)); lines[nl++] = strdup(line); continue; }
    printf("CASE %s\n", id); fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      int dn = open("/dev/null", O_WRONLY); int saved = dup(1);
      out = fdopen(saved, "w"); setvbuf(out, NULL, _IOFBF, 1 << 16); dup2(dn, 1); close(dn);
      signal(SIGALRM, SIG_DFL); alarm(nhang < 2 ? 10 : 1);
      run_case(lines, nl); fflush(out); _exit(0);
    }
    int st; waitpid(p, &st, 0);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) nhang++;
    if (WIFSIGNALED(st)) printf("{\"e\":\"crash\",\"sig\":%d}\n", WTERMSIG(st));
    else if (WEXITSTATUS(st) == 99) printf("{\"e\":\"harness\"}\n");
    else if (WEXITSTATUS(st)) printf("{\"e\":\"crash\",\"sig\":%d}\n", 1000 + WEXITSTATUS(st));
    fflush(stdout);
    for (int i = 0; i < nl; i++) free(lines[i]);
    nl = 0;
  }
  return 0;
}
