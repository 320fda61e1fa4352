/* Histories on the regex compiler: c FLAGS HEX FAILAT (compile; the FAILAT-th allocation is refused), b K (begin a match
 * object), f K HEX (feed), d K HEX (feed through the checking variant), r K (reset), x K (free), e (free everything).
 * What is fed lies directly before a page that cannot be read. */
#define main runner_main
#include "runner.h"
#undef main
#include "regexJIT.h"

static long live; static int count, failat, failed;
void *h_malloc(size_t n) {
  if (failat && ++count == failat) { failed = 1; return NULL; }
  uint8_t *p = malloc(n); memset(p, 0xa5, n); live++; return p;
}
void h_free(void *p) { if (p) { live--; free(p); } }

static uint8_t *page; static uint8_t buf[1 << 16];
/* the upper half of the register of an int argument is anything */
typedef void (*feed_t)(struct regex_match *, const char *, long);
static void res(const char *o, int k, struct regex_match *m, const uint8_t *s, int n) {
  int e = -7, id = -7, b = regex_get_result(m, &e, &id);
  ev("{\"o\":\"%s\",\"k\":%d,\"s\":[", o, k); for (int i = 0; i < n; i++) ev("%s%d", i ? "," : "", s[i]);
  ev("],\"b\":%d,\"e\":%d,\"id\":%d,\"fin\":%d}\n", b, e, id, !!regex_is_match_finished(m));
}
static void run_case(char **lines, int n) {
  struct regex_machine *re = NULL; struct regex_match *m[16] = {0}; long base = 0; int turn = 0;
  page = mmap(NULL, 1 << 17, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(page + (1 << 16), 1 << 16, PROT_NONE);
  for (int i = 0; i < n; i++) {
    char *a = lines[i] + 1; int k = strtol(a, &a, 10); while (*a == ' ') a++;
    if (lines[i][0] == 'c') {
      int len = 0, err = -1; char *q = a; if (*q != '-') len = unhex(q, buf); while (*q > ' ') q++;
      uint8_t *p = page + (1 << 16) - len; memcpy(p, buf, len);
      base = live; count = 0; failed = 0; failat = atoi(q);
      re = regex_compile((char *)p, len, k, &err); failat = 0;
      memset(page, 0xee, 1 << 16);
      ev("{\"o\":\"compile\",\"err\":%d,\"failed\":%d,\"left\":%ld}\n", re ? (err ? 1000 + err : 0) : err, failed, live - base);
      if (!re) return;
      continue;
    }
    if (lines[i][0] == 'e') { for (int j = 0; j < 16; j++) if (m[j]) regex_free_match(m[j]); regex_free_machine(re); ev("{\"o\":\"end\",\"left\":%ld}\n", live - base); return; }
    if (k < 0 || k > 15) harness_fail("object", lines[i]);
    if (lines[i][0] == 'b') { m[k] = regex_begin_match(re); res("begin", k, m[k], 0, 0); continue; }
    if (lines[i][0] == 'r') { regex_reset_match(m[k]); res("reset", k, m[k], 0, 0); continue; }
    if (lines[i][0] == 'x') { regex_free_match(m[k]); m[k] = NULL; continue; }
    int len = *a == '-' ? 0 : unhex(a, buf); uint8_t *p = page + (1 << 16) - len; memcpy(p, buf, len);
    if (lines[i][0] == 'd') regex_continue_match_debug(m[k], (char *)p, len);
    else { volatile feed_t f = (feed_t)regex_continue_match; f(m[k], (char *)p, (long)len | (turn++ & 1 ? 0x7fffff0000000000l : 0)); }
    memset(page, 0xee, 1 << 16);
    res("feed", k, m[k], buf, len);
  }
}
#include <unistd.h>
int main(int argc, char **argv) { return runner_main(argc, argv); }
