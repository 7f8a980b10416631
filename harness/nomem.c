/* LD_PRELOAD: requests for memory are refused from the NOMEM_AT-th on, NOMEM_COUNT of them (those of at least NOMEM_MIN bytes) */
#include <stdlib.h>
#include <errno.h>
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
static long at = -1, count, min, seen;
static int refuse(size_t n) {
  if (at < 0) {
    const char *a = getenv("NOMEM_AT"), *c = getenv("NOMEM_COUNT"), *m = getenv("NOMEM_MIN");
    at = a ? atol(a) : 0; count = c ? atol(c) : 1; min = m ? atol(m) : 0;
  }
  if (at == 0 || (long) n < min) return 0;
  seen++;
  if (seen < at || seen >= at + count) return 0;
  errno = ENOMEM;
  return 1;
}
void *malloc(size_t n) { return refuse(n) ? NULL : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return refuse(a * b) ? NULL : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return refuse(n) ? NULL : __libc_realloc(p, n); }
