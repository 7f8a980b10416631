/*
 * Operands between inaccessible pages, constant operands in read-only pages,
 * canaries around misaligned operands.
 */
#ifndef GUARD_H
#define GUARD_H
#include "hx.h"
#include <setjmp.h>
#define ARENA (1 << 20)
typedef struct { char *lo, *hi; char *p; size_t size; bool ro; char *copy; } zone_t;
static zone_t Z[4];
static sigjmp_buf jb;
static volatile sig_atomic_t armed, faulted;
static void onfault(int sig) {
  if (armed) { faulted = 1; armed = 0; siglongjmp(jb, 1); }
  hx_crash(sig);
}
static void zone_init(zone_t *z) {
  char *m = mmap(NULL, ARENA + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) _exit(3);
  mprotect(m, 4096, PROT_NONE); mprotect(m + 4096 + ARENA, 4096, PROT_NONE);
  z->lo = m + 4096; z->hi = z->lo + ARENA; z->copy = malloc(ARENA);
}
/* side 0: end at the guard page, 1: start at the guard page, 2: misaligned near the end, 3: misaligned near the start */
static void *place(int k, size_t size, int side, size_t elem) {
  zone_t *z = &Z[k];
  mprotect(z->lo, ARENA, PROT_READ | PROT_WRITE);
  z->size = size; z->ro = false;
  size_t off = elem * (1 + rnd((uint32_t) (32 / elem - 1)));
  z->p = side == 0 ? z->hi - size : side == 1 ? z->lo : side == 2 ? z->hi - size - off : z->lo + off;
  return z->p;
}
/* only the part of the arena next to the operand can be reached without a fault: check that much */
#define NEAR 8192
static void span(zone_t *z, char **a, char **b) {
  *a = z->p - NEAR < z->lo ? z->lo : z->p - NEAR;
  *b = z->p + z->size + NEAR > z->hi ? z->hi : z->p + z->size + NEAR;
}
static void canary(int k) {
  zone_t *z = &Z[k]; char *a, *b, *c;
  span(z, &a, &b);
  for (c = a; c < b; c++) if (c < z->p || c >= z->p + z->size) *c = (char) (0x5a ^ (uintptr_t) c ^ ((uintptr_t) c >> 8));
}
static void snap(int k) { zone_t *z = &Z[k]; memcpy(z->copy, z->p, z->size); }
static void readonly(int k) { Z[k].ro = true; mprotect(Z[k].lo, ARENA, PROT_READ); }
static bool outside(int k) {
  zone_t *z = &Z[k]; char *a, *b, *c;
  span(z, &a, &b);
  for (c = a; c < b; c++) if ((c < z->p || c >= z->p + z->size) && *c != (char) (0x5a ^ (uintptr_t) c ^ ((uintptr_t) c >> 8))) return true;
  return false;
}
static bool changed(int k) { zone_t *z = &Z[k]; return memcmp(z->copy, z->p, z->size) != 0; }

static const char *const zname[] = { "a", "b", "c", "p" };
static uint32_t acc_fault, acc_out, acc_changed; /* bit per zone */
static void begin(void) { acc_fault = acc_out = acc_changed = 0; }
#define CALL(nz, stmt) do { uint32_t k_; faulted = 0; for (k_ = 0; k_ < 4; k_++) if ((nz) >> k_ & 1) { canary((int) k_); snap((int) k_); if ((nz) >> (k_ + 8) & 1) readonly((int) k_); } \
  hx_calls++; if (sigsetjmp(jb, 1) == 0) { armed = 1; stmt; armed = 0; } \
  if (faulted) acc_fault = 1; \
  for (k_ = 0; k_ < 4; k_++) if ((nz) >> k_ & 1) { if (outside((int) k_)) acc_out = 1; if (changed((int) k_)) acc_changed |= 1u << k_; } } while (0)
#define ZA 1
#define ZB 2
#define ZC 4
#define ZP 8
#define RO(z) ((z) << 8)
static void report(const char *kind, const char *name, uint32_t n) {
  ev_open("frame"); ev_s("fam", FAMNAME); ev_s("op", kind); ev_s("name", name); ev_i("n", n); ev_i("fault", acc_fault); ev_i("outside", acc_out);
  fputs(",\"changed\":[", hx_out);
  for (int k = 0, m = 0; k < 4; k++) if (acc_changed >> k & 1) { fprintf(hx_out, "%s\"%s\"", m ? "," : "", zname[k]); m = 1; }
  fputs("]", hx_out); ev_end();
}
static void guard_init(void) {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onfault; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL);
  for (int k = 0; k < 4; k++) zone_init(&Z[k]);
}
#endif
