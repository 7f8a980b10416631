/*
 * Filter for the tables of many roots: runs a generator for each psi and
 * reads the text of the sources it writes.  A root is passed over when its
 * sources differ from those of the first root in the values only and these
 * are the expected ones; every other root is printed, for its sources to be
 * compiled, dumped and judged.
 * usage: tab_scan TOOL RED N FIRST PSI ...     (in an empty directory)
 */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <ctype.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#define HQ 12289
static int64_t res(int64_t x) { x %= HQ; return x < 0 ? x + HQ : x; }
static int64_t pw(int64_t x, int64_t e) { int64_t y = 1; x = res(x); for (; e; e >>= 1) { if (e & 1) y = y * x % HQ; x = x * x % HQ; } return y; }
static int64_t inv(int64_t x) { return pw(x, HQ - 2); }
static uint32_t rev(uint32_t i, uint32_t n) { uint32_t x = 0; for (; n > 1; n >>= 1) { x = (x << 1) | (i & 1); i >>= 1; } return x; }
static int red; static uint32_t n; static char pre[40];
static int64_t P[4096];
static int64_t wr(int64_t r) { r = res(r); return red && r > HQ / 2 ? r - HQ : r; }
static const struct { const char *name; int x, y; bool inv, rev; } bt[] = {
  { "omega_powers", 0, 2, 0, 0 }, { "omega_powers_rev", 0, 2, 0, 1 }, { "inv_omega_powers", 0, 2, 1, 0 }, { "inv_omega_powers_rev", 0, 2, 1, 1 },
  { "mixed_powers", 1, 2, 0, 0 }, { "mixed_powers_rev", 1, 2, 0, 1 }, { "inv_mixed_powers", 1, 2, 1, 0 }, { "inv_mixed_powers_rev", 1, 2, 1, 1 },
  { "psi_powers_rev", 0, 1, 0, 1 }, { "inv_psi_powers_rev", 0, 1, 1, 1 } };
/* expected value of entry i of a table (i < 0: of a parameter) */
static bool expect(const char *id, int32_t i, int64_t *v) {
  size_t l = strlen(pre);
  if (strncmp(id, pre, l)) return false;
  id += l;
  int64_t k3 = red ? 8193 : 1, in = inv(n);
  if (i < 0) {
    if (!strcmp(id, "psi")) *v = P[1];
    else if (!strcmp(id, "omega")) *v = P[2];
    else if (!strcmp(id, "inv_psi")) *v = inv(P[1]);
    else if (!strcmp(id, "inv_omega")) *v = inv(P[2]);
    else if (!strcmp(id, "inv_n")) *v = in;
    else if (!strcmp(id, "inv_k")) *v = 8193;
    else if (!strcmp(id, "rescale8") || !strcmp(id, "rescale")) *v = in * pw(8193, 8) % HQ;
    else if (!strcmp(id, "rescale6")) *v = in * pw(8193, 6) % HQ;
    else return false;
    return true;
  }
  static int64_t s8, s6; static bool init;
  if (!init) { s8 = red ? in * pw(8193, 8) % HQ : in; s6 = in * pw(8193, 6) % HQ; init = true; }
  int64_t p = P[i], q = P[(2 * n - (uint32_t) i) % (2 * n)];
  if (!strcmp(id, "psi_powers")) { *v = wr(p * k3); return true; }
  if (!strcmp(id, "inv_psi_powers")) { *v = wr(q * k3); return true; }
  if (!strcmp(id, "scaled_inv_psi_powers")) { *v = wr(q * s8); return true; }
  if (!strcmp(id, "scaled_inv_psi_powers_var")) { *v = wr(q * s6); return true; }
  for (int b = 0; b < 10; b++) if (!strcmp(id, bt[b].name)) {
    uint32_t t = 1, j, e;
    if (i == 0) { *v = 0; return true; }
    while (2 * t <= (uint32_t) i) t *= 2;
    j = (uint32_t) i - t; if (bt[b].rev) j = rev(j, t);
    e = n / (2 * t) * ((uint32_t) bt[b].x + (uint32_t) bt[b].y * j) % (2 * n);
    if (n / (2 * t) == 0) return false;
    if (bt[b].inv) e = (2 * n - e) % (2 * n);
    *v = wr(P[e] * k3); return true;
  }
  return false;
}
static char buf[1 << 21];
static char *slurp(const char *f) {
  int fd = open(f, O_RDONLY); ssize_t l = 0, g;
  if (fd < 0) return NULL;
  while ((g = read(fd, buf + l, sizeof buf - 1 - (size_t) l)) > 0) l += g;
  close(fd); buf[l] = 0;
  return (size_t) l < sizeof buf - 2 ? buf : NULL;
}
static uint64_t hash;
static void mix(const char *s, size_t l) { for (size_t i = 0; i < l; i++) hash = (hash ^ (uint8_t) s[i]) * 0x100000001b3ull; }
/* one file: are all values the expected ones?  hash: all the rest */
static bool scan(const char *f) {
  char *s = slurp(f), id[80] = "", last[80] = "";
  bool on = false, arr = false, seen_eq = false; int32_t i = 0; int64_t v, e;
  if (!s) return false;
  while (*s) {
    if (s[0] == '/' && s[1] == '*') { char *t = strstr(s + 2, "*/"); if (!t) return false; s = t + 2; continue; }
    if (s[0] == '/' && s[1] == '/') { while (*s && *s != '\n') s++; continue; }
    if (isspace((unsigned char) *s)) { s++; continue; }
    if (isalpha((unsigned char) *s) || *s == '_') {
      char *t = s; while (isalnum((unsigned char) *t) || *t == '_') t++;
      if (on || (size_t) (t - s) >= sizeof id) return false;
      memcpy(last, s, (size_t) (t - s)); last[t - s] = 0; mix(s, (size_t) (t - s)); mix(" ", 1); s = t; continue;
    }
    if (on && (isdigit((unsigned char) *s) || *s == '-')) {
      char *t; v = strtoll(s, &t, 10);
      if (t == s || (s[0] == '0' && t - s > 1) || isalnum((unsigned char) *t)) return false;
      if (arr && (uint32_t) i >= n) return false;
      if (!expect(id, arr ? i : -1, &e) || e != v) return false;
      i++; s = t; while (isspace((unsigned char) *s)) s++;
      if (arr ? *s != ',' && *s != '}' : *s != ';') return false;
      if (arr && *s == ',') s++;
      continue;
    }
    if (*s == '[' && !on) memcpy(id, last, sizeof id);
    if (*s == '=') { if (on) return false; on = seen_eq = true; arr = false; i = 0; char *t = s + 1; while (isspace((unsigned char) *t)) t++; arr = *t == '{'; if (!arr) memcpy(id, last, sizeof id); }
    if (*s == '}' && on && (!arr || (uint32_t) i != n)) return false;
    if (*s == ';' && on) { if (i == 0) return false; on = false; }
    mix(s, 1); s++;
  }
  (void) seen_eq;
  return !on;
}
int main(int argc, char **argv) {
  if (argc < 5) return 2;
  red = atoi(argv[2]); n = (uint32_t) atoi(argv[3]);
  snprintf(pre, sizeof pre, red ? "ntt_red%u_" : "ntt%u_", n);
  char fc[60], fh[60]; uint64_t h0 = 0; long okc = 0;
  snprintf(fc, sizeof fc, "%stables.c", pre); snprintf(fh, sizeof fh, "%stables.h", pre);
  for (int a = 4; a < argc; a++) {
    int64_t psi = atoll(argv[a]);
    P[0] = 1; for (uint32_t i = 1; i < 2 * n; i++) P[i] = P[i - 1] * psi % HQ;
    unlink(fc); unlink(fh);
    pid_t pid = fork();
    if (pid == 0) {
      int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2); alarm(60);
      execl(argv[1], argv[1], argv[3], argv[a], (char *) NULL); _exit(127);
    }
    int st; waitpid(pid, &st, 0);
    hash = 0xcbf29ce484222325ull;
    bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && scan(fc) && scan(fh);
    if (a == 4) h0 = hash;
    if (ok && hash == h0) okc++; else printf("%s\n", argv[a]);
  }
  printf("passed %ld\n", okc);
  unlink(fc); unlink(fh);
  return 0;
}
