/*
 * The AVX2 functions called from an assembly trampoline that puts arbitrary
 * values in everything the System V calling convention leaves unspecified
 * (upper halves of 32-bit arguments, scratch and vector registers) and looks
 * at everything it requires to be preserved.
 * usage: d_abi OUT SEED WEIGHT PART NPARTS
 */

#include "ops.h"
#include <sys/wait.h>
typedef struct {
  uint64_t fn, rdi, rsi, rdx, rcx;      /* 0, 8, 16, 24, 32 */
  uint64_t junk;                        /* 40: put in scratch registers */
  uint64_t keep_in[6];                  /* 48: rbx rbp r12 r13 r14 r15 */
  uint64_t keep_out[6];                 /* 96 */
  uint64_t rsp_in, rsp_out, flags;      /* 144, 152, 160 */
  uint32_t mxcsr_in, mxcsr_out;         /* 168, 172 */
  uint16_t cw_in, cw_out; uint32_t pad; /* 176, 178 */
  uint64_t save[6];                     /* 184: of the caller */
  uint64_t stack_changed;               /* 232 */
} frame_t;
extern void abi_call(frame_t *);
__asm__(
  ".intel_syntax noprefix\n .text\n .globl abi_call\n abi_call:\n"
  " push rbx\n push rbp\n push r12\n push r13\n push r14\n push r15\n"
  " push rdi\n"                          /* the frame */
  " sub rsp, 256\n"                      /* 8 + 7*8 + 256: aligned to 16 */
  " mov rax, rsp\n mov ecx, 32\n mov rdx, 0x5A5AA5A5C3C33C3C\n"
  "1: mov [rax], rdx\n add rax, 8\n dec ecx\n jnz 1b\n"
  " mov r11, rdi\n"
  " mov [r11+144], rsp\n stmxcsr [r11+168]\n fnstcw [r11+176]\n"
  " mov rbx, [r11+48]\n mov rbp, [r11+56]\n mov r12, [r11+64]\n mov r13, [r11+72]\n mov r14, [r11+80]\n mov r15, [r11+88]\n"
  " vmovq xmm0, [r11+40]\n vpbroadcastq ymm0, xmm0\n"
  " vmovdqa ymm1, ymm0\n vmovdqa ymm2, ymm0\n vmovdqa ymm3, ymm0\n vmovdqa ymm4, ymm0\n vmovdqa ymm5, ymm0\n vmovdqa ymm6, ymm0\n vmovdqa ymm7, ymm0\n"
  " vmovdqa ymm8, ymm0\n vmovdqa ymm9, ymm0\n vmovdqa ymm10, ymm0\n vmovdqa ymm11, ymm0\n vmovdqa ymm12, ymm0\n vmovdqa ymm13, ymm0\n vmovdqa ymm14, ymm0\n vmovdqa ymm15, ymm0\n"
  " mov rdi, [r11+8]\n mov rsi, [r11+16]\n mov rdx, [r11+24]\n mov rcx, [r11+32]\n"
  " mov r8, [r11+40]\n mov r9, r8\n mov r10, r8\n mov rax, r8\n"
  " push [r11]\n pop r11\n"
  " call r11\n"
  " mov r11, [rsp+256]\n"                /* the frame, if the stack pointer is right */
  " mov [r11+152], rsp\n"
  " mov [r11+96], rbx\n mov [r11+104], rbp\n mov [r11+112], r12\n mov [r11+120], r13\n mov [r11+128], r14\n mov [r11+136], r15\n"
  " pushfq\n pop rax\n mov [r11+160], rax\n cld\n"
  " stmxcsr [r11+172]\n fnstcw [r11+178]\n"
  " vzeroupper\n"
  " xor r8d, r8d\n mov rax, rsp\n mov ecx, 32\n mov rdx, 0x5A5AA5A5C3C33C3C\n"
  "2: cmp [rax], rdx\n je 3f\n inc r8\n3: add rax, 8\n dec ecx\n jnz 2b\n"
  " mov [r11+232], r8\n"
  " add rsp, 256\n pop rdi\n pop r15\n pop r14\n pop r13\n pop r12\n pop rbp\n pop rbx\n ret\n"
  ".att_syntax\n");

extern void reduce_array_asm2(int32_t *, uint32_t) __attribute__((weak));
extern void reduce_array_twice_asm2(int32_t *, uint32_t) __attribute__((weak));
extern void mul_reduce_array16_asm2(int32_t *, uint32_t, const int16_t *) __attribute__((weak));
enum { S_A, S_AP, S_ABC, S_AC, S_WRAP, S_PROD, S_FLAG };
typedef struct { const char *name; void *f; int sig; } fn_t;
#define E(x, s) { #x, (void *) x, s }
static const fn_t fns[] = {
  E(reduce_array_asm, S_A), E(reduce_array_asm2, S_A), E(reduce_array_twice_asm, S_A), E(reduce_array_twice_asm2, S_A),
  E(correct_asm, S_A), E(shift_array_asm, S_A),
  E(mul_reduce_array16_asm, S_AP), E(mul_reduce_array16_asm2, S_AP), E(mul_reduce_array_asm, S_ABC), E(scalar_mul_reduce_array_asm, S_AC),
  E(ntt_red_ct_rev2std_asm, S_AP), E(mulntt_red_ct_rev2std_asm, S_AP), E(ntt_red_ct_std2rev_asm, S_AP), E(mulntt_red_ct_std2rev_asm, S_AP),
  E(ntt_red_gs_rev2std_asm, S_AP), E(nttmul_red_gs_rev2std_asm, S_AP), E(ntt_red_gs_std2rev_asm, S_AP), E(nttmul_red_gs_std2rev_asm, S_AP),
  E(avx2_supported, S_FLAG),
};
#define NFN ((int) (sizeof fns / sizeof fns[0]))
static struct shared { frame_t fr; int32_t out[MAXCAP]; int done; } *S;
/* halves of a 64-bit register as two 32-bit integers, for the record */
static void ev_regs(const char *f, const uint64_t *r, int n) {
  int32_t v[32];
  for (int i = 0; i < n; i++) { v[2 * i] = (int32_t) (r[i] >> 32); v[2 * i + 1] = (int32_t) r[i]; }
  ev_v(f, v, (uint32_t) (2 * n));
}
static void one(const fn_t *o, uint32_t n, bool dirty) {
  static int32_t a[MAXCAP], b[MAXCAP], c[MAXCAP], ref[MAXCAP];
  static int16_t p[MAXCAP];
  int32_t sc = (int32_t) rnd(12289) - 6144;
  frame_t *f = &S->fr;
  fill(a, n, 0, HQ - 1, rnd(V_NCLASS)); fill(b, n, -30000, 30000, rnd(V_NCLASS)); fill(c, n, -30000, 30000, rnd(V_NCLASS));
  for (uint32_t i = 0; i < n; i++) p[i] = (int16_t) ((int32_t) rnd(12289) - 6144);
  memcpy(ref, a, n * 4);
  WHERE("%s n=%u", o->name, n);
  /* from C, arguments extended */
  if (o->sig == S_A) ((void (*)(int32_t *, uint64_t)) o->f)(ref, n);
  if (o->sig == S_AP) ((void (*)(int32_t *, uint64_t, const int16_t *)) o->f)(ref, n, p);
  if (o->sig == S_ABC) ((void (*)(int32_t *, uint64_t, const int32_t *, const int32_t *)) o->f)(ref, n, b, c);
  if (o->sig == S_AC) ((void (*)(int32_t *, uint64_t, int64_t)) o->f)(ref, n, sc);
  hx_calls += 2;
  memset(S, 0, sizeof *S);
  for (int i = 0; i < 6; i++) f->keep_in[i] = rnd64();
  uint64_t hi = dirty ? rnd64() << 32 : 0;
  f->fn = (uint64_t) (uintptr_t) o->f; f->junk = rnd64();
  f->rdi = (uint64_t) (uintptr_t) a; f->rsi = n | hi; f->rdx = f->junk; f->rcx = f->junk;
  if (o->sig == S_AP) f->rdx = (uint64_t) (uintptr_t) p;
  if (o->sig == S_ABC) { f->rdx = (uint64_t) (uintptr_t) b; f->rcx = (uint64_t) (uintptr_t) c; }
  if (o->sig == S_AC) f->rdx = (uint32_t) sc | (dirty ? rnd64() << 32 : 0);
  if (o->sig == S_FLAG) f->rdi = f->rsi = f->junk;
  fflush(hx_out);
  pid_t pid = fork();
  if (pid == 0) {
    signal(SIGSEGV, SIG_DFL); signal(SIGILL, SIG_DFL); signal(SIGBUS, SIG_DFL); signal(SIGALRM, SIG_DFL);
    alarm(20);
    abi_call(f);
    memcpy(S->out, a, n * 4);
    S->done = 1;
    _exit(0);
  }
  int st;
  waitpid(pid, &st, 0);
  ev_open("abi"); ev_s("op", o->name); ev_i("n", n); ev_i("dirty", dirty); ev_i("returned", S->done);
  if (S->done) {
    ev_regs("keep", f->keep_in, 6); ev_regs("kept", f->keep_out, 6);
    uint64_t sp[2] = { f->rsp_in, f->rsp_out };
    ev_regs("sp", sp, 2);
    ev_i("df", (int64_t) (f->flags >> 10 & 1)); ev_i("stack", (int64_t) f->stack_changed);
    /* control bits (the status bits of mxcsr may change) */
    ev_i("mx0", f->mxcsr_in & 0xFFC0); ev_i("mx1", f->mxcsr_out & 0xFFC0); ev_i("cw0", f->cw_in); ev_i("cw1", f->cw_out);
    ev_v("want", ref, n < 64 ? n : 64); ev_v("got", S->out, n < 64 ? n : 64);
    ev_i("diff", memcmp(ref, S->out, n * 4) != 0);
  }
  ev_end();
}
int main(int argc, char **argv) {
  if (argc != 6) return 2;
  hx_init(argv[1]); hx_catch();
  uint32_t weight = (uint32_t) atoi(argv[3]), part = (uint32_t) atoi(argv[4]), np = (uint32_t) atoi(argv[5]), u = 0;
  hx_seed(strtoull(argv[2], NULL, 10) * 100 + part);
  alarm(hx_limit());
  S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int k = 0; k < NFN; k++) {
    if (!fns[k].f) continue;
    bool ntt = strstr(fns[k].name, "ntt") != NULL;
    for (uint32_t n = 16; n <= 2048; n = ntt ? 2 * n : n < 128 ? n + 16 : 2 * n)
      for (uint32_t r = 0; r < 4 * weight; r++) if (u++ % np == part) one(&fns[k], n, r % 4 != 0);
  }
  hx_finish();
  return 0;
}
