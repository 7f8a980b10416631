/*
 * Concrete meaning of the verifier's primitives, linked with the benchmark programs.
 */
#include <stdint.h>
#include <stdlib.h>
#include "clam_stub.h"
uint64_t stub_asserts, stub_fails;
int stub_soft;                   /* count failures instead of stopping */
jmp_buf stub_reject;
int (*stub_input)(void);
void __CRAB_assert(int x) { stub_asserts++; if (!x) { stub_fails++; if (!stub_soft) abort(); } }
void __CRAB_assume(int x) { if (!x) longjmp(stub_reject, 1); }
int int_nd(void) { return stub_input ? stub_input() : 0; }
/* the intrinsic that the verifier interprets by red(x) (see C22) */
int32_t __CRAB_intrinsic_red(int64_t z) { return (int32_t) (3 * (z & 4095) - (z >> 12)); }
