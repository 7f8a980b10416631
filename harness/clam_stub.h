#include <setjmp.h>
#include <stdint.h>
extern uint64_t stub_asserts, stub_fails;
extern int stub_soft;
extern jmp_buf stub_reject;
extern int (*stub_input)(void);
