/* Interface between harnesses and the symbolic engine (pbse) or the native
 * replay driver. Symbolic input is a stream of bytes: every call consumes the
 * next bytes of it. */
#ifndef SYM_H
#define SYM_H
#include <stddef.h>
#include <stdint.h>

extern void sym_bytes(void *p, size_t n);            /* n fresh input bytes */
extern uint8_t sym_u8(void);
extern uint32_t sym_u32(void);
extern uint64_t sym_u64(void);
extern uint64_t sym_range(uint64_t lo, uint64_t hi); /* every value explored on its own path */
extern void sym_assume(int cond);
extern void sym_check(int cond, const char *what);   /* the property */
extern void sym_fail(const char *what);
extern void sym_reach(int k);                        /* vacuity witness k (0..63) */
extern void sym_obs(uint64_t v);                     /* observation compared in native replay */
extern uint64_t sym_concretize(uint64_t v);
extern size_t sym_stack_used(void);
extern size_t sym_heap_live(void);                  /* live malloc blocks */
extern void sym_malloc_fail(uint64_t k);            /* fail the k-th (from 0) next malloc/calloc/realloc, once */
extern void sym_block_holds(void *p, uint64_t n);   /* n bytes at p belong to one live block */
extern int sym_is_symbolic_engine(void);

extern void harness(void);
#endif
