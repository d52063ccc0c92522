/* The chunk allocator: live blocks are disjoint, keep their content, and end with the allocator. */
#include "common.h"
#include <protobluff/util/chunk_allocator.h>
#include "choice.h"
#ifdef LONG
#define B 8
#define VMAX 400
#else
#define B 3
#define VMAX 24
#endif
static uint8_t *blk[B], val[B][VMAX]; static size_t len[B]; static uint8_t serial;
static void write(int i, size_t from) { for (size_t k = from; k < len[i]; k++) blk[i][k] = val[i][k] = k == from ? sym_u8() : (uint8_t)(++serial); }
static void look(void) {
  for (int i = 0; i < B; i++) if (blk[i]) {
    uint8_t diff = 0;
    for (size_t k = 0; k < len[i]; k++) diff |= blk[i][k] ^ val[i][k];
    sym_check(!diff, "a block keeps its content until it is freed");
    for (int k = 0; k < B; k++) if (k != i && blk[k]) sym_check(blk[i] + len[i] <= blk[k] || blk[k] + len[k] <= blk[i], "blocks do not overlap");
  }
}
#ifdef SIZES
/* any sizes: every block is at least as large as asked for */
void harness(void) {
  size_t cap = sym_u8() + 1u, n[2]; uint8_t *b[2] = { NULL, NULL };
  pb_allocator_t a = pb_chunk_allocator_create_with_capacity(cap);
  for (int k = 0; k < K; k++) {
    int i = (int)sym_range(0, 1);
    n[i] = sym_u8() + 1u;
    uint8_t first = b[i] ? b[i][0] : 0;
    uint8_t *p = b[i] || sym_range(0, 1) ? pb_allocator_resize(&a, b[i], n[i]) : pb_allocator_allocate(&a, n[i]);
    sym_check(p != NULL, "allocation succeeds when there is memory");
    if (b[i]) { sym_check(p[0] == first, "resizing keeps the content"); sym_reach(p == b[i] ? 1 : 2); }
    b[i] = p; p[0] = sym_u8();
    for (int q = 0; q < 2; q++) if (b[q]) sym_block_holds(b[q], n[q]);
    sym_check(b[0] != b[1], "blocks do not overlap");
  }
  sym_check(sym_heap_live() == 1u + !!b[0] + !!b[1], "one chunk per block");
  pb_chunk_allocator_destroy(&a);
  sym_check(sym_heap_live() == 0, "destroying a chunk allocator frees all of its blocks");
}
#else
void harness(void) {
#ifdef LONG
  lcg = (uint32_t)sym_range(0, SEEDS - 1) * 7919 + FIRST;
#endif
  #ifdef LONG
  static const size_t caps[] = { 1, 7, 64 }, sizes[] = { 1, 2, 7, 8, 60, 63, 64, 65, 127, 128, 129, 200, 399 };
#else
  static const size_t caps[] = { 1, 4, 7 }, sizes[] = { 1, 3, 4, 7, 8, 15 };
#endif
  size_t cap = caps[CHOICE(3)];
  int dead = LONG_OR(0, (int)CHOICE(2));
  if (dead) sym_malloc_fail(0);
  pb_allocator_t a = pb_chunk_allocator_create_with_capacity(cap);
  for (int k = 0; k < K; k++) {
    int i = (int)CHOICE(B);
    unsigned op = CHOICE(3);
    size_t n = sizes[CHOICE(COUNT(sizes))];
    int fail = !dead && LONG_OR(!CHOICE(8), CHOICE(2));
    size_t live = sym_heap_live();
    if (op == 2) {                                         /* free */
      if (!blk[i]) LONG_OR(continue, return);
      pb_allocator_free(&a, blk[i]); blk[i] = NULL;
      sym_check(sym_heap_live() == live - 1, "freeing a block returns its memory");
      sym_reach(1);
    } else {
      if (op == 0 && blk[i]) LONG_OR(continue, return);
      if (fail) sym_malloc_fail(0);
      void *p = op ? pb_allocator_resize(&a, blk[i], n) : pb_allocator_allocate(&a, n);
      if (dead) { sym_check(!p, "an allocator without memory allocates nothing"); sym_reach(2); }
      else if (fail && !p) sym_reach(3);
      else {
        sym_check(p != NULL, "allocation succeeds when there is memory");
        sym_check(sym_heap_live() == live + !blk[i], "one chunk per block");
        size_t keep = blk[i] ? len[i] < n ? len[i] : n : 0;
        int moved = blk[i] && p == blk[i] ? 5 : 6;
        blk[i] = p; len[i] = n;
        for (size_t q = 0; q < keep; q++) sym_check(blk[i][q] == val[i][q], "resizing keeps the content");
        write(i, keep);
        sym_reach(op ? moved : 4);
      }
      sym_malloc_fail((uint64_t)-1);
    }
    look();
  }
  pb_chunk_allocator_destroy(&a);
  sym_check(sym_heap_live() == 0, "destroying a chunk allocator frees all of its blocks");
}
#endif
