/* Buffers: every operation is a splice, a failed one changes nothing. */
#include "common.h"
#include "choice.h"
#ifdef LONG
#define CAP 4000
#define DATA 40
#else
#define DATA 3
#endif
#ifndef CAP
#define CAP 40
#endif
static uint8_t want[CAP]; static size_t nwant;
static void splice(size_t start, size_t end, const uint8_t *d, size_t n) {
  uint8_t tail[CAP]; size_t k = nwant - end;
  for (size_t i = 0; i < k; i++) tail[i] = want[end + i];
  for (size_t i = 0; i < n; i++) want[start + i] = d[i];
  for (size_t i = 0; i < k; i++) want[start + n + i] = tail[i];
  nwant = start + n + k;
}
static void same(const pb_buffer_t *b) {
  sym_check(pb_buffer_size(b) == nwant, "a buffer has the size its history calls for");
  sym_check(!pb_buffer_empty(b) == !!nwant, "a buffer is empty exactly if it has no bytes");
  uint8_t diff = 0;
  for (size_t i = 0; i < nwant; i++) diff |= pb_buffer_data(b)[i] ^ want[i];
  sym_check(!diff, "a buffer has the bytes its history calls for");
}
static void fill(uint8_t *d, size_t n) {
  size_t k = LONG_OR(n < 2 ? n : 2, n);
  sym_bytes(d, k);
  for (; k < n; k++) d[k] = (uint8_t)(k * 7 + nwant * 3 + 1);
}
void harness(void) {
  ACCT(a);
#ifdef LONG
  lcg = (uint32_t)sym_range(0, SEEDS - 1) * 7919 + FIRST;
#endif
  size_t n = CHOICE(N + 1);
  int zero = n && CHOICE(2);
  uint8_t *orig = malloc(n ? n : 1); fill(orig, n);
  for (size_t i = 0; i < n; i++) want[i] = orig[i];
  nwant = n;
  pb_buffer_t b = zero ? pb_buffer_create_zero_copy(orig, n) : n ? pb_buffer_create_with_allocator(&a_alloc, orig, n) : pb_buffer_create_empty_with_allocator(&a_alloc);
  sym_check(pb_buffer_valid(&b), "a buffer is created");
  if (zero) sym_check(pb_buffer_data(&b) == orig, "a zero-copy buffer is the given memory");
  else if (n) sym_check(pb_buffer_data(&b) != orig, "a buffer is a copy of the given data");
  same(&b);
  for (int k = 0; k < K; k++) {
    uint8_t d[DATA]; size_t m = CHOICE(DATA + 1);
    unsigned op = CHOICE(3); if (op == 2 && !m) m = 1; fill(d, m);
    #ifdef LONG
    int fail = !zero && !pick(8);
    size_t from = pick((unsigned)nwant + 1), to = from + (pick(2) ? m : pick(20)); /* the same size half of the time */
    if (pick(4) && to > nwant) to = nwant;
#else
    int fail = !zero && CHOICE(2);
#endif
    if (fail) a.fail_at = a.calls;
    long calls = a.calls;
    pb_error_t e;
    if (op == 2) {
      uint8_t *p = pb_buffer_grow(&b, m);
      if (fail || zero) sym_check(!p, "growing fails without memory");
      else {
        sym_check(p == pb_buffer_data(&b) + nwant, "growing yields the new space at the end");
        for (size_t i = 0; i < m; i++) p[i] = d[i];
        splice(nwant, nwant, d, m);
      }
    } else {
#ifdef LONG
      size_t start = from, end = to;
#else
      size_t start = sym_u64(), end = sym_u64();
#endif
      e = op ? pb_buffer_clear(&b, start, end) : pb_buffer_write(&b, start, end, d, m);
      if (start > end || end > nwant) {
        sym_check(e == PB_ERROR_OFFSET, "an invalid range is reported");
        sym_reach(1);
      } else {
        size_t ins = op ? 0 : m;
        start = sym_concretize(start); end = sym_concretize(end);
        if (zero && ins != end - start) { sym_check(e == PB_ERROR_ALLOC, "a zero-copy buffer does not change in size"); sym_reach(2); }
        else if (fail && ins > end - start) { sym_check(e == PB_ERROR_ALLOC, "a failed allocation is reported"); sym_reach(3); }
        else { sym_check(e == PB_ERROR_NONE, "writing and clearing within the buffer succeeds"); splice(start, end, d, ins); sym_reach(4 + (int)op); }
      }
    }
    a.fail_at = -1;
    if (zero) sym_check(pb_buffer_data(&b) == orig && a.calls == calls, "a zero-copy buffer stays where it is");
    sym_check(pb_buffer_valid(&b), "a buffer stays usable");
    same(&b);
  }
  pb_buffer_destroy(&b);
  sym_check(a.live == 0, "a buffer frees its memory");
  if (zero) { uint8_t diff = 0; for (size_t i = 0; i < n; i++) diff |= orig[i] ^ want[i]; sym_check(!diff, "a zero-copy buffer writes through"); }
  free(orig);
  sym_check(sym_heap_live() == 0, "only the given allocator is used");
  /* a buffer that could not be created */
  ACCT(f); f.fail_at = 0; uint8_t x[2]; sym_bytes(x, 2);
  pb_buffer_t bad = pb_buffer_create_with_allocator(&f_alloc, x, 2);
  sym_check(!pb_buffer_valid(&bad) && pb_buffer_error(&bad) == PB_ERROR_ALLOC, "a buffer that could not be allocated is invalid");
  sym_check(pb_buffer_write(&bad, 0, 0, x, 1) == PB_ERROR_INVALID && pb_buffer_clear(&bad, 0, 0) == PB_ERROR_INVALID && !pb_buffer_grow(&bad, 1), "an invalid buffer rejects everything");
  pb_buffer_destroy(&bad);
}
