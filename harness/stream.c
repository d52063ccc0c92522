/* Reading and skipping one value at any offset of any buffer. */
#include "common.h"
void harness(void) {
  size_t n = sym_range(1, N);
  uint8_t *d = sym_block(n);
  size_t off = sym_range(0, n);
  pb_buffer_t b = ro_buffer(d, n);
  pb_stream_t s = pb_stream_create_at(&b, off);
  sym_check(pb_stream_left(&s) == n - off && pb_stream_offset(&s) == off && pb_stream_size(&s) == n, "a stream starts where asked");
  unsigned c = (unsigned)sym_range(0, 17 + 8);
  pb_error_t err; size_t want;
  if (c < 17) {
    pb_type_t t = (pb_type_t)(c + 1);
    uint64_t bits; size_t st;
    want = ref_read(t, d + off, n - off, &bits, &st);
    union { uint8_t u8; uint32_t u32; uint64_t u64; pb_string_t s; } v;
    memset(&v, 0, sizeof v);
    err = pb_stream_read(&s, t, &v);
    if (!err) {
      if (ref_wiretype(t) == 2) {
        sym_check(v.s.size == bits, "a length-prefixed value has the announced length");
        sym_check(v.s.data == d + off + st, "a length-prefixed value points into the input");
        sym_reach(1);
      } else {
        uint64_t got = ref_size(t) == 1 ? v.u8 : ref_size(t) == 4 ? v.u32 : v.u64;
        sym_check(got == bits, "a value read is what the bytes denote");
        sym_obs(got);
        sym_reach(2);
      }
    }
  } else if (c < 25) {
    want = ref_skip(c - 17, d + off, n - off);
    err = pb_stream_skip(&s, (pb_wiretype_t)(c - 17));
    if (!err) sym_reach(3);
  } else {
    uint64_t a = sym_u64();
    want = a <= n - off ? a : 0;
    err = pb_stream_advance(&s, a);
    sym_check(!err == (a <= n - off), "advancing fails exactly beyond the end");
    sym_check(pb_stream_offset(&s) == (err ? off : off + a), "advancing moves by the amount, or not at all");
    sym_obs(err); free(d);
    return;
  }
  sym_check(!err == (want != 0), "reading or skipping succeeds exactly if the value is complete");
  sym_check(pb_stream_offset(&s) == off + want, "success moves past the value, failure does not move");
  if (err) sym_reach(4);
  sym_obs(err); sym_obs(pb_stream_offset(&s));
  free(d);
}
