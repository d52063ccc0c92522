/* Varint packing and unpacking against base-128 arithmetic. */
#include "common.h"

static const pb_type_t types[] = { PB_TYPE_INT32, PB_TYPE_INT64, PB_TYPE_UINT32, PB_TYPE_UINT64,
                                   PB_TYPE_SINT32, PB_TYPE_SINT64, PB_TYPE_BOOL, PB_TYPE_ENUM };

static uint64_t scalar(const void *p, pb_type_t t) {
  switch (ref_size(t)) { case 1: return *(const uint8_t *)p; case 4: return *(const uint32_t *)p; default: return *(const uint64_t *)p; }
}

#ifdef ROUNDTRIP
void harness(void) {
  pb_type_t t = types[sym_range(0, COUNT(types) - 1)];
  size_t w = ref_size(t);
  void *v = malloc(w), *back = malloc(w);
  sym_bytes(v, w);
  uint64_t bits = scalar(v, t);
  uint8_t want[10]; size_t n = ref_put_varint(want, ref_to_wire(t, bits));
  sym_check(pb_varint_size(t, v) == n, "packed size is the length of the canonical encoding");
  uint8_t *d = malloc(n);                      /* exactly the announced space */
  size_t m = pb_varint_pack(t, d, v);
  sym_check(m == n, "packing reports the number of bytes it wrote");
  for (size_t i = 0; i < n; i++) sym_check(d[i] == want[i], "packed bytes are the canonical encoding");
  size_t extra = sym_range(0, 2);
  uint8_t *e = malloc(n + extra);
  memcpy(e, d, n);
  sym_bytes(e + n, extra);
  size_t k = pb_varint_unpack(t, e, n + extra, back);
  /* a packed varint at the very end of the input and one followed by more data */
  sym_check(k == n, "unpacking consumes exactly the packed bytes");
  sym_check(scalar(back, t) == bits, "unpacking restores the value");
  sym_check(pb_varint_scan(e, n + extra) == n, "scanning finds the end of a packed value");
  sym_reach((int)t); sym_reach(32 + (int)n);
  sym_obs(n); sym_obs(scalar(back, t));
  free(v); free(back); free(d); free(e);
}
#else
/* Arbitrary bytes */
void harness(void) {
  size_t left = sym_range(1, N);
  uint8_t *d = sym_block(left);
  unsigned c = (unsigned)sym_range(0, COUNT(types));
  if (c == COUNT(types)) {
    uint64_t x; size_t want = ref_varint(d, left, 10, &x);
    size_t got = pb_varint_scan(d, left);
    sym_check(got == want, "scan returns the position of the terminating byte, or nothing");
    sym_reach(got ? 1 : 2);
    sym_obs(got);
  } else {
    pb_type_t t = types[c];
    uint64_t bits; size_t want = ref_read_varint(t, d, left, &bits);
    void *v = malloc(ref_size(t));
    memset(v, 0, ref_size(t));
    size_t got = pb_varint_unpack(t, d, left, v);
    sym_check(got <= left, "unpacking never consumes more than there is");
    sym_check(got == want, "unpacking succeeds exactly on terminated encodings within the type's limit");
    if (got) { sym_check(scalar(v, t) == bits, "unpacked value is what the bytes denote"); sym_reach(3); sym_obs(bits); }
    else sym_reach(4);
    sym_obs(got);
    free(v);
  }
  free(d);
}
#endif
