/* The encoder against the reference wire format. */
#include "common.h"
#ifndef COUNT_MAX
#define COUNT_MAX 2
#endif
#define OUT 200
static uint8_t want[OUT]; static size_t nwant;

/* a descriptor with one field of any tag, type and label, and a fixed one */
static pb_field_descriptor_t *fd; static pb_descriptor_t *desc;
static void make(pb_tag_t tag, pb_type_t t, pb_label_t label, unsigned flags) {
  pb_field_descriptor_t a = { tag, "f", t, label, t == PB_TYPE_MESSAGE ? (void *)&d_leaf : t == PB_TYPE_ENUM ? (void *)&e_main : NULL, NULL, flags };
  fd = malloc(sizeof a); memcpy(fd, &a, sizeof a);
  pb_descriptor_t d = { { fd, 1 }, NULL };
  desc = malloc(sizeof d); memcpy(desc, &d, sizeof d);
}
typedef struct { union { uint32_t u32[3]; uint64_t u64[3]; uint8_t u8[3]; pb_string_t s[3]; pb_encoder_t e[3]; } v; uint64_t bits[3]; uint8_t text[3][3]; } vals;
static void fill(vals *x, pb_type_t t, size_t n) {
  memset(x, 0, sizeof *x);
  for (size_t i = 0; i < n; i++) switch (t) {
    case PB_TYPE_STRING: case PB_TYPE_BYTES:
      x->bits[i] = sym_range(0, 3); sym_bytes(x->text[i], x->bits[i]);
      x->v.s[i] = pb_string_init(x->text[i], x->bits[i]); break;
    case PB_TYPE_MESSAGE:
      x->v.e[i] = pb_encoder_create(&d_leaf);
      if ((x->bits[i] = sym_range(0, 1))) { uint32_t v = sym_u32(); sym_assume(v < 300); x->text[i][0] = 0x08; x->bits[i] = 1 + ref_put_varint(x->text[i] + 1, v);
        sym_check(pb_encoder_encode(&x->v.e[i], 1, &v, 1) == PB_ERROR_NONE, "encoding into a nested encoder succeeds"); }
      break;
    case PB_TYPE_BOOL: x->v.u8[i] = sym_u8(); x->bits[i] = x->v.u8[i]; break;
    default: if (ref_size(t) == 4) { x->v.u32[i] = sym_u32(); x->bits[i] = x->v.u32[i]; } else { x->v.u64[i] = sym_u64(); x->bits[i] = x->v.u64[i]; }
  }
}
static void done(vals *x, pb_type_t t, size_t n) { if (t == PB_TYPE_MESSAGE) for (size_t i = 0; i < n; i++) pb_encoder_destroy(&x->v.e[i]); }
static size_t ref_value(uint8_t *d, pb_type_t t, const vals *x, size_t i) {
  size_t n = 0;
  switch (ref_wiretype(t)) {
    case 0: return ref_put_varint(d, ref_to_wire(t, x->bits[i]));
    case 1: for (; n < 8; n++) d[n] = (uint8_t)(x->bits[i] >> (8 * n)); return 8;
    case 5: for (; n < 4; n++) d[n] = (uint8_t)(x->bits[i] >> (8 * n)); return 4;
    default: n = ref_put_varint(d, x->bits[i]); for (size_t k = 0; k < x->bits[i]; k++) d[n + k] = x->text[i][k]; return n + x->bits[i];
  }
}
/* several values of a packable field are written packed, everything else value by value */
static void ref_encode(const pb_field_descriptor_t *f, const vals *x, size_t n) {
  if (n > 1 && f->flags) {
    uint8_t tmp[40]; size_t k = 0;
    for (size_t i = 0; i < n; i++) k += ref_value(tmp + k, f->type, x, i);
    nwant += ref_put_varint(want + nwant, (f->tag << 3) | 2);
    nwant += ref_put_varint(want + nwant, k);
    for (size_t i = 0; i < k; i++) want[nwant++] = tmp[i];
  } else for (size_t i = 0; i < n; i++) {
    nwant += ref_put_varint(want + nwant, (f->tag << 3) | ref_wiretype(f->type));
    nwant += ref_value(want + nwant, f->type, x, i);
  }
}
static void same(const pb_encoder_t *e) {
  const pb_buffer_t *b = pb_encoder_buffer(e);
  sym_check(pb_buffer_size(b) == nwant, "the output has the size the wire format calls for");
  uint8_t diff = 0;
  for (size_t i = 0; i < nwant; i++) diff |= pb_buffer_data(b)[i] ^ want[i];
  sym_check(!diff, "the output is what the wire format calls for");
  sym_obs(nwant);
}
static pb_type_t any_type(void) { return (pb_type_t)sym_range(PB_TYPE_INT32, PB_TYPE_MESSAGE); }

#ifdef E_WIRE
void harness(void) {
  vals x;
  if (sym_range(0, 1)) {                     /* any tag, one value */
    pb_tag_t tag = sym_u32(); sym_assume(tag >= 1 && tag < (1u << 29));
    pb_type_t t = any_type();
    make(tag, t, PB_LABEL_OPTIONAL, 0);
    pb_encoder_t e = pb_encoder_create(desc);
    fill(&x, t, 1);
    sym_check(pb_encoder_encode(&e, tag, &x.v, 1) == PB_ERROR_NONE, "encoding a value succeeds");
    ref_encode(fd, &x, 1);
    same(&e); done(&x, t, 1);
    pb_encoder_destroy(&e);
    sym_reach(1);
  } else {                                   /* several values, twice */
    pb_type_t t = any_type();
    size_t n = sym_range(1, COUNT_MAX);
    unsigned packed = ref_wiretype(t) != 2 && sym_range(0, 1);
    make(sym_range(0, 1) ? 3 : 300, t, PB_LABEL_REPEATED, packed ? PB_FLAG_PACKED : 0);
    pb_encoder_t e = pb_encoder_create(desc);
    fill(&x, t, n);
    sym_check(pb_encoder_encode(&e, fd->tag, &x.v, n) == PB_ERROR_NONE, "encoding several values succeeds");
    ref_encode(fd, &x, n);
    same(&e);
    sym_check(pb_encoder_encode(&e, fd->tag, &x.v, 1) == PB_ERROR_NONE, "encoding a further value succeeds");
    ref_encode(fd, &x, 1);
    same(&e); done(&x, t, n);
    pb_encoder_destroy(&e);
    sym_reach(packed ? 2 : 3);
  }
  free(fd); free(desc);
  sym_check(sym_heap_live() == 0, "nothing is leaked");
}
#endif
#ifdef E_ROUND
/* what is encoded is decoded again: fields of one message in any order */
#define K ROUNDS
static vals X[K]; static const pb_field_descriptor_t *Fd[K]; static size_t Nv[K]; static size_t at, idx;
static pb_error_t sub(const pb_field_descriptor_t *f, const void *value, void *user) {
  vals *x = ((vals **)user)[0]; size_t i = *((size_t **)user)[1];
  uint8_t tmp[6] = { 0x08 };
  uint32_t v; memcpy(&v, value, 4);
  sym_check(f->tag == 1 && 1 + ref_put_varint(tmp + 1, v) == x->bits[i], "a submessage decodes to what was encoded");
  for (size_t k = 0; k < x->bits[i]; k++) sym_check(tmp[k] == x->text[i][k], "a submessage decodes to what was encoded");
  sym_reach(2);
  return PB_ERROR_NONE;
}
static pb_error_t on(const pb_field_descriptor_t *f, const void *value, void *user) {
  (void)user;
  while (at < ROUNDS && idx == Nv[at]) { at++; idx = 0; }
  sym_check(at < ROUNDS && f == Fd[at], "values are decoded in the order of encoding");
  vals *x = &X[at]; uint64_t bits = 0;
  if (f->type == PB_TYPE_MESSAGE) {
    void *u[2] = { x, &idx };
    sym_check(pb_decoder_decode(value, sub, u) == PB_ERROR_NONE, "an encoded submessage can be decoded");
  } else if (ref_wiretype(f->type) == 2) {
    pb_string_t s; memcpy(&s, value, sizeof s);
    sym_check(s.size == x->bits[idx], "a decoded string is the encoded one");
    for (size_t k = 0; k < s.size; k++) sym_check(s.data[k] == x->text[idx][k], "a decoded string is the encoded one");
  } else {
    memcpy(&bits, value, ref_size(f->type));
    sym_check(bits == x->bits[idx], "a decoded value is the encoded one");
  }
  idx++;
  sym_reach(f->label == PB_LABEL_REPEATED ? f->flags ? 3 : 4 : 5);
  return PB_ERROR_NONE;
}
void harness(void) {
  pb_encoder_t e = pb_encoder_create(&d_main);
  for (int k = 0; k < ROUNDS; k++) {
    const pb_field_descriptor_t *f = Fd[k] = &d_main.field.data[sym_range(0, d_main.field.size - 1)];
    Nv[k] = f->label == PB_LABEL_REPEATED ? sym_range(1, COUNT_MAX) : 1;
    if (f->type == PB_TYPE_MESSAGE && f->refer == &d_in) { /* same beginning as d_leaf: tag 1 */
      vals *x = &X[k]; memset(x, 0, sizeof *x);
      x->v.e[0] = pb_encoder_create(&d_in);
      uint32_t v = sym_u32(); sym_assume(v < 300); x->text[0][0] = 0x08; x->bits[0] = 1 + ref_put_varint(x->text[0] + 1, v);
      sym_check(pb_encoder_encode(&x->v.e[0], 1, &v, 1) == PB_ERROR_NONE, "encoding into a nested encoder succeeds");
    } else fill(&X[k], f->type, Nv[k]);
    sym_check(pb_encoder_encode(&e, f->tag, &X[k].v, Nv[k]) == PB_ERROR_NONE, "encoding succeeds");
  }
  pb_decoder_t d = pb_decoder_create(&d_main, pb_encoder_buffer(&e));
  sym_check(pb_decoder_decode(&d, on, NULL) == PB_ERROR_NONE, "what was encoded can be decoded");
  while (at < ROUNDS && idx == Nv[at]) { at++; idx = 0; }
  sym_check(at == ROUNDS, "every encoded value is decoded");
  pb_decoder_destroy(&d);
  for (int k = 0; k < ROUNDS; k++) done(&X[k], Fd[k]->type, Nv[k]);
  pb_encoder_destroy(&e);
  sym_check(sym_heap_live() == 0, "nothing is leaked");
  sym_reach(1);
}
#endif
#ifdef E_FAIL
/* a failed allocation leaves the encoder as it was */
void harness(void) {
  vals x; ACCT(a);
  pb_encoder_t e = pb_encoder_create_with_allocator(&a_alloc, &d_main);
  static const pb_tag_t tags[] = { 1, 2, 3, 4, 5, 6, 10, 11, 12, 14, 15 };
  const pb_field_descriptor_t *first = ref_field(&d_main, tags[sym_range(0, 1)]), *f = ref_field(&d_main, tags[sym_range(0, COUNT(tags) - 1)]);
  fill(&x, first->type, 1);
  sym_check(pb_encoder_encode(&e, first->tag, &x.v, 1) == PB_ERROR_NONE, "encoding succeeds");
  ref_encode(first, &x, 1);
  same(&e);
  size_t n = f->label == PB_LABEL_REPEATED ? sym_range(1, 3) : 1;
  memset(&x, 0, sizeof x);
  if (f->type == PB_TYPE_MESSAGE && f->refer == &d_in) { x.v.e[0] = pb_encoder_create(&d_in); uint32_t v = 9; pb_encoder_encode(&x.v.e[0], 1, &v, 1); x.bits[0] = 2; x.text[0][0] = 8; x.text[0][1] = 9; }
  else { fill(&x, f->type, n); if (f->type == PB_TYPE_UINT32) for (size_t i = 1; i < n; i++) sym_assume(x.v.u32[i] < 128); }
  a.fail_at = a.calls + (long)sym_range(0, 7); 
  pb_error_t err = pb_encoder_encode(&e, f->tag, &x.v, n);
  if (a.fail_at < a.calls) { sym_check(err == PB_ERROR_ALLOC, "a failed allocation is reported"); sym_reach(1); }
  else { sym_check(err == PB_ERROR_NONE, "without failed allocation, encoding succeeds"); ref_encode(f, &x, n); sym_reach(2); }
  same(&e);
  sym_check(pb_encoder_valid(&e), "the encoder remains usable");
  a.fail_at = -1;
  sym_check(pb_encoder_encode(&e, f->tag, &x.v, n) == PB_ERROR_NONE, "encoding succeeds again");
  ref_encode(f, &x, n);
  same(&e); done(&x, f->type, n);
  pb_encoder_destroy(&e);
  sym_check(a.live == 0, "nothing is leaked");
  sym_check(sym_heap_live() == 0, "only the given allocator is used");
}
#endif
#ifdef E_LARGE
/* lengths around the sizes at which their prefix grows, and many values */
static uint8_t *big, *ref;
static void large_string(void) {
  static const size_t sizes[] = { 127, 128, 255, 256, 16383, 16384, 65535, 65536, 70000 };
  size_t n = sizes[sym_range(0, COUNT(sizes) - 1)];
  int kind = (int)sym_range(0, 2);
  big = calloc(1, n);
  big[0] = sym_u8(); big[n / 2] = sym_u8(); big[n - 1] = sym_u8();
  pb_string_t s = pb_string_init(big, n);
  pb_type_t t = kind == 0 ? PB_TYPE_STRING : kind == 1 ? PB_TYPE_BYTES : PB_TYPE_MESSAGE;
  make(kind == 2 ? 1 : 5, t, PB_LABEL_OPTIONAL, 0);
  pb_encoder_t e = pb_encoder_create(desc), in = pb_encoder_create_with_allocator(&allocator_default, desc);
  if (kind == 2) {                            /* a submessage of n bytes */
    uint8_t *p = pb_buffer_grow((pb_buffer_t *)pb_encoder_buffer(&in), n);
    memcpy(p, big, n);
    sym_check(pb_encoder_encode(&e, 1, &in, 1) == PB_ERROR_NONE, "encoding a large submessage succeeds");
  } else
    sym_check(pb_encoder_encode(&e, 5, &s, 1) == PB_ERROR_NONE, "encoding a large string succeeds");
  ref = calloc(1, n + 8);
  size_t k = ref_put_varint(ref, fd->tag << 3 | 2);
  k += ref_put_varint(ref + k, n);
  const pb_buffer_t *b = pb_encoder_buffer(&e);
  sym_check(pb_buffer_size(b) == k + n, "the output has the size the wire format calls for");
  uint8_t diff = 0;
  for (size_t i = 0; i < k; i++) diff |= pb_buffer_data(b)[i] ^ ref[i];
  sym_check(!diff, "the output starts with key and length");
  sym_check(!memcmp(pb_buffer_data(b) + k, big, n), "the output ends with the contents");
  pb_encoder_destroy(&e); pb_encoder_destroy(&in);
  sym_reach(1);
}
static void large_packed(void) {
  static const struct { pb_type_t t; size_t n; int w; } cases[] = {
    { PB_TYPE_BOOL, 127, 1 }, { PB_TYPE_BOOL, 128, 1 }, { PB_TYPE_FIXED32, 31, 4 }, { PB_TYPE_FIXED32, 32, 4 }, { PB_TYPE_DOUBLE, 15, 8 }, { PB_TYPE_DOUBLE, 16, 8 },
    { PB_TYPE_INT64, 12, 10 }, { PB_TYPE_INT64, 13, 10 }, { PB_TYPE_ENUM, 127, 1 }, { PB_TYPE_ENUM, 128, 1 }, { PB_TYPE_UINT32, 63, 2 }, { PB_TYPE_UINT32, 64, 2 },
    { PB_TYPE_SINT32, 40, 5 }, { PB_TYPE_INT32, 13, 10 }, { PB_TYPE_BOOL, 255, 1 }, { PB_TYPE_BOOL, 256, 1 }, { PB_TYPE_FIXED64, 2047, 8 }, { PB_TYPE_FIXED64, 2048, 8 } };
  size_t c = sym_range(0, COUNT(cases) - 1), n = cases[c].n, size = ref_size(cases[c].t);
  int w = cases[c].w, packed = (int)sym_range(0, 1);
  make(packed ? 7 : 2000, cases[c].t, PB_LABEL_REPEATED, packed ? PB_FLAG_PACKED : 0);
  big = calloc(n, size); ref = calloc(n, 16);
  /* values of w bytes each, the last and the middle one anything of that size */
  size_t key = ref_put_varint(ref, fd->tag << 3 | (packed ? 2 : ref_wiretype(cases[c].t))), k = key, len = n * w;
  uint64_t any[2];
  for (int i = 0; i < 2; i++) {
    switch (w) {
      case 10: any[i] = sym_u64(); if (size == 4) { any[i] = (uint32_t)any[i]; sym_assume(any[i] >> 31); } else sym_assume(any[i] >> 63); break;
      case 2: any[i] = sym_u32(); sym_assume(any[i] >= 128 && any[i] < 16384); break;
      case 5: any[i] = sym_u32(); sym_assume((uint32_t)((any[i] << 1) ^ (uint32_t)-(int32_t)(any[i] >> 31)) >> 28); break;
      case 1: if (cases[c].t == PB_TYPE_BOOL) { any[i] = sym_u8(); if (any[i] >= 128) len++; } else any[i] = sym_range(0, 1); break;
      default: any[i] = sym_u64(); if (size == 4) any[i] = (uint32_t)any[i]; break;
    }
  }
  if (packed) k += ref_put_varint(ref + k, len);
  for (size_t i = 0; i < n; i++) {
    uint64_t bits = i == n - 1 ? any[0] : i == n / 2 ? any[1] : w == 10 ? ~0ull - i : w == 2 ? 128 + i : w == 5 ? 0x80000000u - i : w == 1 ? i % 2 : i * 77;
    if (size == 4) bits = (uint32_t)bits;
    memcpy(big + i * size, &bits, size);
    if (!packed && i) { memcpy(ref + k, ref, key); k += key; }
    if (ref_wiretype(cases[c].t) == 0) {
      uint64_t v = ref_to_wire(cases[c].t, bits);
      int b = w == 1 && v >= 128 ? 2 : w;
      for (int j = 0; j < b; j++) ref[k++] = (uint8_t)(v >> (7 * j) & 0x7f) | (j + 1 < b ? 0x80 : 0);
    } else { memcpy(ref + k, &bits, size); k += size; }
  }
  pb_encoder_t e = pb_encoder_create(desc);
  sym_check(pb_encoder_encode(&e, fd->tag, big, n) == PB_ERROR_NONE, "encoding many values succeeds");
  const pb_buffer_t *b = pb_encoder_buffer(&e);
  sym_check(pb_buffer_size(b) == k, "the output has the size the wire format calls for");
  sym_check(!memcmp(pb_buffer_data(b), ref, k), "the output is what the wire format calls for");
  pb_encoder_destroy(&e);
  sym_reach(packed ? 2 : 3);
}
void harness(void) {
  if (sym_range(0, 1)) large_string(); else large_packed();
  free(big); free(ref); free(fd); free(desc);
  sym_check(sym_heap_live() == 0, "nothing is leaked");
}
#endif
