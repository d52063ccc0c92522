/* The validator against a reference: well-formed, and complete at every level. */
#include "common.h"
#ifndef NEST
#define NEST 3
#endif
extern pb_descriptor_t v_main, v_sub, v_leaf;
static const pb_field_descriptor_t fl[] = { { 1, "r", UINT32, REQUIRED }, { 2, "o", FIXED32, OPTIONAL } };
pb_descriptor_t v_leaf = { { fl, 2 } };
static const pb_field_descriptor_t fs[] = { { 1, "r", BOOL, REQUIRED }, { 2, "l", MESSAGE, REQUIRED, &v_leaf }, { 3, "p", SINT32, REPEATED, NULL, NULL, PACKED } };
pb_descriptor_t v_sub = { { fs, 3 } };
static const pb_field_descriptor_t fm[] = {
  { 1, "a", UINT32, REQUIRED }, { 2, "b", STRING, OPTIONAL }, { 3, "s", MESSAGE, OPTIONAL, &v_sub }, { 5, "d", DOUBLE, REQUIRED },
  { 6, "l", MESSAGE, REPEATED, &v_leaf } };
pb_descriptor_t v_main = { { fm, 5 } };
static const pb_field_descriptor_t fx[] = { { 10, "x", UINT32, OPTIONAL }, { 11, "y", MESSAGE, OPTIONAL, &v_leaf }, { 12, "z", UINT32, REPEATED } };
static pb_descriptor_t v_ext = { { fx, 3 } };
static const pb_field_descriptor_t fy[] = { { 15, "w", FIXED32, OPTIONAL }, { 16, "v", UINT64, OPTIONAL } };
static pb_descriptor_t v_ext2 = { { fy, 2 } };

enum { OK, MALFORMED, INCOMPLETE };
static int ref_valid(const pb_descriptor_t *desc, const uint8_t *d, size_t n) {
  size_t p = 0, s, k; uint32_t seen = 0;
  while (p < n) {
    uint64_t key, bits;
    k = ref_varint(d + p, n - p, 5, &key); key = (uint32_t)key;
    if (!k) return MALFORMED;
    p += k;
    unsigned wt = key & 7;
    const pb_field_descriptor_t *f = ref_field(desc, (pb_tag_t)(key >> 3));
    if (f && wt == ref_wiretype(f->type)) {
      k = ref_read(f->type, d + p, n - p, &bits, &s);
      if (!k) return MALFORMED;
      seen |= 1u << f->tag;
      if (f->type == PB_TYPE_MESSAGE) { int r = ref_valid(f->refer, d + p + s, bits); if (r) return r; }
      p += k;
    } else if (f && wt == 2) {
      uint64_t len; k = ref_varint(d + p, n - p, 5, &len); len = (uint32_t)len;
      if (!k || len > n - p - k) return MALFORMED;
      p += k;
      for (size_t end = p + len; p < end; p += k) {
        k = ref_read(f->type, d + p, end - p, &bits, &s);
        if (!k) return MALFORMED;
        seen |= 1u << f->tag;
      }
    } else {
      k = ref_skip(wt, d + p, n - p);
      if (!k) return MALFORMED;
      p += k;
    }
  }
  for (size_t i = 0; i < desc->field.size; i++)
    if (desc->field.data[i].label == PB_LABEL_REQUIRED && !(seen & (1u << desc->field.data[i].tag))) return INCOMPLETE;
  return OK;
}
#define DBL 0x29, 1, 2, 3, 4, 5, 6, 7, 8
#define LEAF 0x08, 5
static const uint8_t p1[] = { 0x08, 1, DBL };                                 /* complete */
static const uint8_t p2[] = { 0x08, 1 };
static const uint8_t p3[] = { DBL, 0x1a, 4, 0x12, 2, LEAF, 0x08, 2 };          /* submessage without its required field */
static const uint8_t p4[] = { 0x08, 1, DBL, 0x1a, N };                        /* submessage of exactly the symbolic bytes */
static const uint8_t p5[] = { 0x08, 1, DBL, 0x1a, N + 2, 0x08, 1 };           /* ... behind one of its required fields */
static const uint8_t p6[] = { 0x08, 1, DBL, 0x1a, N + 4, 0x12, 2, LEAF };
static const uint8_t p7[] = { 0x08, 1, DBL, 0x1a, N + 4, 0x08, 1, 0x12, N };  /* innermost */
static const uint8_t p8[] = { 0x08, 1, DBL, 0x32, 2, LEAF, 0x32, N };         /* second occurrence of a repeated submessage */
static const uint8_t p9[] = { 0x12, 0, 0x1a, 6, 0x08, 1, 0x12, 2, LEAF, 0x32, 2, LEAF, 0x50, 1, 0x5a, 2, LEAF, 0x60, 1, 0x62, 1, 7, 0x7d, 1, 2, 3, 4, 0x80, 1, 9, 0x98, 6, 1, 0x08, 1, DBL }; /* every field, extensions too */
static const uint8_t p10[] = { 0x08, 1, DBL, 0x5a, N };                       /* submessage of an extension */
static const uint8_t p11[] = { 0x0a, N };                                     /* required field in packed encoding */
static const uint8_t p12[] = { 0x08, 1, DBL, 0x1a, N + 8, 0x08, 1, 0x12, 2, LEAF, 0x1a, N }; /* packed field inside */
static const uint8_t p13[] = { 0x08, 1, DBL, 0x12, 0xff, 0xff, 0xff };        /* lengths of up to 2^32 - 1 */
static const uint8_t p14[] = { 0x08, 1, DBL, 0x1a, 0xff, 0xff, 0xff };
static const uint8_t p15[] = { 0x08, 1, DBL, 0x9a, 0x06, 0xff, 0xff, 0xff };
static const uint8_t p16[] = { 0x08, 1, DBL, 0x1a, N + 8, 0x08, 1, 0x12, 2, LEAF, 0x1a, 0xff };
static const uint8_t p17[] = { 0x08, 1, DBL, 0x32, 1 };                       /* a submessage of one byte, more behind it */
static const uint8_t p18[] = { DBL, 0x88, 0x80, 0x80 };                       /* a key of four or five bytes */
static const struct { const uint8_t *d; size_t n; } pre[] = { { 0, 0 }, { p1, sizeof p1 }, { p2, sizeof p2 }, { p3, sizeof p3 }, { p4, sizeof p4 }, { p5, sizeof p5 }, { p6, sizeof p6 },
  { p7, sizeof p7 }, { p8, sizeof p8 }, { p9, sizeof p9 }, { p10, sizeof p10 }, { p11, sizeof p11 }, { p12, sizeof p12 }, { p13, sizeof p13 }, { p14, sizeof p14 }, { p15, sizeof p15 }, { p16, sizeof p16 }, { p17, sizeof p17 }, { p18, sizeof p18 } };
void harness(void) {
  size_t w = sym_range(0, COUNT(pre) - 1);
  int ext = w == 0 || w == 9 || w == 10 ? (int)sym_range(0, 2) : 0;
  if (ext) pb_descriptor_extend(&v_main, &v_ext);
  if (ext == 2) pb_descriptor_extend(&v_main, &v_ext2);
  size_t n = sym_range(0, N); sym_assume(n + pre[w].n > 0);
  static const uint8_t tail[] = { 0x08, 1, DBL };
  int t = w == 0 || w == 2 || w == 3 || w == 9 || w == 11 ? (int)sym_range(0, 1) : 0;           /* something complete behind */
  size_t total = pre[w].n + n + (t ? sizeof tail : 0);
  uint8_t *b = malloc(total);
  if (pre[w].n) memcpy(b, pre[w].d, pre[w].n);
  sym_bytes(b + pre[w].n, n);
  if (t) memcpy(b + pre[w].n + n, tail, sizeof tail);
  pb_buffer_t buffer = ro_buffer(b, total);
  pb_validator_t v = pb_validator_create(&v_main);
  pb_error_t e = pb_validator_check(&v, &buffer);
  int r = ref_valid(&v_main, b, total);
  sym_check((e == PB_ERROR_NONE) == (r == OK), "a buffer is valid exactly if it is well-formed and complete");
  sym_check((e == PB_ERROR_ABSENT) == (r == INCOMPLETE), "an incomplete message is reported as such");
  sym_check(r != MALFORMED || e == PB_ERROR_INVALID || e == PB_ERROR_VARINT || e == PB_ERROR_OFFSET, "a malformed message is reported as such");
  sym_check(pb_validator_check(&v, &buffer) == e, "validation can be repeated");
  sym_reach(r + 1); if (ext) sym_reach(4 + ext);
  sym_obs(e);
  pb_validator_destroy(&v); pb_buffer_destroy(&buffer); free(b);
  sym_check(sym_heap_live() == 0, "nothing is leaked");
}
