/* Shared by the harnesses: schemas, reference wire format, allocators. The
 * reference functions are written from the wire format, not from the library. */
#ifndef COMMON_H
#define COMMON_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <protobluff/descriptor.h>
#include <protobluff.h>
#include "core/buffer.h"
#include "core/decoder.h"
#include "core/descriptor.h"
#include "core/encoder.h"
#include "core/stream.h"
#include "core/varint.h"
#include "message/buffer.h"
#include "message/cursor.h"
#include "message/field.h"
#include "message/journal.h"
#include "message/message.h"
#include "message/nested.h"
#include "message/oneof.h"
#include "message/part.h"
#include "util/validator.h"
#include "util/chunk_allocator.h"
#include "sym.h"

#ifndef N
#define N 6
#endif
#define COUNT(a) (sizeof(a) / sizeof(*(a)))

/* ---------------------------------------------------------------- schemas */
extern pb_descriptor_t d_leaf, d_in, d_main;
extern const pb_oneof_descriptor_t o_main;
extern const pb_enum_descriptor_t e_main;

/* ---------------------------------------------------------------- reference */
/* Base-128: returns the number of bytes up to and including the terminator
 * (0 if there is none within min(left, max)), and the value modulo 2^64. */
static inline size_t ref_varint(const uint8_t *d, size_t left, size_t max, uint64_t *v) {
  uint64_t r = 0;
  for (size_t i = 0; i < left && i < max; i++) {
    r |= i < 10 ? (uint64_t)(d[i] & 0x7f) << (7 * i) : 0;
    if (!(d[i] & 0x80)) { *v = r; return i + 1; }
  }
  *v = 0;
  return 0;
}
static inline size_t ref_put_varint(uint8_t *d, uint64_t v) {
  size_t n = 0;
  while (v >= 0x80) { d[n++] = (uint8_t)v | 0x80; v >>= 7; }
  d[n++] = (uint8_t)v;
  return n;
}
static inline unsigned ref_wiretype(pb_type_t t) {
  switch (t) {
    case PB_TYPE_FIXED32: case PB_TYPE_SFIXED32: case PB_TYPE_FLOAT: return 5;
    case PB_TYPE_FIXED64: case PB_TYPE_SFIXED64: case PB_TYPE_DOUBLE: return 1;
    case PB_TYPE_STRING: case PB_TYPE_BYTES: case PB_TYPE_MESSAGE: return 2;
    default: return 0;
  }
}
/* Size of a value in memory (scalars only) */
static inline size_t ref_size(pb_type_t t) {
  switch (t) {
    case PB_TYPE_BOOL: return 1;
    case PB_TYPE_INT64: case PB_TYPE_UINT64: case PB_TYPE_SINT64:
    case PB_TYPE_FIXED64: case PB_TYPE_SFIXED64: case PB_TYPE_DOUBLE: return 8;
    default: return 4;
  }
}
/* The 64-bit varint that denotes the scalar `bits` (as stored in memory,
 * zero-extended) of a varint type. */
static inline uint64_t ref_to_wire(pb_type_t t, uint64_t bits) {
  switch (t) {
    case PB_TYPE_INT32: case PB_TYPE_ENUM: return (uint64_t)(int64_t)(int32_t)(uint32_t)bits;
    case PB_TYPE_SINT32: { uint32_t x = (uint32_t)bits; return (x << 1) ^ (uint32_t)((int32_t)x >> 31); }
    case PB_TYPE_SINT64: return (bits << 1) ^ (uint64_t)((int64_t)bits >> 63);
    default: return bits;
  }
}
/* The scalar a varint denotes (as stored in memory, zero-extended). */
static inline uint64_t ref_from_wire(pb_type_t t, uint64_t w) {
  switch (t) {
    case PB_TYPE_INT32: case PB_TYPE_ENUM: case PB_TYPE_UINT32: return (uint32_t)w;
    case PB_TYPE_SINT32: { uint32_t x = (uint32_t)w; return (x >> 1) ^ -(x & 1); }
    case PB_TYPE_SINT64: return (w >> 1) ^ -(w & 1);
    case PB_TYPE_BOOL: return (uint8_t)w;
    default: return w;
  }
}
/* How many bytes a reader of the type accepts at most; the library's documented
 * limits: 32-bit varints end within five bytes (a negative int32 is exactly ten
 * bytes), booleans within two, 64-bit ones within ten. */
static inline size_t ref_read_varint(pb_type_t t, const uint8_t *d, size_t left, uint64_t *bits) {
  uint64_t w = 0; size_t n = ref_varint(d, left, 10, &w);
  *bits = ref_from_wire(t, w);
  if (!n) return 0;
  switch (t) {
    case PB_TYPE_UINT32: case PB_TYPE_SINT32: return n <= 5 ? n : 0;
    case PB_TYPE_INT32: case PB_TYPE_ENUM: return n <= 5 || (n == 10 && d[5] == 0xff) ? n : 0;
    case PB_TYPE_BOOL: return n <= 2 ? n : 0;
    default: return n;
  }
}
static inline uint64_t ref_le(const uint8_t *d, unsigned n) {
  uint64_t v = 0;
  for (unsigned i = 0; i < n; i++) v |= (uint64_t)d[i] << (8 * i);
  return v;
}
/* Read one value of a scalar or length-prefixed type at d. For the latter the
 * payload is d[*start .. *start + *bits). Returns bytes consumed, 0: malformed. */
static inline size_t ref_read(pb_type_t t, const uint8_t *d, size_t left, uint64_t *bits, size_t *start) {
  *bits = 0; *start = 0;
  switch (ref_wiretype(t)) {
    case 0: return ref_read_varint(t, d, left, bits);
    case 1: if (left < 8) return 0; *bits = ref_le(d, 8); return 8;
    case 5: if (left < 4) return 0; *bits = ref_le(d, 4); return 4;
    default: {
      uint64_t n; size_t k = ref_varint(d, left, 5, &n); n = (uint32_t)n;
      if (!k || n > left - k) return 0;
      *bits = n; *start = k; return k + n; }
  }
}
static inline size_t ref_skip(unsigned wt, const uint8_t *d, size_t left) {
  uint64_t v; size_t k;
  switch (wt) {
    case 0: return ref_varint(d, left, 10, &v);
    case 1: return left < 8 ? 0 : 8;
    case 5: return left < 4 ? 0 : 4;
    case 2: k = ref_varint(d, left, 5, &v); v = (uint32_t)v; return !k || v > left - k ? 0 : k + v;
    default: return 0;
  }
}
/* The descriptor entry of a tag, by linear search, extensions included. */
static inline const pb_field_descriptor_t *ref_field(const pb_descriptor_t *d, pb_tag_t tag) {
  for (; d; d = d->extension)
    for (size_t i = 0; i < d->field.size; i++)
      if (d->field.data[i].tag == tag) return &d->field.data[i];
  return NULL;
}

/* One step of the reference decoder over d[*p..n). Yields the occurrences of
 * one record. */
#define REF_EVENTS 24
typedef struct { const pb_field_descriptor_t *f; uint64_t bits; size_t start; size_t rec; } ref_event;
typedef struct { ref_event e[REF_EVENTS]; size_t n; int ok; int overflow; } ref_result;

static inline void ref_add(ref_result *r, const pb_field_descriptor_t *f, uint64_t bits, size_t start, size_t rec) {
  if (r->n < REF_EVENTS) { ref_event e = { f, bits, start, rec }; r->e[r->n] = e; }
  else r->overflow = 1;
  r->n++;
}
/* Reference decoding of a whole buffer: events up to the first malformed
 * place; ok iff there is none. */
static inline void ref_decode(const pb_descriptor_t *desc, const uint8_t *d, size_t n, ref_result *r) {
  r->n = 0; r->ok = 1; r->overflow = 0;
  size_t p = 0, s;
  while (p < n) {
    uint64_t key, bits; size_t rec = p;
    size_t k = ref_varint(d + p, n - p, 5, &key); key = (uint32_t)key;
    if (!k) { r->ok = 0; return; }
    p += k;
    unsigned wt = key & 7;
    const pb_field_descriptor_t *f = ref_field(desc, (pb_tag_t)(key >> 3));
    if (f && wt == ref_wiretype(f->type)) {
      k = ref_read(f->type, d + p, n - p, &bits, &s);
      if (!k) { r->ok = 0; return; }
      ref_add(r, f, bits, p + s, rec);
      p += k;
    } else if (f && wt == 2) {                     /* packed */
      uint64_t len; k = ref_varint(d + p, n - p, 5, &len); len = (uint32_t)len;
      if (!k || len > n - p - k) { r->ok = 0; return; }
      p += k;
      size_t end = p + len;
      while (p < end) {
        k = ref_read(f->type, d + p, end - p, &bits, &s);
        if (!k) { r->ok = 0; return; }
        ref_add(r, f, bits, p, rec);
        p += k;
      }
    } else {
      k = ref_skip(wt, d + p, n - p);
      if (!k) { r->ok = 0; return; }
      p += k;
    }
  }
}

/* ---------------------------------------------------------------- allocator */
typedef struct { long fail_at; long calls; long live; } acct_t;
static inline int acct_fails(acct_t *a) { return a->calls++ == a->fail_at; }
static void *acct_allocate(void *data, size_t n) {
  acct_t *a = data; if (acct_fails(a)) return NULL;
  void *p = malloc(n); if (p) a->live++; return p;
}
static void *acct_resize(void *data, void *b, size_t n) {
  acct_t *a = data; if (acct_fails(a)) return NULL;
  void *p = realloc(b, n); if (p && !b) a->live++; return p;
}
static void acct_free(void *data, void *b) { acct_t *a = data; if (b) a->live--; free(b); }
#define ACCT(name) acct_t name = { -1, 0, 0 }; \
  pb_allocator_t name##_alloc = { { acct_allocate, acct_resize, acct_free }, &name }

/* n symbolic bytes in an exactly sized heap block */
static inline uint8_t *sym_block(size_t n) {
  uint8_t *p = malloc(n);
  sym_bytes(p, n);
  return p;
}
static inline pb_buffer_t ro_buffer(uint8_t *d, size_t n) {
  return pb_buffer_create_zero_copy(d, n);
}
#endif
