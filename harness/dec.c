/* The decoder against the reference decoder: events, errors, handler errors,
 * stack use; over arbitrary bytes. */
#include "common.h"

static const uint8_t *base; static size_t size;
#ifndef LIMIT
#define LIMIT 16
#endif
#define DEPTH 3
typedef struct { const pb_field_descriptor_t *f; uint64_t bits; size_t start; int depth; } ev;
static ev got[LIMIT], want[LIMIT]; static size_t ngot, nwant; static int depth;
static long stop_at = -1; static pb_error_t stop_with; static int stopped;
static size_t sp_first, sp_last;

static pb_error_t on(const pb_field_descriptor_t *f, const void *value, void *user) {
  sym_check(user == (void *)&size, "the handler receives the user data");
  sym_check(!stopped, "no handler call after a handler reported an error");
  ev e = { f, 0, 0, depth };
  size_t sp = sym_stack_used(); if (!ngot) sp_first = sp; sp_last = sp;
  const pb_decoder_t *sub = NULL; pb_string_t s;
  switch (pb_field_descriptor_type(f)) {
    case PB_TYPE_MESSAGE: sub = value;
      sym_check(pb_decoder_valid(sub), "a nested decoder is valid");
      sym_check(pb_decoder_descriptor(sub) == pb_field_descriptor_nested(f), "a nested decoder has the descriptor of the submessage");
      s = pb_string_init((uint8_t *)pb_buffer_data(pb_decoder_buffer(sub)), pb_buffer_size(pb_decoder_buffer(sub)));
      goto range;
    case PB_TYPE_STRING: case PB_TYPE_BYTES: memcpy(&s, value, sizeof s);
    range:
      sym_check(s.data >= base && s.data + s.size <= base + size, "a decoded string lies within the buffer");
      e.bits = s.size; e.start = (size_t)(s.data - base); break;
    default: memcpy(&e.bits, value, ref_size(pb_field_descriptor_type(f)));
  }
  if (ngot < LIMIT) got[ngot] = e;
  ngot++;
  if ((long)ngot - 1 == stop_at) { stopped = 1; return stop_with; }
  if (sub && depth < DEPTH) {
    depth++;
    pb_error_t r = pb_decoder_decode(sub, on, user);
    depth--;
    return r;
  }
  return PB_ERROR_NONE;
}
/* the reference: recursive, in the same order */
static int ref_all(const pb_descriptor_t *desc, const uint8_t *d, size_t n, int dp) {
  size_t p = 0, s, k;
  while (p < n) {
    uint64_t key, bits;
    k = ref_varint(d + p, n - p, 5, &key); key = (uint32_t)key;
    if (!k) return 0;
    p += k;
    unsigned wt = key & 7;
    const pb_field_descriptor_t *f = ref_field(desc, (pb_tag_t)(key >> 3));
    if (f && wt == ref_wiretype(f->type)) {
      k = ref_read(f->type, d + p, n - p, &bits, &s);
      if (!k) return 0;
      ev e = { f, bits, wt == 2 ? (size_t)(d + p + s - base) : 0, dp };
      if (nwant < LIMIT) want[nwant] = e;
      nwant++;
      if ((long)nwant - 1 == stop_at) return 0;
      if (f->type == PB_TYPE_MESSAGE && dp < DEPTH && !ref_all(f->refer, d + p + s, bits, dp + 1)) return 0;
      p += k;
    } else if (f && wt == 2) {
      uint64_t len; k = ref_varint(d + p, n - p, 5, &len); len = (uint32_t)len;
      if (!k || len > n - p - k) return 0;
      p += k;
      for (size_t end = p + len; p < end; p += k) {
        k = ref_read(f->type, d + p, end - p, &bits, &s);
        if (!k) return 0;
        ev e = { f, bits, 0, dp };
        if (nwant < LIMIT) want[nwant] = e;
        nwant++;
        if ((long)nwant - 1 == stop_at) return 0;
      }
    } else {
      k = ref_skip(wt, d + p, n - p);
      if (!k) return 0;
      p += k;
    }
  }
  return 1;
}
static void compare(void) {
  sym_check(ngot == nwant, "as many values are decoded as the wire format says");
  for (size_t i = 0; i < ngot && i < LIMIT; i++) {
    sym_check(got[i].f == want[i].f, "values are attributed to the right field, in order");
    sym_check(got[i].bits == want[i].bits, "decoded values are those on the wire");
    sym_check(got[i].start == want[i].start && got[i].depth == want[i].depth, "strings and submessages are found where they are");
  }
}
static pb_error_t run(const pb_descriptor_t *d, uint8_t *b, size_t n) {
  pb_buffer_t buffer = ro_buffer(b, n);
  base = b; size = n;
  pb_decoder_t dec = pb_decoder_create(d, &buffer);
  pb_error_t e = pb_decoder_decode(&dec, on, &size);
  pb_decoder_destroy(&dec);
  pb_buffer_destroy(&buffer);
  return e;
}
static void check_error(pb_error_t e, int ok) {
  sym_check((e == PB_ERROR_NONE) == ok, "decoding succeeds exactly on well-formed input");
  sym_check(e == PB_ERROR_NONE || e == PB_ERROR_INVALID || e == PB_ERROR_VARINT || e == PB_ERROR_OFFSET, "malformed input is reported as such");
}
#ifdef EVENTS
/* arbitrary bytes behind an optional well-formed beginning */
#include "pre.h"
void harness(void) {
  size_t k = sym_range(0, COUNT(pre) - 1);
  size_t n = sym_range(1, k == 0 || k == 2 || k == 3 ? N : M);
  /* lengths in the beginnings announce that many bytes: fewer is truncated input */
  uint8_t *b = malloc(pre[k].n + n);
  for (size_t i = 0; i < pre[k].n; i++) b[i] = pre[k].d[i];
  sym_bytes(b + pre[k].n, n);
  pb_error_t e = run(&d_main, b, pre[k].n + n);
  int ok = ref_all(&d_main, b, pre[k].n + n, 0);
  check_error(e, ok);
  compare();
  if (ok) { sym_reach(1); if (ngot) sym_reach(2); } else sym_reach(3);
  for (size_t i = 0; i < ngot && i < LIMIT; i++) if (got[i].depth > 0) sym_reach(4);
  sym_obs(e); sym_obs(ngot);
  free(b);
}
#endif
#ifdef HANDLER
/* a handler that reports any error at any event */
void harness(void) {
  static const uint8_t msg[] = { 0x08, 0x07, 0x2a, 0x03, 0x01, 0x02, 0x03, 0x1a, 0x08, 0x08, 0x05, 0x22, 0x02, 0x08, 0x09, 0x12, 0x00, 0x5a, 0x08, 1, 0, 0, 0, 2, 0, 0, 0, 0x52, 0x02, 0x08, 0x01, 0x12, 0x01, 'a' };
  size_t n = sizeof msg;
  uint8_t *b = malloc(n);
  for (size_t i = 0; i < n; i++) b[i] = msg[i];
  sym_bytes(b + 4, 3); sym_bytes(b + 13, 2);
  for (int i = 4; i < 7; i++) sym_assume(b[i] < 128);
  for (int i = 13; i < 15; i++) sym_assume(b[i] < 128);
  stop_at = (long)sym_range(0, 14);
  stop_with = (pb_error_t)sym_u32();
  sym_assume(stop_with >= PB_ERROR_ALLOC && stop_with <= PB_ERROR_EOM);
  pb_error_t e = run(&d_main, b, n);
  int ok = ref_all(&d_main, b, n, 0);
  sym_check(stopped == !ok, "the handler is called until it reports an error");
  sym_check(e == (stopped ? stop_with : PB_ERROR_NONE), "the error of a handler is returned");
  compare();
  sym_reach(stopped ? 1 : 2);
  free(b);
}
#endif
#ifdef STACK
/* stack use does not depend on the number of values */
void harness(void) {
  size_t n = N;
  int packed = (int)sym_range(0, 3);
  uint8_t *b = malloc(n * 8 + 8); size_t p = 0;
  if (packed == 1) { b[p++] = 0x2a; p += ref_put_varint(b + p, n); for (size_t i = 0; i < n; i++) b[p++] = sym_u8() & 0x7f; }
  else for (size_t i = 0; i < n; i++) {
    if (packed == 0) { b[p++] = 0x08; b[p++] = sym_u8() & 0x7f; }
    else if (packed == 2) { b[p++] = 0x12; b[p++] = 1; b[p++] = sym_u8(); }
    else { b[p++] = 0x1a; b[p++] = 0; }
  }
  uint8_t *c = malloc(p);
  for (size_t i = 0; i < p; i++) c[i] = b[i];
  free(b);
  sym_check(run(&d_main, c, p) == PB_ERROR_NONE, "decoding succeeds");
  sym_check(ngot == n, "every value is decoded");
  sym_check(sp_first == sp_last, "the stack does not grow with the number of values decoded");
  sym_reach(packed);
  free(c);
}
#endif
#ifdef SAFE
/* every type of field, a recursive submessage, any bytes at all */
extern pb_descriptor_t d_all;
static const pb_field_descriptor_t f_all[] = {
  { 1, "a", INT32, OPTIONAL }, { 2, "b", INT64, REPEATED }, { 3, "c", UINT32, OPTIONAL }, { 4, "d", UINT64, OPTIONAL }, { 5, "e", SINT32, OPTIONAL },
  { 6, "f", SINT64, OPTIONAL }, { 7, "g", FIXED32, OPTIONAL }, { 8, "h", FIXED64, OPTIONAL }, { 9, "i", SFIXED32, OPTIONAL }, { 10, "j", SFIXED64, REPEATED, NULL, NULL, PACKED },
  { 11, "k", BOOL, OPTIONAL }, { 12, "l", ENUM, OPTIONAL, &e_main }, { 13, "m", FLOAT, OPTIONAL }, { 14, "n", DOUBLE, OPTIONAL }, { 15, "o", STRING, OPTIONAL }, { 16, "p", BYTES, OPTIONAL },
  { 17, "q", MESSAGE, OPTIONAL, &d_all } };
pb_descriptor_t d_all = { { f_all, 17 } };
static size_t calls, deepest;
static pb_error_t any(const pb_field_descriptor_t *f, const void *value, void *user) {
  size_t *left = user;                       /* size of the enclosing buffer */
  calls++;
  if ((size_t)depth > deepest) deepest = (size_t)depth;
  sym_check(f >= f_all && f < f_all + 17, "the handler receives a field of the message");
  if (f->type == PB_TYPE_MESSAGE) {
    const pb_decoder_t *sub = value;
    const pb_buffer_t *b = pb_decoder_buffer(sub);
    size_t n = pb_buffer_size(b);
    sym_check(pb_buffer_data(b) >= base && pb_buffer_data(b) + n <= base + size, "a submessage lies within the buffer");
    sym_check(n < *left, "a submessage is smaller than what contains it");
    depth++;
    pb_error_t e = pb_decoder_decode(sub, any, &n);
    depth--;
    sym_reach(1);
    return e;
  }
  if (ref_wiretype(f->type) == 2) {
    pb_string_t s; memcpy(&s, value, sizeof s);
    sym_check(s.data >= base && s.data + s.size <= base + size, "a string lies within the buffer");
    sym_check(s.size < *left, "a string is smaller than what contains it");
    sym_reach(2);
  } else {
    uint64_t v = 0; memcpy(&v, value, ref_size(f->type)); sym_obs(v);
    sym_reach(3);
  }
  return PB_ERROR_NONE;
}
void harness(void) {
  static const uint8_t lead[][11] = { { 0 }, { 0x8a, 0x01, N }, { 0x8a, 0x81, 0x00, N }, { 0x12, N }, { 0x52, N }, { 0x7a, 0x80 | N, 0x00 },
    { 0x8a, 0x01, 0xff, 0xff, 0xff }, { 0x7a, 0xff, 0xff, 0xff }, { 0x52, 0xff, 0xff, 0xff }, { 0x9a, 0x06, 0xff, 0xff, 0xff }, { 0x8a, 0x01, 3, 0x7a }, { 0x8a, 0x01, 1 },
    { 0x08, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff }, { 0x10, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff }, { 0x41, 1, 2, 3, 4 }, { 0x88, 0x80, 0x80 } };
  static const size_t len[] = { 0, 3, 4, 2, 2, 3, 5, 4, 4, 5, 4, 3, 9, 9, 5, 3 };
  size_t w = sym_range(0, COUNT(len) - 1), n = w == 0 ? sym_range(1, N) : w < 6 ? N : 4;
  uint8_t *b = malloc(len[w] + n), *c = malloc(len[w] + n);
  for (size_t i = 0; i < len[w]; i++) b[i] = lead[w][i];
  sym_bytes(b + len[w], n); n += len[w];
  memcpy(c, b, n);
  base = b; size = n;
  pb_buffer_t buffer = ro_buffer(b, n);
  pb_decoder_t dec = pb_decoder_create(&d_all, &buffer);
  pb_error_t e = pb_decoder_decode(&dec, any, &n);
  sym_check(e >= PB_ERROR_NONE && e <= PB_ERROR_EOM, "decoding succeeds or returns an error code");
  sym_check(calls <= n && deepest <= n / 2, "the number of values and levels is bounded by the size");
  sym_check(!memcmp(b, c, n), "decoding changes nothing");
  sym_reach(e ? 5 : 4);
  sym_obs(e); sym_obs(calls);
  pb_decoder_destroy(&dec); pb_buffer_destroy(&buffer); free(b); free(c);
  sym_check(sym_heap_live() == 0, "nothing is leaked");
}
#endif
