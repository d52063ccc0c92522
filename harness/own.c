/* Memory of buffers and encoders comes from the given allocator and goes back
 * to it; everything else takes none. */
#include "templates.h"
#include "own.h"
static OWN(a);
static size_t foreign;
static void settle(void) { sym_check(sym_heap_live() == (size_t)a.live + foreign, "all memory is taken from the given allocator"); }
static size_t events;
static pb_error_t on(const pb_field_descriptor_t *f, const void *v, void *u) {
  events++; settle();
  if (f->type == PB_TYPE_MESSAGE) return pb_decoder_decode(v, on, u);
  return PB_ERROR_NONE;
}
static void arm(void) { a.calls = 0; long f = (long)sym_range(0, 4); a.fail_at = f == 4 ? -1 : f; }
#ifdef O_CORE
static void encode(pb_encoder_t *e) {
  uint32_t x[] = { sym_u8(), 300, 7 }; uint64_t y[] = { sym_u8(), 1 }; uint8_t b[] = { 1, 0 };
  pb_string_t s[] = { pb_string_init_from_chars("ab"), pb_string_init_from_chars("c") };
  switch (sym_range(0, 8)) {
    case 0: pb_encoder_encode(e, 1, x, 1); break;
    case 1: pb_encoder_encode(e, 2, s, 1); break;
    case 2: pb_encoder_encode(e, 4, x, 3); break;
    case 3: pb_encoder_encode(e, 5, x, 3); break;
    case 4: pb_encoder_encode(e, 6, x, 1); break;
    case 5: pb_encoder_encode(e, 11, x, 3); break;
    case 6: pb_encoder_encode(e, 13, b, 1); break;
    case 7: pb_encoder_encode(e, 15, y, 1); break;
    default: {
      pb_encoder_t n = pb_encoder_create_with_allocator(&a_alloc, &d_leaf); settle();
      pb_encoder_encode(&n, 1, x, 1); pb_encoder_encode(&n, 2, x, 2); settle();
      pb_encoder_encode(e, 10, &n, 1); settle();
      pb_encoder_destroy(&n); }
  }
  settle(); sym_check(a.live <= 2, "an encoder holds one block");
}
void harness(void) {
  int how = (int)sym_range(0, 3); uint8_t d[] = { sym_u8(), 2, 3, 4 };
  if (how == 0) {                             /* encoder */
    arm();
    pb_encoder_t e = pb_encoder_create_with_allocator(&a_alloc, &d_main); settle();
    for (int k = 0; k < K; k++) { arm(); encode(&e); }
    pb_encoder_destroy(&e); settle();
  } else if (how == 1) {                      /* buffer */
    arm();
    size_t n = sym_range(0, 4);
    pb_buffer_t b = n ? pb_buffer_create_with_allocator(&a_alloc, d, n) : pb_buffer_create_empty_with_allocator(&a_alloc); settle();
    sym_check(n ? pb_buffer_valid(&b) == (a.fail_at != 0) : a.calls == 0, "creation takes at most one block");
    for (int k = 0; k < K; k++) {
      arm(); size_t s = sym_range(0, 4), t = sym_range(0, 4); pb_error_t e;
      if (sym_range(0, 1)) e = pb_buffer_write(&b, s, t, d, 1 + sym_range(0, 1)); else e = pb_buffer_clear(&b, s, t);
      settle(); sym_check(a.live <= 1, "a buffer holds one block"); sym_obs(e);
    }
    pb_buffer_destroy(&b); settle();
  } else if (how == 2) {                      /* a buffer of somebody else */
    uint8_t *m = malloc(4); memcpy(m, d, 4); foreign = 1;
    pb_buffer_t b = pb_buffer_create_zero_copy(m, 4); settle();
    for (int k = 0; k < K; k++) { size_t s = sym_range(0, 4), t = sym_range(0, 4); if (pb_buffer_write(&b, s, t, d, 2)) sym_reach(11); settle(); if (pb_buffer_clear(&b, s, t)) sym_reach(10); settle(); }
    pb_buffer_destroy(&b); settle(); sym_check(a.calls == 0, "nothing is allocated"); free(m); foreign = 0;
  } else {                                    /* decoding and validating */
    node *root = t_build((unsigned)sym_range(0, TEMPLATES - 1)); size_t n = m_plen(root);
    if (!n) return;
    uint8_t *m = malloc(n); m_payload(m, root); foreign = 1;
    pb_buffer_t b = pb_buffer_create_with_allocator(&a_alloc, m, n); a.calls = 0; settle();
    pb_decoder_t dec = pb_decoder_create(&d_main, &b); pb_decoder_decode(&dec, on, NULL); pb_decoder_destroy(&dec); settle();
    pb_validator_t v = pb_validator_create(&d_main); sym_obs(pb_validator_check(&v, &b)); pb_validator_destroy(&v); settle();
    sym_check(a.calls == 0 && events, "decoding and validating take no memory");
    pb_buffer_destroy(&b); free(m); foreign = 0;
  }
  sym_reach(how);
  sym_check(a.live == 0 && sym_heap_live() == 0, "every block is returned exactly once");
}
#endif
