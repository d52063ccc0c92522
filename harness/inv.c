/* Operations on invalid structures: an error, zero or another invalid
 * structure, and nothing is touched. */
#include "templates.h"
static int called;
static pb_error_t none(const pb_field_descriptor_t *f, const void *v, void *u) { called = 1; return PB_ERROR_NONE; }
static uint8_t guard[24];
static void *slot(void) { for (size_t i = 0; i < sizeof guard; i++) guard[i] = (uint8_t)(0xa0 + i); return guard; }
static int untouched(void) { for (size_t i = 0; i < sizeof guard; i++) if (guard[i] != (uint8_t)(0xa0 + i)) return 0; return 1; }
static int is_error(pb_error_t e) { return e > PB_ERROR_NONE && e <= PB_ERROR_EOM; }

static void on_field(pb_field_t *f, pb_type_t t) {
  value_t v = t_value(t, 1);
  int op = (int)sym_range(0, 4);
  for (int i = 0; i < 2; i++) {
    if (op == 0) { sym_check(pb_field_get(f, slot()) == PB_ERROR_INVALID && untouched(), "an invalid field cannot be read"); }
    else if (op == 1) sym_check(!pb_field_match(f, &v), "an invalid field matches nothing");
    else if (op == 2) sym_check(is_error(pb_field_put(f, &v)), "an invalid field cannot be written");
    else if (op == 3) sym_check(is_error(pb_field_clear(f)), "an invalid field cannot be cleared");
    else { pb_message_t m = pb_message_create_from_field(&d_in, f); sym_check(!pb_message_valid(&m) && pb_message_error(&m) != PB_ERROR_NONE, "no message is created from an invalid field"); pb_message_destroy(&m); }
  }
  sym_check(!pb_field_valid(f) && is_error(pb_field_error(f)), "an invalid field stays so");
  pb_field_destroy(f); pb_field_destroy(f);
  sym_reach(op);
}
static void on_cursor(pb_cursor_t *c, pb_type_t t) {
  value_t v; memset(&v, 0, sizeof v); if (t != PB_TYPE_MESSAGE) v = t_value(t, 1);
  int op = (int)sym_range(0, 7);
  if (t == PB_TYPE_MESSAGE) sym_assume(op != 0 && op != 1 && op != 2 && op != 4);
  for (int i = 0; i < 2; i++) {
    if (op == 0) sym_check(is_error(pb_cursor_get(c, slot())) && untouched(), "nothing is read at an invalid cursor");
    else if (op == 1) sym_check(!pb_cursor_match(c, &v), "an invalid cursor matches nothing");
    else if (op == 2) sym_check(is_error(pb_cursor_put(c, &v)), "nothing is written at an invalid cursor");
    else if (op == 3) sym_check(is_error(pb_cursor_erase(c)), "nothing is erased at an invalid cursor");
    else if (op == 4) sym_check(!pb_cursor_seek(c, &v), "an invalid cursor finds nothing");
    else if (op == 5) sym_check(!pb_cursor_next(c), "an invalid cursor does not move");
    else if (op == 6) { pb_field_t f = pb_field_create_from_cursor(c); sym_check(!pb_field_valid(&f), "no field is created from an invalid cursor"); pb_field_destroy(&f); }
    else { pb_message_t m = pb_message_create_from_cursor(c); sym_check(!pb_message_valid(&m), "no message is created from an invalid cursor"); pb_message_destroy(&m); }
  }
  sym_check(!pb_cursor_valid(c) && is_error(pb_cursor_error(c)), "an invalid cursor stays so");
  pb_cursor_destroy(c); pb_cursor_destroy(c);
  sym_reach(5 + op);
}
/* m: an invalid message of type d_in, stale: not known to be yet */
static void on_message(pb_message_t *m, int stale) {
  static const pb_tag_t tags[] = { 3, 1 }; uint32_t x = sym_u32();
  int op = (int)sym_range(0, 18);
  for (int i = 0; i < 2; i++) switch (op) {
    case 0: sym_check(!pb_message_has(m, 1), "an invalid message has no fields"); break;
    case 1: sym_check(!pb_message_match(m, 1, &x), "an invalid message matches nothing"); break;
    case 2: sym_check(is_error(pb_message_get(m, 1, slot())) && untouched(), "an invalid message cannot be read"); break;
    case 3: sym_check(is_error(pb_message_put(m, 1, &x)), "an invalid message cannot be written"); break;
    case 4: { pb_error_t e = pb_message_erase(m, 1); sym_check(stale ? e == PB_ERROR_NONE || is_error(e) : is_error(e), "nothing is erased from an invalid message"); break; }
    case 5: sym_check(is_error(pb_message_clear(m)), "an invalid message cannot be cleared"); break;
    case 6: { pb_message_t s = pb_message_create_within(m, 3); sym_check(!pb_message_valid(&s), "no message is created within an invalid one"); pb_message_destroy(&s); break; }
    case 7: { pb_tag_t t[] = { 3 }; pb_message_t s = pb_message_create_nested(m, t, 1); sym_check(!pb_message_valid(&s), "no message is created within an invalid one"); pb_message_destroy(&s); break; }
    case 8: { pb_cursor_t c = pb_cursor_create(m, 1); sym_check(!pb_cursor_valid(&c) && is_error(pb_cursor_error(&c)), "no cursor is created for an invalid message");
      sym_check(!pb_cursor_rewind(&c), "an invalid cursor cannot be rewound"); on_cursor(&c, PB_TYPE_UINT32); break; }
    case 9: { pb_cursor_t c = pb_cursor_create_nested(m, tags, 2); sym_check(!pb_cursor_valid(&c), "no cursor is created for an invalid message"); pb_cursor_destroy(&c); break; }
    case 10: { pb_field_t f = pb_field_create(m, 1); sym_check(!pb_field_valid(&f), "no field is created for an invalid message"); on_field(&f, PB_TYPE_UINT32); break; }
    case 11: { pb_field_t f = pb_field_create_nested(m, tags, 2); sym_check(!pb_field_valid(&f), "no field is created for an invalid message"); pb_field_destroy(&f); break; }
    case 12: sym_check(!pb_message_nested_has(m, tags, 2), "an invalid message has no fields"); break;
    case 13: sym_check(!pb_message_nested_match(m, tags, 2, &x), "an invalid message matches nothing"); break;
    case 14: sym_check(is_error(pb_message_nested_get(m, tags, 2, slot())) && untouched(), "an invalid message cannot be read"); break;
    case 15: sym_check(is_error(pb_message_nested_put(m, tags, 2, &x)), "an invalid message cannot be written"); break;
    case 16: { pb_error_t e = pb_message_nested_erase(m, tags, 2); sym_check(stale ? e == PB_ERROR_NONE || is_error(e) : is_error(e), "nothing is erased from an invalid message"); break; }
    case 17: { /* writing it to a valid message */
      uint8_t w[] = { 0x08, 0x07 }; pb_journal_t j = pb_journal_create(w, 2); pb_message_t d = pb_message_create(&d_main, &j);
      sym_check(is_error(pb_message_put(&d, 3, m)), "an invalid message cannot be written to another");
      pb_tag_t t[] = { 3, 3 };
      sym_check(pb_buffer_size(&j.buffer) == 2 && !memcmp(pb_buffer_data(&j.buffer), w, 2), "writing an invalid message changes nothing");
      if (i) sym_check(is_error(pb_message_nested_put(&d, t, 2, m)), "an invalid message cannot be written to a nested one");
      pb_message_destroy(&d); pb_journal_destroy(&j); break; }
    case 18: { pb_cursor_t c = pb_cursor_create(m, 3); on_cursor(&c, PB_TYPE_MESSAGE); break; }
  }
  if (!stale) sym_check(!pb_message_valid(m) && is_error(pb_message_error(m)), "an invalid message stays so");
  pb_message_destroy(m); pb_message_destroy(m);
  sym_reach(20 + op);
}
#ifdef I_MESSAGE
void harness(void) {
  static const uint8_t bytes[] = { 0x08, 0x07, 0x1a, 0x06, 0x08, 0x01, 0x1a, 0x02, 0x08, 0x05, 0x3a, 0x01, 'z' };
  uint8_t b[sizeof bytes]; memcpy(b, bytes, sizeof b); b[1] = sym_u8() & 0x7f; b[5] = sym_u8() & 0x7f; b[9] = sym_u8() & 0x7f;
  b[10] = 0x42;
  ACCT(a); int how = (int)sym_range(0, 12), stale = 0;
  if (how < 2) a.fail_at = 0;
  pb_journal_t j = pb_journal_create_with_allocator(&a_alloc, b, sizeof b);
  if (how < 2) {
    sym_check(!pb_journal_valid(&j) && pb_journal_error(&j) == PB_ERROR_ALLOC, "a journal without memory is invalid");
    sym_check(pb_journal_size(&j) == 0 && pb_journal_empty(&j), "an invalid journal is empty");
  }
  pb_message_t m = pb_message_create(&d_main, &j), s;
  switch (how) {
    case 0: sym_check(!pb_message_valid(&m), "a message of an invalid journal is invalid"); s = pb_message_create(&d_in, &j); break;
    case 1: s = pb_message_create_within(&m, 3); break;
    case 2: s = pb_message_create_within(&m, 3); sym_check(pb_message_erase(&m, 3) == PB_ERROR_NONE, "harness: erased"); stale = 1; break;
    case 3: { pb_cursor_t c = pb_cursor_create(&m, 10); s = pb_message_create_from_cursor(&c); pb_cursor_destroy(&c); break; }
    case 4: { pb_field_t f = pb_field_create_invalid(); s = pb_message_create_from_field(&d_in, &f); break; }
    case 5: { a.calls = 0; a.fail_at = (long)sym_range(0, 1); pb_message_t t = pb_message_create_within(&m, 10); s = pb_message_create_from_cursor(&(pb_cursor_t){ .message = t, .error = PB_ERROR_INVALID }); pb_message_destroy(&t); a.fail_at = -1; break; }
    case 6: s = pb_message_create_within(&m, 3); sym_check(pb_message_clear(&s) == PB_ERROR_NONE, "a message can be cleared"); break;
    case 7: { s = pb_message_create_within(&m, 3); pb_message_t t = pb_message_create_within(&m, 3); sym_check(pb_message_clear(&t) == PB_ERROR_NONE, "a message can be cleared"); pb_message_destroy(&t); stale = 1; break; }
    case 8: { s = pb_message_create_within(&m, 9); uint32_t x = 1; sym_check(pb_message_put(&m, 7, &x) == PB_ERROR_NONE, "harness: written"); 
      /* what the oneof held before has been superseded */ sym_check(pb_message_erase(&m, 9) == PB_ERROR_NONE, "harness: erased"); stale = 1; break; }
    case 9: { s = pb_message_create_within(&m, 3); pb_cursor_t c = pb_cursor_create(&m, 3); sym_check(pb_cursor_erase(&c) == PB_ERROR_NONE, "harness: erased"); pb_cursor_destroy(&c); stale = 1; break; }
    case 10: { s = pb_message_create_within(&m, 3); sym_check(pb_message_erase(&m, 3) == PB_ERROR_NONE, "harness: erased");
      /* something else takes its place */ uint32_t x[] = { 1, 2 }; pb_message_put(&m, 4, &x[0]); pb_message_put(&m, 4, &x[1]); stale = 1; break; }
    case 11: { s = pb_message_create_within(&m, 3); sym_check(pb_message_erase(&m, 3) == PB_ERROR_NONE, "harness: erased");
      pb_message_t t = pb_message_create_within(&m, 3); uint32_t x = 1; pb_message_put(&t, 1, &x); pb_message_destroy(&t); stale = 1; break; }
    default: s = pb_message_create_invalid();
  }
  uint8_t keep[64]; size_t n = how < 2 ? 0 : pb_buffer_size(&j.buffer);
  sym_check(n <= sizeof keep, "harness: size"); if (n) memcpy(keep, pb_buffer_data(&j.buffer), n);
  sym_reach(40 + how);
  on_message(&s, stale);
  if (how >= 2) {
    sym_check(pb_buffer_size(&j.buffer) == n && !memcmp(keep, pb_buffer_data(&j.buffer), n), "operations on an invalid message change nothing");
    sym_check(pb_message_valid(&m) && pb_journal_valid(&j), "other structures stay valid");
  }
  pb_message_destroy(&m); pb_journal_destroy(&j); 
  if (how < 2) pb_journal_destroy(&j);
  sym_check(a.live == 0 && sym_heap_live() == 0, "nothing is leaked");
}
#endif
#ifdef I_HANDLE
/* fields and cursors that become invalid in other ways */
void harness(void) {
  node *root = t_build((unsigned)sym_range(0, TEMPLATES - 1));
  pb_journal_t j = m_journal(root);
  pb_message_t m = pb_message_create(&d_main, &j);
  const pb_field_descriptor_t *f = &d_main.field.data[sym_range(0, d_main.field.size - 1)];
  int how = (int)sym_range(0, 6); pb_field_t h = pb_field_create_invalid(); pb_cursor_t c = pb_cursor_create(&m, f->tag);
  int field = 0;
  if (how == 0) {                       /* past the end */
    while (pb_cursor_next(&c)) {}
  } else if (how == 1 || how == 2) {    /* field of an erased value */
    sym_assume(pb_cursor_valid(&c) && f->type != PB_TYPE_MESSAGE);
    h = pb_field_create_from_cursor(&c); field = 1;
    if (how == 1) sym_check(pb_cursor_erase(&c) == PB_ERROR_NONE, "harness: erased");
    else sym_check(pb_message_erase(&m, f->tag) == PB_ERROR_NONE, "harness: erased");
  } else if (how == 3) {                /* cleared field */
    sym_assume(pb_cursor_valid(&c) && f->type != PB_TYPE_MESSAGE);
    h = pb_field_create_from_cursor(&c); field = 1;
    sym_check(pb_field_clear(&h) == PB_ERROR_NONE, "a field can be cleared");
  } else if (how == 4) {                /* past the end of an emptied message */
    while (pb_cursor_next(&c)) {}
    if (root->nk) sym_check(pb_message_clear(&m) == PB_ERROR_NONE, "a message can be cleared");
  } else if (how == 5) {                /* field past the end */
    sym_assume(f->type != PB_TYPE_MESSAGE);
    while (pb_cursor_next(&c)) {}
    h = pb_field_create_from_cursor(&c); field = 1;
  } else {                              /* a message of a scalar, a scalar of a message */
    sym_assume(pb_cursor_valid(&c));
    if (f->type == PB_TYPE_MESSAGE) { h = pb_field_create_from_cursor(&c); sym_check(!pb_field_valid(&h), "a submessage is no field"); }
    else { pb_message_t s = pb_message_create_from_cursor(&c); sym_check(!pb_message_valid(&s), "a field is no submessage"); pb_message_destroy(&s); }
    field = 2;
  }
  static uint8_t keep[WIRE]; size_t n = pb_buffer_size(&j.buffer);
  sym_check(n <= sizeof keep, "harness: size"); if (n) memcpy(keep, pb_buffer_data(&j.buffer), n);
  sym_reach(40 + how);
  if (field == 1) {
    value_t v; memset(&v, 0, sizeof v);
    /* an aligned handle knows that it is invalid */
    sym_check(is_error(pb_field_get(&h, &v)), "an erased field cannot be read");
    on_field(&h, f->type);
  } else if (!field) { if (!pb_cursor_valid(&c)) on_cursor(&c, f->type); }
  sym_check(pb_buffer_size(&j.buffer) == n && !(n && memcmp(keep, pb_buffer_data(&j.buffer), n)), "operations on invalid structures change nothing");
  pb_field_destroy(&h); pb_cursor_destroy(&c); pb_message_destroy(&m); pb_journal_destroy(&j);
  sym_check(sym_heap_live() == 0, "nothing is leaked");
}
#endif
#ifdef I_CORE
void harness(void) {
  ACCT(a); uint8_t b[] = { 0x08, 1, 2 }; b[1] = sym_u8();
  int how = (int)sym_range(0, 8);
  if (how <= 3) {
    a.fail_at = 0;
    pb_buffer_t x = how ? pb_buffer_create_with_allocator(&a_alloc, b, 3) : pb_buffer_create_invalid();
    sym_check(!pb_buffer_valid(&x) && is_error(pb_buffer_error(&x)), "a buffer without memory is invalid");
    sym_check(pb_buffer_size(&x) == 0 && pb_buffer_empty(&x) && !pb_buffer_data(&x), "an invalid buffer is empty");
    for (int i = 0; i < 2; i++) {
      sym_check(is_error(pb_buffer_write(&x, 0, 0, b, 2)) && is_error(pb_buffer_clear(&x, 0, 0)), "an invalid buffer cannot be written");
      if (how == 2) {
        pb_decoder_t d = pb_decoder_create(&d_main, &x);
        sym_check(!pb_decoder_valid(&d) && is_error(pb_decoder_error(&d)), "a decoder of an invalid buffer is invalid");
        sym_check(is_error(pb_decoder_decode(&d, none, NULL)) && !called, "an invalid decoder decodes nothing");
        pb_decoder_destroy(&d);
      }
      if (how == 3) {
        pb_validator_t v = pb_validator_create(&d_main);
        sym_check(is_error(pb_validator_check(&v, &x)), "an invalid buffer is not valid");
        pb_validator_destroy(&v);
      }
    }
    sym_check(!pb_buffer_valid(&x), "an invalid buffer stays so");
    pb_buffer_destroy(&x); pb_buffer_destroy(&x);
  } else if (how == 4) {
    pb_encoder_t e = pb_encoder_create_invalid(); uint32_t v = sym_u32();
    for (int i = 0; i < 2; i++) sym_check(is_error(pb_encoder_encode(&e, 1, &v, 1)), "an invalid encoder encodes nothing");
    sym_check(!pb_encoder_valid(&e) && is_error(pb_encoder_error(&e)), "an invalid encoder stays so");
    pb_encoder_destroy(&e); pb_encoder_destroy(&e);
  } else if (how <= 6) {                  /* an invalid submessage among the values */
    pb_encoder_t e = pb_encoder_create_with_allocator(&a_alloc, &d_main); uint32_t v = sym_u32();
    sym_check(pb_encoder_encode(&e, 1, &v, 1) == PB_ERROR_NONE, "harness: encoded");
    uint8_t keep[8]; size_t n = pb_buffer_size(&e.buffer); memcpy(keep, pb_buffer_data(&e.buffer), n);
    pb_encoder_t s[2] = { pb_encoder_create(&d_leaf), pb_encoder_create(&d_leaf) };
    sym_check(pb_encoder_encode(&s[0], 1, &v, 1) == PB_ERROR_NONE, "harness: encoded");
    if (how == 5) { pb_encoder_destroy(&s[1]); s[1] = pb_encoder_create_invalid(); } else { pb_encoder_destroy(&s[0]); s[0] = pb_encoder_create_invalid(); }
    sym_check(is_error(pb_encoder_encode(&e, 10, s, 2)), "an invalid submessage cannot be encoded");
    sym_check(pb_buffer_size(&e.buffer) == n && !memcmp(keep, pb_buffer_data(&e.buffer), n), "a failed encoding leaves the encoder as it was");
    pb_encoder_destroy(&s[0]); pb_encoder_destroy(&s[1]); pb_encoder_destroy(&e);
  } else if (how == 7) {
    a.fail_at = 0;
    pb_journal_t j = pb_journal_create_with_allocator(&a_alloc, b, 3);
    sym_check(!pb_journal_valid(&j) && is_error(pb_journal_error(&j)), "a journal without memory is invalid");
    for (int i = 0; i < 2; i++) {
      sym_check(is_error(pb_journal_write(&j, 0, 0, 0, b, 1)), "an invalid journal cannot be written");
      sym_check(is_error(pb_journal_clear(&j, 0, 0, 1)), "an invalid journal cannot be cleared");
    }
    sym_check(!pb_journal_valid(&j), "an invalid journal stays so");
    pb_message_t m = pb_message_create(&d_main, &j); pb_oneof_t o = pb_oneof_create(&o_main, &m);
    sym_check(!pb_oneof_valid(&o) && pb_oneof_error(&o) == PB_ERROR_INVALID, "a oneof of an invalid message is invalid");
    for (int i = 0; i < 2; i++) { sym_check(pb_oneof_case(&o) == 0, "a oneof of an invalid message has no member"); pb_error_t e = pb_oneof_clear(&o); sym_check(e >= PB_ERROR_NONE && e <= PB_ERROR_EOM, "clearing it returns a code"); }
    pb_oneof_destroy(&o); pb_message_destroy(&m);
    pb_journal_destroy(&j); pb_journal_destroy(&j);
  } else {
    const char *s[7];
    for (int e = PB_ERROR_NONE; e <= PB_ERROR_EOM; e++) {
      s[e] = pb_error_string((pb_error_t)e);
      sym_check(s[e] && strlen(s[e]), "every error has a description");
      for (int k = 0; k < e; k++) sym_check(strcmp(s[e], s[k]), "descriptions of errors differ");
    }
  }
  sym_reach(how);
  sym_check(a.live == 0 && sym_heap_live() == 0, "nothing is leaked");
}
#endif
#ifdef I_DESTROYED
/* structures that were destroyed, in any state */
void harness(void) {
  ACCT(a); uint8_t b[] = { 0x08, 1, 0x12, 1, 'x' }; b[1] = sym_u8() & 0x7f;
  int how = (int)sym_range(0, 6), twice = (int)sym_range(0, 1); uint32_t x = sym_u32();
  sym_reach(how);
  if (how <= 2) {                         /* buffers: filled, emptied, never filled */
    pb_buffer_t f = how == 2 ? pb_buffer_create_empty_with_allocator(&a_alloc) : pb_buffer_create_with_allocator(&a_alloc, b, 5);
    if (how == 1) sym_check(pb_buffer_clear(&f, 0, 5) == PB_ERROR_NONE, "a buffer can be emptied");
    sym_check(pb_buffer_valid(&f), "a buffer is valid");
    for (int i = 0; i <= twice; i++) pb_buffer_destroy(&f);
    sym_check(!pb_buffer_valid(&f) && is_error(pb_buffer_error(&f)) && !pb_buffer_size(&f) && !pb_buffer_data(&f), "a destroyed buffer is invalid and empty");
    sym_check(is_error(pb_buffer_write(&f, 0, 0, b, 2)) && is_error(pb_buffer_clear(&f, 0, 0)) && !pb_buffer_grow(&f, 1), "a destroyed buffer cannot be written");
  } else if (how <= 4) {                  /* encoders */
    pb_encoder_t e = pb_encoder_create_with_allocator(&a_alloc, &d_main);
    if (how == 3) sym_check(pb_encoder_encode(&e, 1, &x, 1) == PB_ERROR_NONE, "harness: encoded");
    for (int i = 0; i <= twice; i++) pb_encoder_destroy(&e);
    sym_check(!pb_encoder_valid(&e) && is_error(pb_encoder_error(&e)), "a destroyed encoder is invalid");
    sym_check(is_error(pb_encoder_encode(&e, 1, &x, 1)), "a destroyed encoder encodes nothing");
  } else {                                /* journals, with and without entries */
    pb_journal_t j = pb_journal_create_with_allocator(&a_alloc, b, 5);
    pb_message_t m = pb_message_create(&d_main, &j);
    if (how == 5) sym_check(pb_message_put(&m, 20, &(uint32_t){ 5 }) == PB_ERROR_NONE, "harness: written");
    else sym_check(pb_message_erase(&m, 1) == PB_ERROR_NONE && pb_message_erase(&m, 2) == PB_ERROR_NONE, "harness: erased");
    pb_message_destroy(&m);
    sym_check(!pb_message_valid(&m) && is_error(pb_message_error(&m)) && is_error(pb_message_put(&m, 1, &x)) && is_error(pb_message_get(&m, 1, slot())) && untouched(), "a destroyed message is invalid");
    for (int i = 0; i <= twice; i++) pb_journal_destroy(&j);
    sym_check(!pb_journal_valid(&j) && is_error(pb_journal_error(&j)) && !pb_journal_size(&j), "a destroyed journal is invalid and empty");
    sym_check(is_error(pb_journal_write(&j, 0, 0, 0, b, 1)) && is_error(pb_journal_clear(&j, 0, 0, 0)), "a destroyed journal cannot be written");
    pb_message_t n = pb_message_create(&d_main, &j);
    sym_check(!pb_message_valid(&n) && is_error(pb_message_put(&n, 1, &x)), "no message is created from a destroyed journal");
    pb_message_destroy(&n);
  }
  sym_check(a.live == 0 && sym_heap_live() == 0, "nothing is leaked");
}
#endif
