/* Uses that run into internal assertions if these are too strict. */
#include "templates.h"
static const pb_field_descriptor_t f_top[] = { { 1, "a", BYTES, OPTIONAL }, { 2, "s", STRING, REPEATED }, { 7, "sub", MESSAGE, OPTIONAL, &d_in }, { 9, "l", MESSAGE, OPTIONAL, &d_leaf } };
static pb_descriptor_t d_top = { { f_top, COUNT(f_top) } };
static node *m; static pb_journal_t j; static pb_message_t msg;
static pb_error_t on(const pb_field_descriptor_t *f, const void *value, void *user) { (void)value; *(int *)user += (int)f->tag; return PB_ERROR_NONE; }
static void look(void) { sym_check(m_same(m, &j), "the message consists of what its history calls for"); }
void harness(void) {
  m = m_root(&d_top);
  if (sym_range(0, 1)) { node *s = m_addmsg(m, 7, &d_in); if (sym_range(0, 1)) { node *t = m_addmsg(s, 3, &d_leaf); if (sym_range(0, 1)) m_add(t, 1, PB_TYPE_UINT32, V32(sym7())); } }
  if (sym_range(0, 1)) { node *s = m_addmsg(m, 9, &d_leaf); m_add(s, 1, PB_TYPE_UINT32, V32(sym7())); }
  j = m_journal(m);
  msg = pb_message_create(&d_top, &j);
  value_t none; memset(&none, 0, sizeof none); none.s = pb_string_init_empty();
  value_t x = V32(sym7());
  for (int k = 0; k < K; k++) {
    unsigned op = (unsigned)sym_range(0, 9);
    static const pb_tag_t t[] = { 7, 3, 1 };
    node *s = m_find(m, 7), *u = s ? m_find(s, 3) : NULL, *r = u ? m_find(u, 1) : NULL;
    sym_reach((int)op);
    switch (op) {
      case 0: sym_check(pb_message_nested_has(&msg, t, 3) == (r != NULL), "a nested field is present exactly if its branch and itself are"); break;
      case 1: { value_t v; memset(&v, 0, sizeof v); sym_check(pb_message_nested_get(&msg, t, 3, &v) == (r ? PB_ERROR_NONE : PB_ERROR_ABSENT) && (!r || v_same(PB_TYPE_UINT32, &v, r)), "a nested field reads as its value"); break; }
      case 2: sym_check(pb_message_nested_match(&msg, t, 3, &x) == (r && v_same(PB_TYPE_UINT32, &x, r)), "a nested field matches its value"); break;
      case 3: sym_check(pb_message_nested_put(&msg, t, 3, &x) == PB_ERROR_NONE, "a nested field can be written"); m_write(m_slot(m_slot(m, 7), 3), 1, &x); break;
      case 4: sym_check(pb_message_nested_erase(&msg, t, 3) == PB_ERROR_NONE, "a nested field can be erased"); if (u) m_erase(u, 1); break;
      case 5: { pb_field_t h = pb_field_create_nested(&msg, t, 3); sym_check(pb_field_valid(&h), "a nested field can be created");
        node *w = m_slot(m_slot(m_slot(m, 7), 3), 1); if (!w->n) { value_t z = V32(0); m_set(w, PB_TYPE_UINT32, &z); } pb_field_destroy(&h); break; }
      case 6: { pb_cursor_t c = pb_cursor_create_nested(&msg, t, 3); m_slot(m_slot(m, 7), 3); sym_check(pb_cursor_valid(&c) == (r != NULL), "a nested cursor is valid exactly if there is a value"); pb_cursor_destroy(&c); break; }
      case 7: {                              /* strings without data */
        pb_tag_t g = sym_range(0, 1) ? 1 : 2;
        sym_check(pb_message_put(&msg, g, &none) == PB_ERROR_NONE, "an empty string can be written"); m_write(m, g, &none);
        sym_check(pb_message_match(&msg, g, &none), "an empty string matches an empty string");
        value_t full = VS("x", 1);
        if (g == 1) { pb_field_t h = pb_field_create(&msg, 1);
          sym_check(pb_field_put(&h, &full) == PB_ERROR_NONE && pb_field_put(&h, &none) == PB_ERROR_NONE, "a string can be emptied");
          pb_field_destroy(&h); }
        break; }
      case 8: {                              /* encoded */
        pb_encoder_t e = pb_encoder_create(&d_top);
        pb_string_t two[2] = { pb_string_init_empty(), pb_string_const("y") };
        sym_check(pb_encoder_encode(&e, 2, two, 2) == PB_ERROR_NONE && pb_encoder_encode(&e, 1, &none, 1) == PB_ERROR_NONE, "empty strings can be encoded");
        static const uint8_t w[] = { 0x12, 0, 0x12, 1, 'y', 0x0a, 0 };
        sym_check(pb_buffer_size(pb_encoder_buffer(&e)) == sizeof w && !memcmp(pb_buffer_data(pb_encoder_buffer(&e)), w, sizeof w), "empty strings are encoded");
        pb_encoder_destroy(&e); break; }
      case 9: {                              /* a field of tag zero is an unknown field */
        uint8_t w[] = { (uint8_t)(sym_u8() & 7), 0, 0, 0, 0, 0, 0, 0, 0, 0 };
        size_t n = w[0] == 0 || w[0] == 2 ? 2 : w[0] == 1 ? 9 : w[0] == 5 ? 5 : 2;
        int sum = 0;
        pb_buffer_t b = ro_buffer(w, n);
        pb_decoder_t d = pb_decoder_create(&d_top, &b);
        pb_error_t e = pb_decoder_decode(&d, on, &sum);
        sym_check((e == PB_ERROR_NONE) == (w[0] < 3 || w[0] == 5) && sum == 0, "a field of tag zero is skipped");
        pb_validator_t v = pb_validator_create(&d_top);
        sym_check(pb_validator_check(&v, &b) == e, "a field of tag zero is skipped");
        pb_validator_destroy(&v); pb_decoder_destroy(&d); pb_buffer_destroy(&b);
        pb_journal_t jz = pb_journal_create(w, n); pb_message_t mz = pb_message_create(&d_top, &jz);
        sym_check(!pb_message_has(&mz, 1), "a field of tag zero is skipped");
        if (e == PB_ERROR_NONE) sym_check(pb_message_put(&mz, 1, &none) == PB_ERROR_NONE && pb_message_has(&mz, 1), "a field of tag zero is skipped");
        pb_message_destroy(&mz); pb_journal_destroy(&jz); break; }
    }
    look();
  }
  pb_message_destroy(&msg); pb_journal_destroy(&j);
  sym_check(sym_heap_live() == 0, "nothing is leaked");
}
