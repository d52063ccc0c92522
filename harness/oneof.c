/* Oneofs: at most one member is visible, whatever was written in which order. */
#ifdef LONG
#define NODES 1500
#define KIDS 60
#define WIRE 4000
#endif
#include "templates.h"
static node *root; static pb_journal_t j; static pb_message_t msg;
static pb_tag_t member(void) {
  for (int i = root->nk - 1; i >= 0; i--)
    if (m_known(root, root->kid[i]) && root->kid[i]->tag >= 7 && root->kid[i]->tag <= 9) return root->kid[i]->tag;
  return 0;
}
static void look(void) {
  pb_oneof_t o = pb_oneof_create(&o_main, &msg);
  pb_tag_t t = pb_oneof_case(&o);
  sym_check(t == member(), "a oneof tells the member that was written last");
  int seen = 0;
  for (pb_tag_t k = 7; k <= 9; k++) {
    int has = pb_message_has(&msg, k);
    seen += has;
    sym_check(has == (t == k), "exactly the active member of a oneof is visible");
    value_t v; memset(&v, 0, sizeof v);
    if (k != 9) {
      pb_error_t e = pb_message_get(&msg, k, &v);
      sym_check(e == (t == k ? PB_ERROR_NONE : PB_ERROR_ABSENT), "only the active member can be read");
    }
  }
  sym_check(seen == (t != 0), "at most one member is visible");
  sym_reach(t ? (int)t : 0);
  pb_oneof_destroy(&o);
}
void harness(void) {
#ifdef LONG
  lcg = (uint32_t)sym_range(0, SEEDS - 1) * 7919 + FIRST;
#endif
  static const uint8_t tm[] = { 0, 5, 6, 2, 8 };
  root = t_build(tm[CHOICE(COUNT(tm))]);
  j = m_journal(root);
  msg = pb_message_create(&d_main, &j);
  look();
  for (int k = 0; k < K; k++) {
    unsigned op = (unsigned)CHOICE(10);
    sym_reach(20 + (int)op);
    pb_tag_t t = 0;
    switch (op) {
      case 0: { value_t v = V32(sym7()); sym_check(pb_message_put(&msg, t = 7, &v) == PB_ERROR_NONE, "a member can be written"); m_write(root, 7, &v); break; }
      case 1: { value_t v = S2(); sym_check(pb_message_put(&msg, t = 8, &v) == PB_ERROR_NONE, "a member can be written"); m_write(root, 8, &v); break; }
      case 2: { pb_message_t s = pb_message_create_within(&msg, t = 9); value_t v = V32(sym7());
        sym_check(pb_message_put(&s, 1, &v) == PB_ERROR_NONE, "a member message can be written");
        m_write(m_slot(root, 9), 1, &v); pb_message_destroy(&s); break; }
      case 3: t = 7; sym_check(pb_message_erase(&msg, 7) == PB_ERROR_NONE, "a member can be erased"); m_erase(root, 7); t = 0; break;
      case 4: sym_check(pb_message_erase(&msg, 9) == PB_ERROR_NONE, "a member can be erased"); m_erase(root, 9); break;
      case 5: { pb_oneof_t o = pb_oneof_create(&o_main, &msg); pb_error_t e = pb_oneof_clear(&o);
        sym_check(e == PB_ERROR_NONE, "a oneof can be cleared"); m_erase(root, 8);
        sym_check(pb_oneof_case(&o) == 0, "a cleared oneof has no member");
        pb_oneof_destroy(&o); break; }
      case 6: { value_t v = V32(sym7()); sym_check(pb_message_put(&msg, 1, &v) == PB_ERROR_NONE, "an unrelated field can be written"); m_write(root, 1, &v); break; }
      case 7: { value_t v = V64(sym_u64()); sym_check(pb_message_put(&msg, 15, &v) == PB_ERROR_NONE, "an unrelated field can be written"); m_write(root, 15, &v); break; }
      case 8: { value_t v = V32(sym7()); pb_field_t h = pb_field_create(&msg, t = 7);
        sym_check(pb_field_valid(&h), "a member can be created");
        node *r = m_slot(root, 7); if (!r->n) { value_t z = V32(0); m_set(r, PB_TYPE_UINT32, &z); }
        sym_check(pb_field_put(&h, &v) == PB_ERROR_NONE, "a member can be written through a field");
        m_set(r, PB_TYPE_UINT32, &v); pb_field_destroy(&h); break; }
      case 9: { pb_cursor_t c = pb_cursor_create(&msg, 7); node *r = m_find(root, 7);
        sym_check(pb_cursor_valid(&c) == (r != NULL), "a cursor finds the active member");
        if (r) { sym_check(pb_cursor_erase(&c) == PB_ERROR_NONE, "a cursor erases a member"); m_remove(r); }
        pb_cursor_destroy(&c); break; }
    }
    if (t) { pb_oneof_t o = pb_oneof_create(&o_main, &msg); sym_check(pb_oneof_case(&o) == t, "the member written last is the active one"); pb_oneof_destroy(&o); }
    sym_check(m_same(root, &j), "writing a member leaves unrelated fields alone");
  }
  look();
  m_check_reads(root, &msg);
  sym_obs(pb_buffer_size(&j.buffer));
  pb_message_destroy(&msg); pb_journal_destroy(&j);
  sym_check(sym_heap_live() == 0, "nothing is leaked");
}
