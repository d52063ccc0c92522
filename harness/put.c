/* Writing one field of any message, then reading all of them. */
#include "templates.h"
#ifdef OWN
/* writing a string read from the same message, or a part of it */
void harness(void) {
  static uint8_t wire[WIRE];
  ACCT(a);
  node *m = t_build((unsigned)sym_range(0, TEMPLATES - 1));
  if (sym_range(0, 1)) m_add(m, 8, PB_TYPE_STRING, S2());
  if (!m_plen(m)) m_add(m, 2, PB_TYPE_STRING, S2());
  size_t n = m_payload(wire, m);
  pb_journal_t j = pb_journal_create_with_allocator(&a_alloc, wire, n);
  pb_message_t msg = pb_message_create(&d_main, &j), in = pb_message_create_within(&msg, 3);
  node *s = m_slot(m, 3);
  value_t v, c;
  int ok = sym_range(0, 1) ? m_own(s, &in, 0, &v, &c) : m_own(m, &msg, (unsigned)sym_range(0, 1), &v, &c);
  sym_assume(ok);
  if (v.s.size && sym_range(0, 1)) { v.s.data++; v.s.size--; c.s.data++; c.s.size--; }
  int how = (int)sym_range(0, 6);
  long fail = (long)sym_range(0, 5);
  if (fail < 5) a.fail_at = a.calls + fail;
  pb_error_t e = PB_ERROR_NONE;
  switch (how) {
    case 0: e = pb_message_put(&msg, 2, &v); m_write(m, 2, &c); break;
    case 1: e = pb_message_put(&msg, 8, &v); m_write(m, 8, &c); break;
    case 2: e = pb_message_put(&in, 2, &v); m_write(s, 2, &c); break;
    case 3: { node *r = m_find(m, 2); sym_assume(r != NULL); pb_field_t h = pb_field_create(&msg, 2); e = pb_field_put(&h, &v); m_set(r, PB_TYPE_STRING, &c); pb_field_destroy(&h); break; }
    case 4: { node *r = m_find(m, 8); sym_assume(r != NULL); pb_cursor_t h = pb_cursor_create(&msg, 8); e = pb_cursor_put(&h, &v); m_set(r, PB_TYPE_STRING, &c); pb_cursor_destroy(&h); break; }
    default: { pb_tag_t t[] = { how == 5 ? 3 : 9, 2 }; e = pb_message_nested_put(&msg, t, 2, &v); m_write(m_slot(m, t[0]), 2, &c); break; }
  }
  if (a.fail_at < 0 || a.calls <= a.fail_at) {
    sym_check(e == PB_ERROR_NONE, "writing a string of the message itself succeeds");
    sym_check(m_same(m, &j), "a string of the message itself is written as it was");
    m_check_reads(m, &msg);
    sym_reach(how);
  } else {
    sym_check(e == PB_ERROR_NONE ? m_same(m, &j) : e == PB_ERROR_ALLOC || e == PB_ERROR_INVALID, "a failed allocation is reported");
    sym_reach(8 + (e != PB_ERROR_NONE));
  }
  sym_obs(pb_buffer_size(&j.buffer));
  pb_message_destroy(&in); pb_message_destroy(&msg); pb_journal_destroy(&j);
  sym_check(a.live == 0 && sym_heap_live() == 0, "nothing is leaked");
}
#else
void harness(void) {
  node *m = t_build((unsigned)sym_range(0, TEMPLATES - 1));
  pb_journal_t j = m_journal(m);
  pb_message_t msg = pb_message_create(&d_main, &j);
  sym_check(pb_message_valid(&msg), "a message over any journal is valid");
  m_check_reads(m, &msg);
  for (int k = 0; k < PUTS; k++) {
    const pb_field_descriptor_t *f = &d_main.field.data[sym_range(0, d_main.field.size - 1)];
    if (f->type == PB_TYPE_MESSAGE) {
      /* empty, with a field, a part of another message */
      unsigned how = (unsigned)sym_range(0, 2);
      node *top = m_root(how == 2 ? &d_main : f->refer), *src = top;
      if (how == 2) { m_add(top, 1, PB_TYPE_UINT32, V32(300)); src = m_addmsg(top, f->tag, f->refer); }
      if (how) m_add(src, 1, PB_TYPE_UINT32, V32(sym7()));
      if (how == 2) m_add(top, 20, PB_TYPE_ENUM, V32(1));
      pb_journal_t j2 = m_journal(top);
      pb_message_t sub = pb_message_create(top->desc, &j2);
      if (how == 2) { pb_cursor_t c = pb_cursor_create(&sub, f->tag); pb_message_destroy(&sub); sub = pb_message_create_from_cursor(&c); pb_cursor_destroy(&c); }
      sym_check(pb_message_put(&msg, f->tag, &sub) == PB_ERROR_NONE, "writing a submessage succeeds");
      node *r = m_slot(m, f->tag);
      r->nk = 0; if (src->nk) m_insert(r, 0, src->kid[0]);
      pb_message_destroy(&sub); pb_journal_destroy(&j2);
      sym_reach(1);
    } else {
      value_t v = t_value(f->type, k ? 2 : 6);
      sym_check(pb_message_put(&msg, f->tag, &v) == PB_ERROR_NONE, "writing a field succeeds");
      m_write(m, f->tag, &v);
      sym_reach(f->label == PB_LABEL_REPEATED ? f->flags ? 3 : 4 : f->label == PB_LABEL_ONEOF ? 5 : 2);
    }
    sym_check(m_same(m, &j), "writing a field changes that field only");
    sym_check(pb_message_valid(&msg), "a message stays valid");
    sym_obs(pb_buffer_size(&j.buffer));
  }
  m_check_reads(m, &msg);
  pb_message_destroy(&msg);
  pb_journal_destroy(&j);
  sym_check(sym_heap_live() == 0, "nothing is leaked");
}
#endif
