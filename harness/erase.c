/* Erasing one field of any message, then reading and writing. */
#include "templates.h"
void harness(void) {
  node *m = t_build((unsigned)sym_range(0, TEMPLATES - 1));
  pb_journal_t j = m_journal(m);
  pb_message_t msg = pb_message_create(&d_main, &j);
  const pb_field_descriptor_t *f = &d_main.field.data[sym_range(0, d_main.field.size - 1)];
  int had = m_first(m, f->tag) != NULL;
  sym_check(pb_message_erase(&msg, f->tag) == PB_ERROR_NONE, "erasing a field succeeds");
  m_erase(m, f->tag);
  sym_check(m_same(m, &j), "erasing a field removes its occurrences and nothing else");
  sym_check(!pb_message_has(&msg, f->tag), "an erased field is absent");
  m_check_reads(m, &msg);
  sym_check(pb_message_erase(&msg, f->tag) == PB_ERROR_NONE, "erasing a field twice succeeds");
  sym_check(m_same(m, &j), "erasing an absent field changes nothing");
  sym_reach(had ? f->label == PB_LABEL_ONEOF ? 1 : f->type == PB_TYPE_MESSAGE ? 2 : f->label == PB_LABEL_REPEATED ? f->flags ? 3 : 4 : 5 : 6);
  /* another edit finds everything in place */
  const pb_field_descriptor_t *g = f;
  if (SECOND) g = &d_main.field.data[sym_range(0, d_main.field.size - 1)];
  if (g->type != PB_TYPE_MESSAGE && !(SECOND && sym_range(0, 1))) {
    value_t v = t_value(g->type, 1);
    sym_check(pb_message_put(&msg, g->tag, &v) == PB_ERROR_NONE, "an erased field can be written again");
    m_write(m, g->tag, &v);
    sym_reach(7);
  } else {
    sym_check(pb_message_erase(&msg, g->tag) == PB_ERROR_NONE, "erasing another field succeeds");
    m_erase(m, g->tag);
    sym_reach(8);
  }
  sym_check(m_same(m, &j), "the message stays editable");
  m_check_reads(m, &msg);
  sym_obs(pb_buffer_size(&j.buffer));
  pb_message_destroy(&msg);
  pb_journal_destroy(&j);
  sym_check(sym_heap_live() == 0, "nothing is leaked");
}
