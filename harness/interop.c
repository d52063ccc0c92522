/* Encoder, decoder, validator and messages agree on the same bytes. */
#ifdef LONG
#define NODES 1000
#define KIDS 60
#define WIRE 4000
#else
#define NODES 60
#endif
#define PAYLOAD 20
#include "edits.h"

#ifdef X_EDITS
void harness(void) {
#ifdef LONG
  lcg = (uint32_t)sym_range(0, SEEDS - 1) * 7919 + FIRST;
#endif
  node *m = t_build((unsigned)CHOICE(TEMPLATES));
  pb_journal_t j = m_journal(m);
  pb_message_t msg = pb_message_create(&d_main, &j);
  if (CHOICE(2)) {                     /* and the required fields */
    value_t v = V32(5); pb_message_put(&msg, 6, &v); m_write(m, 6, &v);
    v = V64(sym7()); pb_message_put(&msg, 12, &v); m_write(m, 12, &v);
  }
  for (int k = 0; k < K; k++) {
    edit(m, &msg);
#ifdef LONG
    if (m->nk && k % 4 == 0) agree(m, pb_journal_buffer(&j));
#endif
  }
  sym_check(m_same(m, &j), "edits have their documented effect");
  if (m->nk) agree(m, pb_journal_buffer(&j));
  sym_check(m_same(m, &j), "decoding and validation change nothing");
  sym_obs(pb_buffer_size(&j.buffer));
  pb_message_destroy(&msg); pb_journal_destroy(&j);
  sym_check(sym_heap_live() == 0, "nothing is leaked");
}
#endif
#ifdef X_ENC
void harness(void) {
#ifdef LONG
  lcg = (uint32_t)sym_range(0, SEEDS - 1) * 7919 + FIRST;
#endif
  node *m = m_root(&d_main);
  pb_encoder_t e = pb_encoder_create(&d_main);
  encode(m, &e, 0, FIELDS);
  const pb_buffer_t *b = pb_encoder_buffer(&e);
  agree(m, b);
  pb_journal_t j = pb_journal_create(pb_buffer_data(b), pb_buffer_size(b));
  sym_check(m_same(m, &j), "encoded values are the records of a message");
  pb_encoder_destroy(&e);
  pb_message_t msg = pb_message_create(&d_main, &j);
  m_check_reads(m, &msg);
  if (EDIT) { edit(m, &msg); if (m->nk) agree(m, pb_journal_buffer(&j)); sym_check(m_same(m, &j), "an encoded message can be edited"); }
  sym_obs(pb_buffer_size(&j.buffer));
  pb_message_destroy(&msg); pb_journal_destroy(&j);
  sym_check(sym_heap_live() == 0, "nothing is leaked");
}
#endif
