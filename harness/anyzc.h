/* Messages of any schema over bytes the library does not own: an edit is done in
 * place if the size stays the same, otherwise it fails and changes nothing. */
static uint8_t *mem; static size_t n0;
static void step_zc(node *m, pb_message_t *msg, int depth) {
  const pb_field_descriptor_t *f = any_field(m);
  node *r = m_find(m, f->tag);
  if (f->type == PB_TYPE_MESSAGE) {
    pb_message_t s = pb_message_create_within(msg, f->tag);
    int there = r && f->label != PB_LABEL_REPEATED;
    if (there && f->label == PB_LABEL_ONEOF)          /* others in front of it do not matter, there are none behind it */
      sym_check(pb_message_valid(&s), "the active member of a oneof can be opened");
    else sym_check(pb_message_valid(&s) == there, "a submessage that is there can be opened, others cannot be created");
    if (there && depth) { step_zc(r, &s, depth - 1); sym_reach(50); }
    pb_message_destroy(&s);
    return;
  }
  value_t v = VALUE(f->type, 1);
  static node tmp;
  m_set(&tmp, f->type, &v);
  pb_error_t e = PB_ERROR_NONE; int could = 0;
  switch (pick(4)) {
    case 0:
      could = r && f->label != PB_LABEL_REPEATED && tmp.n == r->n;
      e = pb_message_put(msg, f->tag, &v);
      if (could) m_set(r, f->type, &v);
      sym_reach(51); break;
    case 1: {
      could = m_first(m, f->tag) == NULL;
      if (f->label == PB_LABEL_ONEOF) for (int i = 0; i < m->nk; i++) if (m_known(m, m->kid[i]) && m_member(m, m->kid[i]->tag, f)) could = 0;
      e = pb_message_erase(msg, f->tag);
      sym_reach(52); break; }
    case 2: {
      pb_field_t h = pb_field_create(msg, f->tag);
      int there = r && f->label != PB_LABEL_REPEATED;
      sym_check(pb_field_valid(&h) == there, "a field that is there can be opened, others cannot be created");
      if (there) { e = pb_field_put(&h, &v); could = tmp.n == r->n; if (could) m_set(r, f->type, &v); sym_reach(53); } else could = 1;
      pb_field_destroy(&h); break; }
    case 3: {
      pb_cursor_t c = pb_cursor_create(msg, f->tag);
      int n; nth(m, f->tag, 0, &n);
      if (f->label != PB_LABEL_REPEATED) n = r != NULL;
      sym_check(pb_cursor_valid(&c) == (n > 0), "a cursor is valid exactly if there is a visible value");
      could = 1;
      if (n) {
        int at = (int)pick((unsigned)n), all;
        for (int i = 0; i < at; i++) sym_check(pb_cursor_next(&c), "a cursor moves while there are values");
        node *q = f->label == PB_LABEL_REPEATED ? nth(m, f->tag, at, &all) : r;
        if (pick(3)) { e = pb_cursor_put(&c, &v); could = tmp.n == q->n; if (could) m_set(q, f->type, &v); }
        else { e = pb_cursor_erase(&c); could = 0; }
        sym_reach(54);
      }
      pb_cursor_destroy(&c); break; }
  }
  sym_check((e == PB_ERROR_NONE) == could, "an edit succeeds exactly if the size stays the same");
  sym_check(!e || e == PB_ERROR_ALLOC || e == PB_ERROR_INVALID, "an edit that cannot be done in place reports an error");
  sym_reach(55 + could);
}
void harness(void) {
  lcg = ((uint32_t)sym_range(0, SETS - 1) * 256 + (uint32_t)sym_range(0, SEEDS - 1)) * 7919 + FIRST;
  schema();
  node *m = m_root(&desc[0]);
  fill(m, 2, 1 + pick(12));
  n0 = m_plen(m);
  sym_assume(n0 > 0);
  mem = malloc(n0); m_payload(mem, m);
  pb_journal_t j = pb_journal_create_zero_copy(mem, n0);
  pb_message_t msg = pb_message_create(&desc[0], &j);
  look(m, &msg); iterate(m, &msg);
  for (int k = 0; k < K; k++) {
    step_zc(m, &msg, 2);
    sym_check(pb_buffer_data(&j.buffer) == mem && m_same(m, &j), "bytes that are not owned are edited in place or left alone");
    if (k % 8 == 0) look(m, &msg);
  }
  look(m, &msg);
  sym_obs(n0);
  pb_message_destroy(&msg); pb_journal_destroy(&j); free(mem);
  sym_check(sym_heap_live() == 0, "nothing is leaked, bytes that are not owned are not freed");
}
