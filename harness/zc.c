/* Messages over bytes the library does not own: in place or not at all. */
#include "templates.h"
static uint8_t before[WIRE], after[WIRE]; static size_t n0;
static node *root; static pb_journal_t j; static pb_message_t msg; static uint8_t *mem;
/* the outcome of an edit; could: it can be done in place */
static void outcome(pb_error_t e, int could) {
  sym_check(pb_buffer_size(&j.buffer) == n0 && pb_buffer_data(&j.buffer) == mem, "bytes that are not owned are neither moved nor resized");
  uint8_t diff = 0;
  if (e == PB_ERROR_NONE) {
    size_t n = m_plen(root);
    sym_check(n == n0, "an edit that would change the size is reported");
    m_payload(after, root);
    for (size_t i = 0; i < n; i++) diff |= after[i] ^ mem[i];
    sym_check(!diff, "an edit that succeeds is done in place");
    sym_reach(0);
  } else {
    sym_check(e == PB_ERROR_ALLOC || e == PB_ERROR_INVALID, "an edit that cannot be done in place reports an error");
    for (size_t i = 0; i < n0; i++) diff |= before[i] ^ mem[i];
    sym_check(!diff, "an edit that fails changes nothing");
    sym_check(!could, "an edit that keeps the size succeeds");
    sym_reach(1);
  }
}
static void save(void) { memcpy(before, mem, n0); }
void harness(void) {
  root = t_build((unsigned)sym_range(1, TEMPLATES - 1));
  n0 = m_plen(root);
  mem = malloc(n0); m_payload(mem, root);
  j = pb_journal_create_zero_copy(mem, n0);
  msg = pb_message_create(&d_main, &j);
  m_check_reads(root, &msg);
  for (int k = 0; k < K; k++) {
    const pb_field_descriptor_t *f = &d_main.field.data[sym_range(0, d_main.field.size - 1)];
    node *r = m_find(root, f->tag);
    unsigned op = (unsigned)sym_range(0, 9);
    pb_error_t e = PB_ERROR_NONE; int could = 0;
    save(); sym_reach(10 + (int)op);
    switch (op) {
      case 0: if (f->type == PB_TYPE_MESSAGE) return; {        /* write a value */
        value_t v = t_value(f->type, 2); size_t was = r ? r->n : 0;
        e = pb_message_put(&msg, f->tag, &v);
        int late = f->label == PB_LABEL_ONEOF;                 /* may supersede other members first */
        node *w = m_write(root, f->tag, &v);
        could = f->label != PB_LABEL_REPEATED && r && w == r && w->n == was && !late;
        break; }
      case 1: e = pb_message_erase(&msg, f->tag); could = m_first(root, f->tag) == NULL && f->label != PB_LABEL_ONEOF; m_erase(root, f->tag);
        sym_check(e == PB_ERROR_NONE || e == PB_ERROR_ALLOC, "an edit that cannot be done in place reports an allocation error");
        break;
      case 2: {                                                /* through a field */
        if (f->type == PB_TYPE_MESSAGE || !r || f->label == PB_LABEL_REPEATED) return;
        pb_field_t h = pb_field_create(&msg, f->tag);
        if (f->label == PB_LABEL_ONEOF && !pb_field_valid(&h)) { pb_field_destroy(&h); return; }
        sym_check(pb_field_valid(&h), "a present field can be opened");
        value_t v = t_value(f->type, 2); size_t was = r->n;
        e = pb_field_put(&h, &v); m_set(r, f->type, &v); could = was == r->n; pb_field_destroy(&h);
        sym_check(e == PB_ERROR_NONE || e == PB_ERROR_ALLOC, "an edit that cannot be done in place reports an allocation error");
        break; }
      case 3: {
        if (f->type == PB_TYPE_MESSAGE || !r || f->label != PB_LABEL_OPTIONAL) return;
        pb_field_t h = pb_field_create(&msg, f->tag);
        e = pb_field_clear(&h); pb_field_destroy(&h); m_remove(r); break; }
      case 4: {                                                /* create what is absent */
        if (f->type != PB_TYPE_MESSAGE) {
          pb_field_t h = pb_field_create(&msg, f->tag);
          int valid = pb_field_valid(&h);
          if (f->label != PB_LABEL_ONEOF) sym_check(valid == (r && f->label != PB_LABEL_REPEATED), "a field cannot be created in place");
          pb_field_destroy(&h);
          if (valid && !r) sym_fail("an absent field was created in place");
          outcome(PB_ERROR_NONE, 1); }
        else { pb_message_t s = pb_message_create_within(&msg, f->tag);
          int valid = pb_message_valid(&s);
          if (f->label != PB_LABEL_ONEOF) sym_check(valid == (r && f->label != PB_LABEL_REPEATED), "a submessage cannot be created in place");
          pb_message_destroy(&s); outcome(PB_ERROR_NONE, 1); }
        continue; }
      case 5: case 6: {                                        /* cursor: write or erase the n-th value */
        pb_cursor_t c = pb_cursor_create(&msg, f->tag);
        if (!pb_cursor_valid(&c) || f->type == PB_TYPE_MESSAGE) { pb_cursor_destroy(&c); return; }
        node *at = r;
        if (f->label == PB_LABEL_REPEATED) { at = m_first(root, f->tag); if (sym_range(0, 1)) { while (pb_cursor_next(&c)); sym_check(pb_cursor_rewind(&c), "a cursor can be rewound"); } }
        if (op == 5) { value_t v = t_value(f->type, 2); size_t was = at->n; e = pb_cursor_put(&c, &v); m_set(at, f->type, &v); could = was == at->n; }
        else { e = pb_cursor_erase(&c); m_remove(at); }
        sym_check(e == PB_ERROR_NONE || e == PB_ERROR_ALLOC, "an edit that cannot be done in place reports an allocation error");
        pb_cursor_destroy(&c); break; }
      case 7: case 8: {                                        /* along a branch */
        static const pb_tag_t t[][3] = { { 3, 1, 0 }, { 3, 2, 0 }, { 3, 3, 1 }, { 9, 1, 0 } };
        size_t b = sym_range(0, 3), n = t[b][2] ? 3 : 2;
        node *m = root; for (size_t i = 0; m && i + 1 < n; i++) m = m_find(m, t[b][i]);
        node *q = m ? m_find(m, t[b][n - 1]) : NULL; size_t was = q ? q->n : 0;
        if (op == 7) {
          pb_type_t ty = b == 1 ? PB_TYPE_STRING : PB_TYPE_UINT32;
          value_t v = t_value(ty, 2);
          e = pb_message_nested_put(&msg, t[b], n, &v);
          m = root; for (size_t i = 0; i + 1 < n; i++) m = m_slot(m, t[b][i]);
          node *w = m_write(m, t[b][n - 1], &v);
          could = q && w == q && was == w->n && t[b][0] != 9;
        } else { e = pb_message_nested_erase(&msg, t[b], n); could = !q; if (m) m_erase(m, t[b][n - 1]); }
        break; }
      case 9: {                                                /* replace a submessage */
        if (f->type != PB_TYPE_MESSAGE || !r || f->label == PB_LABEL_REPEATED) return;
        node *src = m_root(f->refer); m_add(src, 1, PB_TYPE_UINT32, V32(sym_range(0, 1) ? 300 : sym7()));
        pb_journal_t j2 = m_journal(src); pb_message_t s = pb_message_create(f->refer, &j2);
        size_t was = m_plen(r);
        e = pb_message_put(&msg, f->tag, &s);
        r = m_slot(root, f->tag); for (int i = 0; i < r->nk; i++) m_kill(r->kid[i]); r->nk = 0; m_insert(r, 0, src->kid[0]);
        could = was == m_plen(r) && f->label != PB_LABEL_ONEOF;
        pb_message_destroy(&s); pb_journal_destroy(&j2); break; }
    }
    outcome(e, could);
    if (e) { k = K; break; }
  }
  sym_obs(n0);
  pb_message_destroy(&msg); pb_journal_destroy(&j);
  free(mem);
  sym_check(sym_heap_live() == 0, "nothing is leaked, bytes that are not owned are not freed");
}
