/* Cursors: which values they visit, and editing through them. */
#ifdef LONG
#define NODES 1500
#define KIDS 60
#define WIRE 4000
#endif
#include "templates.h"
#define OCC 60
static node *occ[OCC]; static int nocc;
static void occurrences(node *m, pb_tag_t tag) {
  nocc = 0;
  for (int i = 0; i < m->nk; i++) {
    node *r = m->kid[i];
    if (r->tag != tag || !m_known(m, r)) continue;
    if (r->kind == PACKED_REC) for (int k = 0; k < r->nk; k++) occ[nocc++] = r->kid[k];
    else occ[nocc++] = r;
  }
}
static node *root; static pb_journal_t j; static pb_message_t msg;
static void begin(unsigned t) {
  root = t_build(t);
  j = m_journal(root);
  msg = pb_message_create(&d_main, &j);
}
static void end(void) {
  pb_message_destroy(&msg);
  pb_journal_destroy(&j);
  sym_check(sym_heap_live() == 0, "nothing is leaked");
}
/* the cursor is at the value n */
static void at(pb_cursor_t *c, const pb_field_descriptor_t *f, node *n) {
  sym_check(pb_cursor_valid(c) && pb_cursor_error(c) == PB_ERROR_NONE, "a cursor at a value is valid");
  sym_check(pb_cursor_descriptor(c) == f, "a cursor tells the field it is at");
  if (f->type == PB_TYPE_MESSAGE) {
    pb_message_t sub = pb_message_create_from_cursor(c);
    sym_check(pb_message_valid(&sub), "a submessage can be created from a cursor");
    m_check_reads(n, &sub);
    pb_message_destroy(&sub);
    sym_reach(20);
  } else {
    value_t v; memset(&v, 0, sizeof v);
    sym_check(pb_cursor_get(c, &v) == PB_ERROR_NONE, "the value at a cursor can be read");
    sym_check(v_same(f->type, &v, n), "a cursor reads the value it is at");
    sym_check(pb_cursor_match(c, &v), "the value at a cursor matches itself");
    pb_field_t h = pb_field_create_from_cursor(c);
    sym_check(pb_field_valid(&h), "a field can be created from a cursor");
    memset(&v, 0, sizeof v);
    sym_check(pb_field_get(&h, &v) == PB_ERROR_NONE && v_same(f->type, &v, n), "a field created from a cursor has the value the cursor is at");
    pb_field_destroy(&h);
    sym_reach(21);
  }
}
static void over(pb_cursor_t *c, const pb_field_descriptor_t *f) {
  value_t v; memset(&v, 0, sizeof v);
  sym_check(pb_cursor_error(c) == PB_ERROR_EOM, "a cursor past the last value reports the end of the message");
  sym_check(!pb_cursor_next(c), "a cursor at the end does not move");
  if (f->type != PB_TYPE_MESSAGE) {
    sym_check(pb_cursor_get(c, &v) == PB_ERROR_INVALID, "there is nothing to read past the last value");
    sym_check(!pb_cursor_match(c, &v), "there is nothing to match past the last value");
    sym_check(!pb_cursor_seek(c, &v), "there is nothing to find past the last value");
    pb_field_t h = pb_field_create_from_cursor(c);
    sym_check(!pb_field_valid(&h), "no field is created past the last value");
    pb_field_destroy(&h);
    sym_check(pb_cursor_put(c, &v) == PB_ERROR_INVALID, "there is nothing to write past the last value");
  } else {
    pb_message_t sub = pb_message_create_from_cursor(c);
    sym_check(!pb_message_valid(&sub), "no message is created past the last value");
    pb_message_destroy(&sub);
  }
  sym_check(pb_cursor_erase(c) == PB_ERROR_INVALID, "there is nothing to erase past the last value");
}
#ifdef C_ITER
void harness(void) {
  begin((unsigned)sym_range(0, TEMPLATES - 1));
  const pb_field_descriptor_t *f = &d_main.field.data[sym_range(0, d_main.field.size - 1)];
  pb_tag_t tag = f->tag;
  occurrences(root, tag);
  pb_cursor_t c = pb_cursor_create(&msg, tag);
  if (f->label == PB_LABEL_REPEATED) {
    for (int i = 0; i < nocc; i++) {
      at(&c, f, occ[i]);
      sym_check(pb_cursor_next(&c) == (i + 1 < nocc), "a cursor moves while there are values");
      sym_reach(1);
    }
  } else {
    node *n = m_find(root, tag);
    if (n) { at(&c, f, n); sym_check(!pb_cursor_next(&c), "of an optional field only the last value is visited"); sym_reach(2); }
  }
  over(&c, f);
  /* rewinding visits every occurrence */
  sym_check(pb_cursor_rewind(&c) == (nocc > 0), "a rewound cursor is at a value if there is one");
  for (int i = 0; i < nocc; i++) {
    at(&c, f, occ[i]);
    sym_check(pb_cursor_next(&c) == (i + 1 < nocc), "a rewound cursor visits all values in order");
    sym_reach(3);
  }
  over(&c, f);
  pb_cursor_destroy(&c);
  sym_check(!pb_cursor_valid(&c), "a destroyed cursor is invalid");
  /* seeking */
  if (f->type != PB_TYPE_MESSAGE && nocc) {
    value_t v = t_value(f->type, 2);
    pb_cursor_t s = pb_cursor_create(&msg, tag);
    int from = 0;
    if (f->label != PB_LABEL_REPEATED) { if (pb_cursor_rewind(&s)) sym_reach(7); }
    sym_check(pb_cursor_match(&s, &v) == v_same(f->type, &v, occ[0]), "a cursor matches exactly values equal to the one it is at");
    for (;;) {
      int i = from + 1;
      while (i < nocc && !v_same(f->type, &v, occ[i])) i++;
      int found = pb_cursor_seek(&s, &v);
      sym_check(found == (i < nocc), "seeking finds the next equal value");
      if (!found) break;
      at(&s, f, occ[i]);
      from = i;
      sym_reach(4);
    }
    sym_check(pb_cursor_error(&s) == PB_ERROR_EOM, "seeking stops at the end of the message");
    pb_cursor_destroy(&s);
    sym_reach(5);
    /* a message matches a value of a repeated field if any of its values equals it */
    int any = 0;
    if (f->label == PB_LABEL_REPEATED) for (int i = 0; i < nocc; i++) any |= v_same(f->type, &v, occ[i]);
    else { node *n = m_find(root, tag); any = n && v_same(f->type, &v, n); }
    sym_check(pb_message_match(&msg, tag, &v) == any, "a message matches a value if a visible value equals it");
  }
  sym_check(m_same(root, &j), "reading changes nothing");
  end();
}
#endif
#ifdef C_NESTED
/* cursors over messages within messages */
void harness(void) {
  begin(7);
  static const struct { pb_tag_t t[3]; size_t n; } path[] = { { { 3, 1 }, 2 }, { { 3, 2 }, 2 }, { { 3, 3 }, 2 }, { { 3, 4 }, 2 }, { { 3, 3, 1 }, 3 }, { { 3, 3, 2 }, 3 } };
  size_t k = sym_range(0, COUNT(path) - 1);
  node *m = m_find(root, 3);
  if (path[k].n == 3) m = m_find(m, 3);
  pb_tag_t tag = path[k].t[path[k].n - 1];
  const pb_field_descriptor_t *f = ref_field(m->desc, tag);
  occurrences(m, tag);
  pb_cursor_t c = pb_cursor_create_nested(&msg, path[k].t, path[k].n);
  for (int i = 0; i < nocc; i++) {
    at(&c, f, occ[i]);
    sym_check(pb_cursor_next(&c) == (i + 1 < nocc), "a nested cursor visits the values of the nested message");
    sym_reach((int)k);
  }
  over(&c, f);
  pb_cursor_destroy(&c);
  /* submessages of a repeated field, with their own cursors */
  occurrences(root, 10);
  node *sub[OCC]; int nsub = nocc;
  for (int i = 0; i < nsub; i++) sub[i] = occ[i];
  c = pb_cursor_create(&msg, 10);
  for (int i = 0; i < nsub; i++) {
    pb_message_t s = pb_message_create_from_cursor(&c);
    pb_cursor_t d = pb_cursor_create(&s, 2);
    occurrences(sub[i], 2);
    for (int q = 0; q < nocc; q++) {
      at(&d, ref_field(&d_leaf, 2), occ[q]);
      sym_check(pb_cursor_next(&d) == (q + 1 < nocc), "a cursor stays within its message");
      sym_reach(10);
    }
    over(&d, ref_field(&d_leaf, 2));
    pb_cursor_destroy(&d); pb_message_destroy(&s);
    sym_check(pb_cursor_next(&c) == (i + 1 < nsub), "a cursor over submessages visits all of them");
  }
  pb_cursor_destroy(&c);
  sym_check(m_same(root, &j), "reading changes nothing");
  end();
}
#endif
#ifdef C_EDIT
/* editing while iterating: writing and erasing through a cursor, and through
   the message in between */
void harness(void) {
#ifdef LONG
  lcg = (uint32_t)sym_range(0, SEEDS - 1) * 7919 + FIRST;
#endif
  static const pb_tag_t tags[] = { 1, 2, 3, 4, 5, 10, 11 };
  static const uint8_t tmpl[] = { 2, 2, 2, 3, 3, 7, 3, 4, 8 };
  size_t w = sym_range(0, COUNT(tags) + 1);
  pb_tag_t tag = w < COUNT(tags) ? tags[w] : w == COUNT(tags) ? 5 : 4;
  begin(tmpl[w]);
  const pb_field_descriptor_t *f = ref_field(&d_main, tag);
  pb_cursor_t c = pb_cursor_create(&msg, tag);
  if (f->label != PB_LABEL_REPEATED) sym_check(pb_cursor_rewind(&c), "a cursor can be rewound");
  occurrences(root, tag);
  node *cur = occ[0], *nxt = NULL; int eom = 0;
  #ifdef LONG
  int steps = K;
#else
  int steps = (int)sym_range(1, K);
#endif
  for (int k = 0; k < steps; k++) {
    #ifdef LONG
    unsigned op = (unsigned)CHOICE(7);
#else
    unsigned op = (unsigned)CHOICE(6);
#endif
    sym_reach((int)op);
    pb_error_t e;
    switch (op) {
      case 0: {                                           /* next */
        node *to = nxt;
        if (cur) { occurrences(root, tag); to = NULL; for (int i = 0; i + 1 < nocc; i++) if (occ[i] == cur) to = occ[i + 1]; }
        int r = pb_cursor_next(&c);
        if (eom) { sym_check(!r, "a cursor at the end does not move"); break; }
        sym_check(r == (to != NULL), "a cursor visits every value left");
        cur = to; nxt = NULL;
        if (!to) eom = 1;
        break; }
      case 1: {                                           /* write */
        if (f->type == PB_TYPE_MESSAGE) {
          node *src = m_root(f->refer);
          m_add(src, 1, PB_TYPE_UINT32, V32(CHOICE(2) ? 300 : sym7()));
          pb_journal_t j2 = m_journal(src);
          pb_message_t sub = pb_message_create(f->refer, &j2);
          e = pb_cursor_put(&c, &sub);
          if (cur) { for (int i = 0; i < cur->nk; i++) m_kill(cur->kid[i]); cur->nk = 0; m_insert(cur, 0, src->kid[0]); }
          pb_message_destroy(&sub); pb_journal_destroy(&j2);
        } else {
          value_t v = VALUE(f->type, 2);
#ifndef LONG
          if (ref_size(f->type) == 4 && ref_wiretype(f->type) == 0) sym_assume(v.u32 < 16384);
#endif
          e = pb_cursor_put(&c, &v);
          if (cur) m_set(cur, f->type, &v);
        }
        sym_check(e == (cur ? PB_ERROR_NONE : PB_ERROR_INVALID), "a cursor writes the value it is at, if any");
        break; }
      case 2: {                                           /* erase */
        e = pb_cursor_erase(&c);
        sym_check(e == (cur ? PB_ERROR_NONE : PB_ERROR_INVALID), "a cursor erases the value it is at, if any");
        if (cur) {
          occurrences(root, tag); nxt = NULL;
          for (int i = 0; i + 1 < nocc; i++) if (occ[i] == cur) nxt = occ[i + 1];
          m_remove(cur); cur = NULL;
        }
        break; }
      case 3:                                             /* rewind */
        occurrences(root, tag);
        sym_check(pb_cursor_rewind(&c) == (nocc > 0), "a cursor can be rewound at any time");
        cur = nocc ? occ[0] : NULL; nxt = NULL; eom = !nocc;
        break;
      case 4: {                                           /* something in front or behind changes size */
        pb_tag_t t = tag == 1 || !m_find(root, 1) ? 12 : 1;
        if (CHOICE(2)) t = 12;
        if (!m_find(root, t)) break;
#ifdef LONG
        value_t v = VALUE(ref_field(&d_main, t)->type, 0);
#else
        value_t v = t == 1 ? V32(sym_u32()) : V64(sym_u64()); sym_assume(t == 1 ? v.u32 < 16384 : v.u64 < 8192);
#endif
        sym_check(pb_message_put(&msg, t, &v) == PB_ERROR_NONE, "writing another field succeeds");
        m_write(root, t, &v);
        break; }
      case 5: {                                           /* another field is erased */
        pb_tag_t t = tag == 1 ? 2 : 1;
        if (CHOICE(2)) t = tag == 5 ? 4 : 5;
        sym_check(pb_message_erase(&msg, t) == PB_ERROR_NONE, "erasing another field succeeds");
        m_erase(root, t);
        break; }
#ifdef LONG
      case 6:                                             /* a value is added, then everything again */
        if (f->type == PB_TYPE_MESSAGE) {
          pb_message_t s = pb_message_create_within(&msg, tag);
          sym_check(pb_message_valid(&s), "a submessage can be created");
          node *w = m_slot(root, tag); value_t v = VALUE(PB_TYPE_UINT32, 0);
          sym_check(pb_message_put(&s, 1, &v) == PB_ERROR_NONE, "writing to a submessage succeeds");
          m_write(w, 1, &v); pb_message_destroy(&s);
        } else {
          value_t v = VALUE(f->type, 2);
          sym_check(pb_message_put(&msg, tag, &v) == PB_ERROR_NONE, "adding a value succeeds");
          m_write(root, tag, &v);
        }
        sym_check(pb_cursor_rewind(&c), "a cursor can be rewound at any time");
        occurrences(root, tag); cur = occ[0]; nxt = NULL; eom = 0;
        break;
#endif
    }
    sym_check(m_same(root, &j), "an edit through a cursor changes the value it is at only");
    if (k + 1 < steps) continue;   /* reading aligns the cursor: only at the end */
    if (cur) at(&c, f, cur);
    else if (eom) sym_check(pb_cursor_error(&c) == PB_ERROR_EOM, "a cursor past the last value reports the end of the message");
    else if (f->type != PB_TYPE_MESSAGE) {
      value_t v; memset(&v, 0, sizeof v);
      sym_check(pb_cursor_get(&c, &v) == PB_ERROR_INVALID && !pb_cursor_match(&c, &v), "an erased value cannot be read");
      sym_reach(8);
    }
    sym_obs(pb_buffer_size(&j.buffer));
  }
  pb_cursor_destroy(&c);
  end();
}
#endif
