/* Operations along a branch of tags are the same as going step by step. */
#ifdef LONG
#define NODES 1500
#define KIDS 60
#define WIRE 4000
#endif
#include "templates.h"
static node *root; static pb_journal_t j; static pb_message_t msg;
void harness(void) {
#ifdef LONG
  lcg = (uint32_t)sym_range(0, SEEDS - 1) * 7919 + FIRST;
#endif
  static const uint8_t tm[] = { 0, 2, 5, 7, 8 };
  static const struct { pb_tag_t t[3]; size_t n; } path[] = {
    { { 3, 1 }, 2 }, { { 3, 2 }, 2 }, { { 3, 4 }, 2 }, { { 3, 3, 1 }, 3 }, { { 3, 3, 2 }, 3 }, { { 9, 1 }, 2 }, { { 9, 2 }, 2 }, { { 9, 3, 1 }, 3 } };
  root = t_build(tm[CHOICE(COUNT(tm))]);
  j = m_journal(root);
  msg = pb_message_create(&d_main, &j);
  for (int k = 0; k < K; k++) {
    size_t p = CHOICE(COUNT(path)), n = path[p].n;
    const pb_tag_t *t = path[p].t;
    node *m = root;
    for (size_t i = 0; m && i + 1 < n; i++) m = m_find(m, t[i]);
    const pb_descriptor_t *d = &d_main;
    for (size_t i = 0; i + 1 < n; i++) d = ref_field(d, t[i])->refer;
    const pb_field_descriptor_t *f = ref_field(d, t[n - 1]);
    node *r = m ? m_find(m, t[n - 1]) : NULL;
    value_t v; memset(&v, 0, sizeof v);
    unsigned op = (unsigned)CHOICE(8);
    sym_reach((int)op + (m ? 10 : 20));
    switch (op) {
      case 0: sym_check(pb_message_nested_has(&msg, t, n) == (r != NULL), "a nested field is present exactly if its branch and itself are"); break;
      case 1: {
        v = VALUE(f->type, 2); int any = 0;
        if (f->label != PB_LABEL_REPEATED) any = r && v_same(f->type, &v, r);
        else for (int i = 0; m && i < m->nk; i++) {
          node *q = m->kid[i];
          if (q->tag != f->tag || !m_known(m, q)) continue;
          if (q->kind == PACKED_REC) for (int e = 0; e < q->nk; e++) any |= v_same(f->type, &v, q->kid[e]); else any |= v_same(f->type, &v, q);
        }
        sym_check(pb_message_nested_match(&msg, t, n, &v) == any, "a nested field matches a value if a visible value equals it"); break; }
      case 2: if (f->label == PB_LABEL_REPEATED) break;
        sym_check(pb_message_nested_get(&msg, t, n, &v) == (r ? PB_ERROR_NONE : PB_ERROR_ABSENT), "a nested field can be read exactly if it is present");
        if (r) { sym_check(v_same(f->type, &v, r), "a nested field reads as its value"); sym_reach(1); }
        break;
      case 3: v = VALUE(f->type, 2);
        sym_check(pb_message_nested_put(&msg, t, n, &v) == PB_ERROR_NONE, "a nested field can be written");
        m = root; for (size_t i = 0; i + 1 < n; i++) m = m_slot(m, t[i]);
        m_write(m, t[n - 1], &v); break;
      case 4: sym_check(pb_message_nested_erase(&msg, t, n) == PB_ERROR_NONE, "a nested field can be erased, present or not");
        if (m) m_erase(m, t[n - 1]); break;
      case 5: {
        pb_cursor_t c = pb_cursor_create_nested(&msg, t, n);   /* creates the branch */
        m = root; for (size_t i = 0; i + 1 < n; i++) m = m_slot(m, t[i]);
        sym_check(pb_cursor_valid(&c) == (r != NULL), "a nested cursor is valid exactly if there is a value");
        if (r) {
          node *first = f->label == PB_LABEL_REPEATED ? m_first(m, f->tag) : r;
          sym_check(pb_cursor_get(&c, &v) == PB_ERROR_NONE && v_same(f->type, &v, first), "a nested cursor starts at the first value"); sym_reach(2);
        }
        pb_cursor_destroy(&c); break; }
      case 6: {
        pb_field_t h = pb_field_create_nested(&msg, t, n);
        sym_check(pb_field_valid(&h), "a nested field can be created");
        m = root; for (size_t i = 0; i + 1 < n; i++) m = m_slot(m, t[i]);
        node *had = f->label == PB_LABEL_REPEATED ? NULL : m_find(m, f->tag);
        r = m_slot(m, f->tag);
        if (!had) { memset(&v, 0, sizeof v); m_set(r, f->type, &v); }
        memset(&v, 0, sizeof v);
        sym_check(pb_field_get(&h, &v) == PB_ERROR_NONE && v_same(f->type, &v, r), "a nested field is created with its value or zero");
        pb_field_destroy(&h); break; }
      case 7: {
        pb_message_t s = pb_message_create_nested(&msg, t, n - 1);
        sym_check(pb_message_valid(&s), "a nested message can be created");
        m = root; for (size_t i = 0; i + 1 < n; i++) m = m_slot(m, t[i]);
        m_check_reads(m, &s);
        pb_message_destroy(&s); break; }
    }
    sym_check(m_same(root, &j), "an operation on a nested field changes what it must and nothing else");
  }
  m_check_reads(root, &msg);
  sym_obs(pb_buffer_size(&j.buffer));
  pb_message_destroy(&msg); pb_journal_destroy(&j);
  sym_check(sym_heap_live() == 0, "nothing is leaked");
}
