/* Histories of operations through several live handles of one message tree. */
#ifdef BIG
#define WIRE 70000
#define STR_MAX 66000
#else
#define STR_MAX 200
#endif
#ifdef LONG
#define NODES 1000
#define KIDS 40
#define PAYLOAD 20
#define WIRE 2000
#endif
#include "templates.h"

typedef struct { node *n; pb_message_t m; } mh;
typedef struct { node *n; const pb_field_descriptor_t *f; pb_field_t h; } fh;
static node *root; static pb_journal_t j;
static mh H[4]; static fh F[4];

/* everything a live handle can see agrees with the model; a handle of something
 * erased reports an error */
static void look_message(mh *h) {
  if (!h->n) return;
  if (h->n->alive) {
    sym_check(pb_message_valid(&h->m), "a handle of an existing message is valid");
    m_check_reads(h->n, &h->m);
    sym_reach(40);
  } else {
    uint32_t v;
    sym_check(pb_message_get(&h->m, 1, &v) == PB_ERROR_INVALID, "a handle of an erased message reports an error");
    sym_check(!pb_message_has(&h->m, 1), "a handle of an erased message has nothing");
    sym_reach(41);
  }
}
static void look_field(fh *h) {
  if (!h->n) return;
  value_t v; memset(&v, 0, sizeof v);
  pb_error_t e = pb_field_get(&h->h, &v);
  if (h->n->alive) {
    sym_check(e == PB_ERROR_NONE, "a handle of an existing field can be read");
    sym_check(v_same(h->f->type, &v, h->n), "a handle of a field keeps denoting that field");
    sym_reach(42);
  } else {
    sym_check(e == PB_ERROR_INVALID, "a handle of an erased field reports an error");
    sym_reach(43);
  }
}
static int eager;                          /* look after every step, or only at the end: looking aligns handles */
static void look(void) {
  sym_check(m_same(root, &j), "the message consists of exactly the bytes the history calls for");
  for (int i = 0; i < 4; i++) look_message(&H[i]);
  for (int i = 0; i < 4; i++) look_field(&F[i]);
  sym_obs(pb_buffer_size(&j.buffer));
}
static void put(mh *h, pb_tag_t tag, value_t v) {
  int alive = h->n->alive;
  pb_error_t e = pb_message_put(&h->m, tag, &v);
  if (alive) { sym_check(e == PB_ERROR_NONE, "writing a field of an existing message succeeds"); m_write(h->n, tag, &v); }
  else sym_check(e == PB_ERROR_INVALID, "writing to an erased message reports an error");
}
static void erase(mh *h, pb_tag_t tag) {
  int alive = h->n->alive;
  pb_error_t e = pb_message_erase(&h->m, tag);
  if (alive) { sym_check(e == PB_ERROR_NONE, "erasing a field of an existing message succeeds"); m_erase(h->n, tag); }
  else sym_check(e == PB_ERROR_INVALID || e == PB_ERROR_NONE, "erasing from an erased message does nothing");
}
static void within(mh *out, mh *h, pb_tag_t tag) {
  int alive = h->n->alive;
  out->m = pb_message_create_within(&h->m, tag);
  if (alive) { sym_check(pb_message_valid(&out->m), "creating a submessage of an existing message succeeds"); out->n = m_slot(h->n, tag); }
  else { sym_check(!pb_message_valid(&out->m), "creating a submessage of an erased message yields an invalid one"); out->n = NULL; }
}
static void field(fh *out, mh *h, pb_tag_t tag) {
  int alive = h->n->alive, fresh = 0;
  out->f = ref_field(h->n->desc, tag);
  out->h = pb_field_create(&h->m, tag);
  if (!alive) { sym_check(!pb_field_valid(&out->h), "creating a field of an erased message yields an invalid one"); out->n = NULL; return; }
  sym_check(pb_field_valid(&out->h), "creating a field of an existing message succeeds");
  node *before = out->f->label != PB_LABEL_REPEATED ? m_find(h->n, tag) : NULL;
  out->n = m_slot(h->n, tag);
  fresh = !before && !out->n->n;
  if (fresh) {
    value_t v; memset(&v, 0, sizeof v);
    if (out->f->label != PB_LABEL_ONEOF && out->f->value) memcpy(&v, out->f->value, ref_wiretype(out->f->type) == 2 ? sizeof(pb_string_t) : ref_size(out->f->type));
    m_set(out->n, out->f->type, &v);
  }
}
static void field_put(fh *h, value_t v) {
  if (!h->n) return;
  pb_error_t e = pb_field_put(&h->h, &v);
  if (h->n->alive) { sym_check(e == PB_ERROR_NONE, "writing through a field handle succeeds"); m_set(h->n, h->f->type, &v); }
  else sym_check(e == PB_ERROR_INVALID, "writing through a handle of an erased field reports an error");
}
static void field_clear(fh *h) {
  if (!h->n) return;
  pb_error_t e = pb_field_clear(&h->h);
  if (h->n->alive) { sym_check(e == PB_ERROR_NONE, "clearing through a field handle succeeds"); m_remove(h->n); }
  else sym_check(e == PB_ERROR_INVALID, "clearing through a handle of an erased field reports an error");
}
static void message_clear(mh *h) {
  if (!h->n) return;
  pb_error_t e = pb_message_clear(&h->m);
  if (h->n->alive) { sym_check(e == PB_ERROR_NONE, "clearing through a message handle succeeds"); m_remove(h->n); }
  else sym_check(e == PB_ERROR_INVALID, "clearing through a handle of an erased message reports an error");
}
static void begin(void) {
  j = m_journal(root);
  H[0].n = root; H[0].m = pb_message_create(&d_main, &j);
}
static value_t str(size_t n) {
  static uint8_t b[STR_MAX];
  for (size_t i = 0; i < n; i++) b[i] = i < 2 ? sym_u8() : FILL(i);
  return VS((char *)b, n);
}
static void end(void) {
  for (int i = 0; i < 4; i++) { if (H[i].n) pb_message_destroy(&H[i].m); if (F[i].n) pb_field_destroy(&F[i].h); }
  pb_journal_destroy(&j);
  sym_check(sym_heap_live() == 0, "nothing is leaked");
}

#ifdef LENGTHS
/* nested length prefixes: three levels, sizes around the one/two byte boundary */
void harness(void) {
#ifdef BIG
  static const uint32_t pad[] = { 0, 16367, 16373, 16377 };
#else
  static const uint8_t pad[] = { 0, 112, 118, 122 };
#endif
  root = m_root(&d_main);
  size_t p = pad[sym_range(0, PADS)];
  if (p) {
    node *s = m_addmsg(root, 3, &d_in), *t = m_addmsg(s, 3, &d_leaf);
    m_add(t, 90, PB_TYPE_BYTES, str(p));
  }
  begin();
  within(&H[1], &H[0], 3);
  within(&H[2], &H[1], 3);
  look();
  eager = (int)sym_range(0, K > 1);
  for (int k = 0; k < K; k++) {
    unsigned op = (unsigned)sym_range(0, 14);
    sym_reach((int)op);
    switch (op) {
      case 0: put(&H[1], 2, str(sym_range(0, 1) ? 9 : 1)); break;
      case 1: put(&H[2], 1, V32(sym7())); break;
      case 2: put(&H[0], 2, str(3)); break;
      case 3: erase(&H[1], 2); break;
      case 4: erase(&H[1], 3); break;
      case 5: erase(&H[0], 3); break;
      case 6: put(&H[1], 4, V32(sym7())); break;
      case 7: erase(&H[1], 4); break;
      case 8: put(&H[0], 4, V32(300)); break;
      case 9: within(&H[2], &H[1], 3); if (!H[2].n) return; break;
      case 10: put(&H[2], 2, V32(sym_u32())); break;
      case 11: erase(&H[2], 2); break;
      case 12: { /* through the branch of tags */
        pb_tag_t tags[] = { 3, 3, 1 }; value_t v = V32(sym7());
        sym_check(pb_message_nested_put(&H[0].m, tags, 3, &v) == PB_ERROR_NONE, "writing along a branch of tags succeeds");
        m_write(m_slot(m_slot(root, 3), 3), 1, &v); break; }
      case 13: { /* the large string shrinks: crosses the boundary downwards */
        node *s = m_find(root, 3), *t = s ? m_find(s, 3) : NULL;
        if (t && t->nk) { put(&H[1], 2, str(p > 128 ? 16382 : 126)); } else put(&H[1], 2, str(120)); break; }
      case 14: message_clear(&H[2]); break;
    }
    if (eager || k + 1 == K) look();
  }
  end();
}
#endif
#ifdef HANDLES
/* handles of fields and messages side by side */
void harness(void) {
  root = t_build(sym_range(0, 1) ? 7 : 0);
  begin();
  within(&H[1], &H[0], 3);
  field(&F[0], &H[0], 1);
  field(&F[1], &H[1], 1);
  field(&F[2], &H[0], 5);
  field(&F[3], &H[0], 12);
  look();
  eager = (int)sym_range(0, K > 1);
  for (int k = 0; k < K; k++) {
    unsigned op = (unsigned)sym_range(0, 17);
    sym_reach((int)op);
    switch (op) {
      case 0: field_put(&F[0], V32(sym_u32())); break;
      case 1: field_put(&F[1], V32(sym_u32())); break;
      case 2: field_put(&F[2], V32(sym_u32())); break;
      case 3: field_put(&F[3], V64(sym_u64())); break;
      case 4: field_clear(&F[0]); break;
      case 5: field_clear(&F[1]); break;
      case 6: field_clear(&F[2]); break;
      case 7: field_clear(&F[3]); break;
      case 8: put(&H[0], 2, str(2)); break;
      case 9: erase(&H[0], 1); break;
      case 10: erase(&H[0], 3); break;
      case 11: erase(&H[1], 1); break;
      case 12: put(&H[0], 5, V32(sym7())); break;
      case 13: erase(&H[0], 5); break;
      case 14: put(&H[1], 4, V32(300)); break;
      case 15: message_clear(&H[1]); break;
      case 16: within(&H[2], &H[0], 10); put(&H[2], 1, V32(sym7())); break;
      case 17: put(&H[1], 1, V32(sym7())); break;
    }
    if (eager || k + 1 == K) look();
  }
  end();
}
#endif
#ifdef LONG
/* long histories: the sequence of operations is fixed by a number, their values are not */
#define value long_value
static void drop_m(mh *h) { if (h->n) pb_message_destroy(&h->m); h->n = NULL; }
static void drop_f(fh *h) { if (h->n) pb_field_destroy(&h->h); h->n = NULL; }
void harness(void) {
  lcg = (uint32_t)sym_range(0, SEEDS - 1) * 7919 + FIRST;
  root = t_build(pick(TEMPLATES));
  begin();
  for (int k = 0; k < K; k++) {
    unsigned op = pick(16), w = pick(4), t;
    mh *h = &H[pick(3)]; fh *f = &F[w];
    static const pb_tag_t rep[] = { 4, 5, 10, 11 };
    sym_reach((int)op);
    switch (op) {
      case 0: case 1: {                                 /* write a scalar of some message */
        if (!h->n) break;
        const pb_descriptor_t *d = h->n->desc;
        const pb_field_descriptor_t *g = &d->field.data[pick((unsigned)d->field.size)];
        if (g->type == PB_TYPE_MESSAGE) break;
        if (h->n->nk > 24 && g->label == PB_LABEL_REPEATED) { erase(h, g->tag); break; }
        value_t v = value(g->type);
        put(h, g->tag, v); break; }
      case 2: if (h->n) { const pb_descriptor_t *d = h->n->desc; erase(h, d->field.data[pick((unsigned)d->field.size)].tag); } break;
      case 3: drop_m(&H[1]); within(&H[1], &H[0], pick(2) ? 3 : 9); break;
      case 4: if (H[1].n) { drop_m(&H[2]); within(&H[2], &H[1], 3); } break;
      case 5: if (root->nk < 24) { drop_m(&H[3]); within(&H[3], &H[0], 10); put(&H[3], 1, V32(sym7())); } break;
      case 6: { static const pb_tag_t tg[] = { 1, 12, 6, 7 }; drop_f(&F[0]); field(&F[0], &H[0], tg[w]); break; }
      case 7: if (H[1].n) { static const pb_tag_t tg[] = { 1, 1, 4, 4 }; drop_f(&F[1]); if (H[1].n->nk < 24) field(&F[1], &H[1], tg[w]); } break;
      case 8: if (H[2].n && H[2].n->nk < 24) { drop_f(&F[2]); field(&F[2], &H[2], 1 + (w & 1)); } break;
      case 9: if (root->nk < 24) { drop_f(&F[3]); field(&F[3], &H[0], rep[w & 1]); } break;
      case 10: case 11: if (f->n) {
        value_t v = value(f->f->type);
        field_put(f, v); } break;
      case 12: if (w == 0) field_clear(f); else if (w == 1) message_clear(&H[1 + pick(3)]); break;
      case 13: case 14: {                               /* a cursor writes or erases one value */
        t = rep[w]; int n, at;
        nth(root, t, 0, &n);
        pb_cursor_t c = pb_cursor_create(&H[0].m, t);
        sym_check(pb_cursor_valid(&c) == (n > 0), "a cursor is valid exactly if there is a value");
        if (n) {
          at = (int)pick((unsigned)n);
          for (int i = 0; i < at; i++) sym_check(pb_cursor_next(&c), "a cursor moves while there are values");
          node *r = nth(root, t, at, &n);
          if (op == 14 || t == 10) { sym_check(pb_cursor_erase(&c) == PB_ERROR_NONE, "a cursor erases the value it is at"); m_remove(r); n--; at--; }
          else { value_t v = V32(300 * pick(2) + sym7()); sym_check(pb_cursor_put(&c, &v) == PB_ERROR_NONE, "a cursor writes the value it is at"); m_set(r, ref_field(&d_main, t)->type, &v); }
          for (int i = at + 1; i < n; i++) sym_check(pb_cursor_next(&c), "a cursor moves while there are values");
          sym_check(!pb_cursor_next(&c) && pb_cursor_error(&c) == PB_ERROR_EOM, "a cursor ends at the end of the message");
        }
        pb_cursor_destroy(&c); break; }
      case 15: { /* through the branch of tags */
        pb_tag_t tags[] = { w & 1 ? 3 : 9, 3, 1 }; value_t v = V32(sym7());
        sym_check(pb_message_nested_put(&H[0].m, tags, 3, &v) == PB_ERROR_NONE, "writing along a branch of tags succeeds");
        m_write(m_slot(m_slot(root, tags[0]), 3), 1, &v); break; }
    }
    sym_check(m_same(root, &j), "the message consists of exactly the bytes the history calls for");
    if (pick(6) == 0) look();
  }
  look();
  end();
}
#endif
