/* Any schema: messages of fields of any tags, types and labels, several oneofs,
 * extensions, defaults and recursion. The schema and the sequence of operations
 * are fixed by a number, all values are symbolic. */
#define NODES 2000
#define KIDS 60
#define PAYLOAD 20
#define WIRE 20000
#define EDIT_DEPTH 2
#define X_ENC
/* what is done: 0 field handles, 1 cursors writing and erasing, 2 writes, 3 erasures, 4 first
 * value erased through a cursor, 5 submessages written as a whole, 6 oneofs, 7 branches of tags,
 * 8 iterating and reading, 9 handles kept, 10 oneofs kept, 11 cursors kept */
#ifndef OPS
#define OPS 0,1,2,3,4,5,6,7,8,9,10,11
#endif
#ifndef AGREE                                /* how often decoder and validator are asked */
#define AGREE 8
#endif
#ifndef LABELS                               /* 0..3 optional, 4 required, 5..6 repeated, 7..8 oneof */
#define LABELS 0,1,2,3,4,5,6,7,8
#endif
#include "choice.h"
static unsigned edit_op(void) {
  static const unsigned char ops[] = { OPS };
  unsigned e[4], n = 0;
  for (unsigned i = 0; i < sizeof ops; i++) if (ops[i] >= 2 && ops[i] <= 5) e[n++] = ops[i] - 2u;
  return n ? e[pick(n)] : 0;
}
#define EDIT_OP edit_op
#include "edits.h"

#define ND 4
#define NF 10
static pb_field_descriptor_t fields[ND + 2][NF];
static pb_descriptor_t desc[ND + 2];
static size_t members[ND][2][NF];
static pb_oneof_descriptor_t oneof[ND][2];
static const uint64_t number[] = { 0, 1, 42, 0xfffffffffffffff9u };
static const pb_string_t text[] = { pb_string_const("d"), pb_string_const("") };

static void schema(void) {
  static const unsigned char labels[] = { LABELS };
  for (unsigned d = 0; d < ND; d++) {
    static const uint32_t gap[] = { 1, 1, 1, 2, 13, 1500, 200000, 33000000 };
    unsigned total = 1 + pick(NF), n = 0, xn[2] = { 0, 0 }, on[2] = { 0, 0 };
    pb_tag_t tag = 0;
    for (unsigned k = 0; k < total; k++) {
      tag += gap[pick(8)];
      unsigned x = d < 2 ? pick(6) : 6, l = labels[pick(sizeof labels)];
      pb_type_t type = pick(4) ? 1 + pick(17) : PB_TYPE_MESSAGE;
      pb_label_t label = l < 4 ? PB_LABEL_OPTIONAL : l == 4 && (pick(2) || sizeof labels < 9) ? PB_LABEL_REQUIRED : l < 7 ? PB_LABEL_REPEATED : PB_LABEL_ONEOF;
      if (x < 2 && (label == PB_LABEL_REQUIRED || label == PB_LABEL_ONEOF || d)) x = 6;
      const void *refer = type == PB_TYPE_MESSAGE ? (const void *)&desc[pick(ND)] : type == PB_TYPE_ENUM ? (const void *)&e_main : NULL, *value = NULL;
      if (label == PB_LABEL_ONEOF) { unsigned o = l - 7; members[d][o][on[o]++] = n; value = &oneof[d][o]; }
      if (label == PB_LABEL_OPTIONAL && type != PB_TYPE_MESSAGE && pick(2)) value = ref_wiretype(type) == 2 ? (const void *)&text[pick(2)] : type == PB_TYPE_BOOL ? &number[pick(2)] : type == PB_TYPE_ENUM ? &number[3 * pick(2)] : &number[pick(4)];
      pb_field_descriptor_t f = { tag, "f", type, label, refer, value, label == PB_LABEL_REPEATED && ref_wiretype(type) != 2 && pick(2) ? PB_FLAG_PACKED : 0 };
      memcpy(x < 2 ? &fields[ND + x][xn[x]++] : &fields[d][n++], &f, sizeof f);
      if (x < 2) sym_reach(20);
    }
    pb_descriptor_t b = { { fields[d], n }, NULL };
    memcpy(&desc[d], &b, sizeof b);
    for (unsigned o = 0; o < 2; o++) {
      pb_oneof_descriptor_t v = { &desc[d], { members[d][o], on[o] } };
      memcpy(&oneof[d][o], &v, sizeof v);
    }
    if (on[0] && on[1]) sym_reach(21);
    if (d == 0) {
      unsigned first = pick(2);
      for (unsigned x = 0; x < 2; x++) {
        pb_descriptor_t e = { { fields[ND + x], xn[x] }, NULL };
        memcpy(&desc[ND + x], &e, sizeof e);
      }
      pb_descriptor_extend(&desc[0], &desc[ND + first]);
      pb_descriptor_extend(&desc[0], &desc[ND + !first]);
    }
  }
}
/* at most one member of a oneof, the one written last */
static void oneofs(node *m, pb_message_t *msg, int clear) {
  const pb_descriptor_t *d = m->desc;
  for (unsigned k = 0; k < 2; k++) {
    const pb_oneof_descriptor_t *od = &oneof[d - desc][k];
    if (!od->index.size) continue;
    pb_tag_t tag = 0;
    for (int i = 0; i < m->nk; i++) { const pb_field_descriptor_t *f = ref_field(d, m->kid[i]->tag); if (m_known(m, m->kid[i]) && f->value == od && f->label == PB_LABEL_ONEOF) tag = f->tag; }
    pb_oneof_t o = pb_oneof_create(od, msg);
    sym_check(pb_oneof_valid(&o) && pb_oneof_error(&o) == PB_ERROR_NONE, "a oneof is valid, with a member or without");
    sym_check(pb_oneof_case(&o) == tag, "a oneof tells its member that was written last");
    if (tag) sym_reach(22);
    if (clear) {
      sym_check(pb_oneof_clear(&o) == PB_ERROR_NONE, "a oneof can be cleared");
      for (int i = m->nk - 1; i >= 0; i--) { const pb_field_descriptor_t *f = ref_field(d, m->kid[i]->tag); if (m_known(m, m->kid[i]) && f->value == od && f->label == PB_LABEL_ONEOF) m_remove(m->kid[i]); }
      sym_check(pb_oneof_case(&o) == 0, "a cleared oneof has no member");
      sym_reach(23);
    }
    pb_oneof_destroy(&o);
  }
}
/* every value of a field through a cursor, one of them written or erased */
static void traverse(node *m, pb_message_t *msg) {
  const pb_field_descriptor_t *f = any_field(m);
  if (f->label != PB_LABEL_REPEATED) return;
  int n, at; nth(m, f->tag, 0, &n);
  pb_cursor_t c = pb_cursor_create(msg, f->tag);
  sym_check(pb_cursor_valid(&c) == (n > 0), "a cursor is valid exactly if there is a value");
  if (n) {
    at = (int)pick((unsigned)n);
    for (int i = 0; i < at; i++) sym_check(pb_cursor_next(&c), "a cursor moves while there are values");
    node *r = nth(m, f->tag, at, &n);
    value_t v; memset(&v, 0, sizeof v);
    if (f->type != PB_TYPE_MESSAGE) sym_check(pb_cursor_tag(&c) == f->tag && pb_cursor_get(&c, &v) == PB_ERROR_NONE && v_same(f->type, &v, r), "a cursor reads the value it is at");
    if (f->type == PB_TYPE_MESSAGE && pick(2)) { whole(m, r, f, msg, &c); sym_reach(27); }
    else if (pick(2) || f->type == PB_TYPE_MESSAGE) { sym_check(pb_cursor_erase(&c) == PB_ERROR_NONE, "a cursor erases the value it is at"); m_remove(r); n--; at--; }
    else { v = VALUE(f->type, 1); sym_check(pb_cursor_put(&c, &v) == PB_ERROR_NONE, "a cursor writes the value it is at"); m_set(r, f->type, &v); }
    for (int i = at + 1; i < n; i++) sym_check(pb_cursor_next(&c), "a cursor moves while there are values");
    sym_check(!pb_cursor_next(&c) && pb_cursor_error(&c) == PB_ERROR_EOM, "a cursor ends at the end of the message");
    sym_reach(24);
  }
  pb_cursor_destroy(&c);
}
/* a field handle */
static void handle(node *m, pb_message_t *msg) {
  const pb_field_descriptor_t *f = any_field(m);
  if (f->type == PB_TYPE_MESSAGE) return;
  pb_field_t h = pb_field_create(msg, f->tag);
  sym_check(pb_field_valid(&h), "a field can be created");
  node *r = m_slot(m, f->tag); value_t v = VALUE(f->type, 1);
  sym_check(pb_field_put(&h, &v) == PB_ERROR_NONE, "a field can be written");
  m_set(r, f->type, &v);
  value_t w; memset(&w, 0, sizeof w);
  sym_check(pb_field_get(&h, &w) == PB_ERROR_NONE && v_same(f->type, &w, r), "a field reads as written");
  if (pick(3) == 0) { sym_check(pb_field_clear(&h) == PB_ERROR_NONE, "a field can be cleared"); m_remove(r); sym_reach(26); }
  pb_field_destroy(&h);
  sym_reach(25);
}
/* every value of a field, read through a cursor */
static void iterate(node *m, pb_message_t *msg) {
  const pb_field_descriptor_t *f = any_field(m);
  int n; nth(m, f->tag, 0, &n);
  pb_cursor_t c = pb_cursor_create(msg, f->tag);
  node *last = m_find(m, f->tag);
  sym_check(pb_cursor_valid(&c) == (f->label == PB_LABEL_REPEATED ? n > 0 : last != NULL), "a cursor is valid exactly if there is a visible value");
  for (int again = 0; again < 2; again++) {
    if (!again && f->label != PB_LABEL_REPEATED) n = last != NULL;
    for (int i = 0; i < n; i++) {
      int all; node *r = f->label == PB_LABEL_REPEATED || again ? nth(m, f->tag, i, &all) : last;
      sym_check(pb_cursor_tag(&c) == f->tag, "a cursor is at its tag");
      if (f->type == PB_TYPE_MESSAGE) {
        pb_message_t s = pb_message_create_from_cursor(&c);
        sym_check(pb_message_valid(&s), "a submessage can be opened through a cursor");
        m_check_reads(r, &s); pb_message_destroy(&s);
      } else {
        value_t v; memset(&v, 0, sizeof v);
        pb_field_t h = pb_field_create_from_cursor(&c);
        sym_check(pb_field_get(&h, &v) == PB_ERROR_NONE && v_same(f->type, &v, r), "a cursor reads the value it is at");
        sym_check(pb_cursor_match(&c, &v), "a cursor matches the value it is at");
        pb_field_destroy(&h);
      }
      sym_check(pb_cursor_next(&c) == (i + 1 < n), "a cursor moves while there are values");
      sym_reach(28);
    }
    if (n) sym_check(pb_cursor_error(&c) == PB_ERROR_EOM, "a cursor ends at the end of the message");
    nth(m, f->tag, 0, &n);
    if (!again) sym_check(pb_cursor_rewind(&c) == (n > 0), "a rewound cursor is at the first value if there is one");
  }
  pb_cursor_destroy(&c);
}
/* what a field holds before it is written */
static void fresh(node *r, const pb_field_descriptor_t *f) {
  value_t v; memset(&v, 0, sizeof v);
  if (f->label != PB_LABEL_ONEOF && f->value) memcpy(&v, f->value, ref_wiretype(f->type) == 2 ? sizeof(pb_string_t) : ref_size(f->type));
  m_set(r, f->type, &v);
}
/* along a branch of tags */
static void branch(node *root, pb_message_t *msg) {
  pb_tag_t t[4]; size_t n = 0, want = 1 + pick(3);
  const pb_descriptor_t *d = root->desc;
  node *m = root;
  while (n < want) {
    node probe = { .desc = d };
    const pb_field_descriptor_t *f = any_field(&probe);
    for (unsigned k = 0; k < 8 && (f->type != PB_TYPE_MESSAGE || f->label == PB_LABEL_REPEATED); k++) f = any_field(&probe);
    if (f->type != PB_TYPE_MESSAGE || f->label == PB_LABEL_REPEATED) break;
    t[n++] = f->tag; d = f->refer;
    if (m) m = m_find(m, f->tag);
  }
  if (!n) return;
  node probe = { .desc = d };
  const pb_field_descriptor_t *f = any_field(&probe);
  t[n++] = f->tag;
  if (f->type == PB_TYPE_MESSAGE) return;
  node *r = m ? m_find(m, f->tag) : NULL;
  value_t v; memset(&v, 0, sizeof v);
  sym_reach(30 + (m != NULL));
  sym_check(pb_message_nested_has(msg, t, n) == (r != NULL), "a nested field is present exactly if its branch and itself are");
  if (f->label != PB_LABEL_REPEATED) {
    pb_error_t e = pb_message_nested_get(msg, t, n, &v);
    if (r) sym_check(e == PB_ERROR_NONE && v_same(f->type, &v, r) && pb_message_nested_match(msg, t, n, &v), "a nested field reads as its value");
    else if (m && f->value && f->label != PB_LABEL_ONEOF) sym_check(e == PB_ERROR_NONE && v_default(f, &v), "an absent nested field reads as its default");
    else if (m) sym_check(e == PB_ERROR_ABSENT, "an absent nested field reads as absent");
  }
  switch (pick(4)) {
    case 3: {
      pb_cursor_t c = pb_cursor_create_nested(msg, t, n);
      m = root; for (size_t i = 0; i + 1 < n; i++) m = m_slot(m, t[i]);
      int at = 0, all; nth(m, f->tag, 0, &all);
      r = f->label == PB_LABEL_REPEATED ? nth(m, f->tag, 0, &all) : m_find(m, f->tag);
      sym_check(pb_cursor_valid(&c) == (r != NULL), "a cursor along a branch is valid exactly if there is a value");
      while (r) {
        memset(&v, 0, sizeof v);
        sym_check(pb_cursor_get(&c, &v) == PB_ERROR_NONE && v_same(f->type, &v, r), "a cursor along a branch reads the value it is at");
        sym_reach(32);
        if (f->label != PB_LABEL_REPEATED) {
          v = VALUE(f->type, 1);
          sym_check(pb_cursor_put(&c, &v) == PB_ERROR_NONE, "a cursor along a branch writes the value it is at");
          m_set(r, f->type, &v);
          break;
        }
        r = ++at < all ? nth(m, f->tag, at, &all) : NULL;
        sym_check(pb_cursor_next(&c) == (r != NULL), "a cursor along a branch visits every value");
      }
      pb_cursor_destroy(&c);
      return; }
    case 0: sym_check(pb_message_nested_erase(msg, t, n) == PB_ERROR_NONE, "a nested field can be erased, present or not"); if (m) m_erase(m, f->tag); return;
    case 1: v = VALUE(f->type, 1);
      sym_check(pb_message_nested_put(msg, t, n, &v) == PB_ERROR_NONE, "a nested field can be written");
      m = root; for (size_t i = 0; i + 1 < n; i++) m = m_slot(m, t[i]);
      m_write(m, f->tag, &v); return;
    case 2: {
      pb_field_t h = pb_field_create_nested(msg, t, n);
      sym_check(pb_field_valid(&h), "a nested field can be created");
      m = root; for (size_t i = 0; i + 1 < n; i++) m = m_slot(m, t[i]);
      node *had = f->label == PB_LABEL_REPEATED ? NULL : m_find(m, f->tag);
      r = m_slot(m, f->tag);
      if (!had && !r->n) fresh(r, f);
      memset(&v, 0, sizeof v);
      sym_check(pb_field_get(&h, &v) == PB_ERROR_NONE && v_same(f->type, &v, r), "a nested field is created with its value or default");
      pb_field_destroy(&h); }
  }
}
/* handles that are kept while the message is edited otherwise */
static struct { node *n; pb_message_t m; } KM[3];
static struct { node *n; const pb_field_descriptor_t *f; pb_field_t h; } KF[3];
static struct { node *n; const pb_oneof_descriptor_t *d; pb_oneof_t o; } KO[3];
static struct { node *n, *r; const pb_field_descriptor_t *f; pb_cursor_t c; } KC[3];
static void forget(int i) {
  if (KO[i].n) pb_oneof_destroy(&KO[i].o);
  if (KC[i].n) pb_cursor_destroy(&KC[i].c);
  KO[i].n = NULL; KC[i].n = NULL;
  if (KM[i].n) pb_message_destroy(&KM[i].m);
  if (KF[i].n) pb_field_destroy(&KF[i].h);
  KM[i].n = NULL; KF[i].n = NULL;
}
static void kept(void) {
  if (edit_whole) { for (int i = 0; i < 3; i++) forget(i); edit_whole = 0; }
  for (int i = 0; i < 3; i++) {
    value_t v; memset(&v, 0, sizeof v);
    if (KM[i].n && KM[i].n->alive) { m_check_reads(KM[i].n, &KM[i].m); sym_reach(40); }
    else if (KM[i].n && KM[i].n->desc->field.size) { sym_check(!pb_message_has(&KM[i].m, KM[i].n->desc->field.data[0].tag) && pb_message_erase(&KM[i].m, KM[i].n->desc->field.data[0].tag) != PB_ERROR_ALLOC, "a handle of an erased message has nothing"); sym_reach(41); }
    if (KF[i].n) {
      pb_error_t e = pb_field_get(&KF[i].h, &v);
      if (KF[i].n->alive) { sym_check(e == PB_ERROR_NONE && v_same(KF[i].f->type, &v, KF[i].n), "a handle of a field keeps denoting that field"); sym_reach(42); }
      else { sym_check(e == PB_ERROR_INVALID, "a handle of an erased field reports an error"); sym_reach(43); }
    }
  }
}
/* printing moves and changes nothing */
static void print(pb_message_t *msg) {
  int i = (int)pick(3);
  const pb_buffer_t *b = pb_journal_buffer(pb_message_journal(msg));
  static uint8_t was[WIRE]; size_t n = pb_buffer_size(b);
  if (n) memcpy(was, pb_buffer_data(b), n);
  if (KM[i].n && pb_message_valid(&KM[i].m)) { pb_message_dump(&KM[i].m); sym_reach(55); }
  if (KF[i].n && pb_field_valid(&KF[i].h)) { pb_field_dump(&KF[i].h); sym_reach(56); }
  if (pick(8) == 0) pb_journal_dump(pb_message_journal(msg));
  sym_check(pb_buffer_size(b) == n && !(n && memcmp(pb_buffer_data(b), was, n)), "printing changes nothing");
}
static void keep(node *m, pb_message_t *msg) {
  if (edit_whole) { for (int i = 0; i < 3; i++) forget(i); edit_whole = 0; }
  int i = (int)pick(3);
  const pb_field_descriptor_t *f = any_field(m);
  if (KM[i].n && KM[i].n->alive && pick(2) && KM[i].n->nk < 24) {           /* through a kept message */
    m = KM[i].n; msg = &KM[i].m; f = any_field(m); i = (i + 1) % 3;
  }
  switch (pick(5)) {
    case 4: print(msg); break;
    case 0: case 1:
      if (f->type == PB_TYPE_MESSAGE) {
        pb_message_t s = pb_message_create_within(msg, f->tag);
        sym_check(pb_message_valid(&s), "a submessage can be created");
        node *r = m_slot(m, f->tag);
        forget(i); KM[i].n = r; KM[i].m = s;
      } else {
        pb_field_t h = pb_field_create(msg, f->tag);
        sym_check(pb_field_valid(&h), "a field can be created");
        node *had = f->label == PB_LABEL_REPEATED ? NULL : m_find(m, f->tag), *r = m_slot(m, f->tag);
        if (!had && !r->n) fresh(r, f);
        forget(i); KF[i].n = r; KF[i].h = h; KF[i].f = f;
      }
      break;
    case 2:
      if (KF[i].n) {
        value_t v = VALUE(KF[i].f->type, 1);
        pb_error_t e = pb_field_put(&KF[i].h, &v);
        if (KF[i].n->alive) { sym_check(e == PB_ERROR_NONE, "writing through a field handle succeeds"); m_set(KF[i].n, KF[i].f->type, &v); }
        else sym_check(e == PB_ERROR_INVALID, "writing through a handle of an erased field reports an error");
      }
      break;
    case 3:
      if (KF[i].n && KF[i].n->alive) { sym_check(pb_field_clear(&KF[i].h) == PB_ERROR_NONE, "clearing through a field handle succeeds"); m_remove(KF[i].n); }
      else if (KM[i].n && KM[i].n->alive) { sym_check(pb_message_clear(&KM[i].m) == PB_ERROR_NONE, "clearing through a message handle succeeds"); m_remove(KM[i].n); }
  }
}
/* a message that is edited through a handle of it: the outermost one or a kept submessage */
static pb_message_t *through(node **m, pb_message_t *msg) {
  int i = (int)pick(4);
  if (i == 3 || !KM[i].n || !KM[i].n->alive || KM[i].n->nk >= 24) return msg;
  *m = KM[i].n; return &KM[i].m;
}
static void hold_oneof(node *m, pb_message_t *msg) {
  if (edit_whole) { for (int i = 0; i < 3; i++) forget(i); edit_whole = 0; }
  int i = (int)pick(3);
  if (KO[i].n && pick(4)) {
    const pb_oneof_descriptor_t *od = KO[i].d; node *o = KO[i].n;
    pb_tag_t tag = 0;
    if (o->alive) for (int k = 0; k < o->nk; k++) { const pb_field_descriptor_t *f = ref_field(o->desc, o->kid[k]->tag); if (m_known(o, o->kid[k]) && f->value == od && f->label == PB_LABEL_ONEOF) tag = f->tag; }
    sym_check(pb_oneof_case(&KO[i].o) == tag, "a kept oneof tells its member that was written last");
    sym_reach(o->alive ? tag ? 44 : 45 : 46);
    if (pick(3) == 0) {
      pb_error_t e = pb_oneof_clear(&KO[i].o);
      if (o->alive) {
        sym_check(e == PB_ERROR_NONE, "a kept oneof can be cleared");
        for (int k = o->nk - 1; k >= 0; k--) { const pb_field_descriptor_t *f = ref_field(o->desc, o->kid[k]->tag); if (m_known(o, o->kid[k]) && f->value == od && f->label == PB_LABEL_ONEOF) m_remove(o->kid[k]); }
      }
      sym_check(pb_oneof_case(&KO[i].o) == 0, "a cleared oneof has no member");
    }
    return;
  }
  msg = through(&m, msg);
  const pb_oneof_descriptor_t *od = &oneof[m->desc - desc][pick(2)];
  if (!od->index.size) return;
  if (KO[i].n) pb_oneof_destroy(&KO[i].o);
  KO[i].n = m; KO[i].d = od; KO[i].o = pb_oneof_create(od, msg);
}
static void hold_cursor(node *m, pb_message_t *msg) {
  if (edit_whole) { for (int i = 0; i < 3; i++) forget(i); edit_whole = 0; }
  int i = (int)pick(3), n, at = 0;
  value_t v; memset(&v, 0, sizeof v);
  if (KC[i].n && pick(6)) {
    const pb_field_descriptor_t *f = KC[i].f; pb_cursor_t *c = &KC[i].c; node *r = KC[i].r;
    if (pick(8) == 0) {                       /* back to the first value */
      r = KC[i].n->alive ? nth(KC[i].n, f->tag, 0, &n) : NULL;
      sym_check(pb_cursor_rewind(c) == (r != NULL), "a kept cursor is rewound if there is a value");
      KC[i].r = r; sym_reach(33);
      if (!r) { pb_cursor_destroy(c); KC[i].n = NULL; return; }
    }
    if (!r->alive) {                          /* its value is erased until it is moved */
      if (f->type != PB_TYPE_MESSAGE) sym_check(pb_cursor_get(c, &v) == PB_ERROR_INVALID, "a kept cursor at an erased value reports an error");
      else { pb_message_t s = pb_message_create_from_cursor(c); sym_check(!pb_message_valid(&s), "a kept cursor at an erased submessage does not open one"); pb_message_destroy(&s); }
      sym_reach(47);
      while (r->next && !r->alive) r = r->next;
      int more = pb_cursor_next(c);
      if (!KC[i].n->alive) sym_check(!more, "a kept cursor of an erased message does not move");
      else if (r->alive) {
        sym_check(more, "a kept cursor moves from an erased value to the next");
        if (f->type != PB_TYPE_MESSAGE) sym_check(pb_cursor_get(c, &v) == PB_ERROR_NONE && v_same(f->type, &v, r), "a kept cursor reads the value it moves to");
        KC[i].r = r; sym_reach(57);
        return;
      } else sym_reach(58);                   /* it may visit what was appended since */
      pb_cursor_destroy(c); KC[i].n = NULL;
      return;
    }
    while (nth(KC[i].n, f->tag, at, &n) != r) at++;
    if (f->type != PB_TYPE_MESSAGE) {
      sym_check(pb_cursor_get(c, &v) == PB_ERROR_NONE && v_same(f->type, &v, r), "a kept cursor reads the value it is at");
      sym_reach(r->elem ? 48 : 49);
    } else {
      pb_message_t s = pb_message_create_from_cursor(c);
      sym_check(pb_message_valid(&s), "a submessage can be opened through a kept cursor");
      m_check_reads(r, &s); pb_message_destroy(&s); sym_reach(50);
    }
    switch (pick(4)) {
      case 2: if (f->type != PB_TYPE_MESSAGE && at + 1 < n) {                  /* to the value of the next */
        pb_cursor_t t = pb_cursor_copy(c);
        KC[i].r = nth(KC[i].n, f->tag, at + 1, &n);
        sym_check(pb_cursor_next(&t) && pb_cursor_get(&t, &v) == PB_ERROR_NONE && v_same(f->type, &v, KC[i].r), "a copy of a cursor moves by itself");
        sym_check(pb_cursor_get(c, &v) == PB_ERROR_NONE && v_same(f->type, &v, r), "a cursor stays where it is while its copy moves");
        pb_cursor_get(&t, &v); pb_cursor_destroy(&t);
        sym_check(pb_cursor_seek(c, &v), "a kept cursor finds an equal value");
        sym_check(pb_cursor_get(c, &v) == PB_ERROR_NONE && v_same(f->type, &v, KC[i].r), "a cursor stops at the value it finds");
        sym_reach(34);
        return;
      }
      break;
      case 0: if (f->type != PB_TYPE_MESSAGE) { v = VALUE(f->type, 1); sym_check(pb_cursor_put(c, &v) == PB_ERROR_NONE, "a kept cursor writes the value it is at"); m_set(r, f->type, &v); sym_reach(51); break; } /* fall through */
      case 1: sym_check(pb_cursor_erase(c) == PB_ERROR_NONE, "a kept cursor erases the value it is at"); at--; n--; m_remove(r); sym_reach(52); /* fall through */
      default: {
        int more = at + 1 < n;
        sym_check(pb_cursor_next(c) == more, "a kept cursor moves while there are values");
        if (more) { KC[i].r = nth(KC[i].n, f->tag, at + 1, &n); sym_reach(53); }
        else { sym_check(pb_cursor_error(c) == PB_ERROR_EOM, "a kept cursor ends at the end of the message"); pb_cursor_destroy(c); KC[i].n = NULL; sym_reach(54); }
      }
    }
    return;
  }
  msg = through(&m, msg);
  const pb_field_descriptor_t *f = any_field(m);
  for (unsigned k = 0; k < 4 && f->label != PB_LABEL_REPEATED; k++) f = any_field(m);
  if (f->label != PB_LABEL_REPEATED) return;
  pb_cursor_t c = pb_cursor_create(msg, f->tag);
  nth(m, f->tag, 0, &n);
  sym_check(pb_cursor_valid(&c) == (n > 0), "a cursor is valid exactly if there is a value");
  if (!n) { pb_cursor_destroy(&c); return; }
  if (KC[i].n) pb_cursor_destroy(&KC[i].c);
  KC[i].n = m; KC[i].f = f; KC[i].c = c; KC[i].r = nth(m, f->tag, 0, &n);
}
static void look(node *m, pb_message_t *msg) {
  m_check_reads(m, msg);
  oneofs(m, msg, 0);
}
/* records of any known and unknown fields in any order */
static void fill(node *m, int depth, unsigned n) {
  while (n--) {
    const pb_field_descriptor_t *f = any_field(m);
    switch (pick(8)) {
      case 0: m_add(m, f->tag + 1 + pick(3), 1 + (pb_type_t)pick(15), V64(sym7() & 1)); if (ref_field(m->desc, m->kid[m->nk - 1]->tag)) { m_remove(m->kid[m->nk - 1]); } break;
      case 1: if (f->label == PB_LABEL_REPEATED && ref_wiretype(f->type) != 2) { node *p = m_addpacked(m, f->tag); for (unsigned k = pick(4); k--;) m_addelem(p, f->type, VALUE(f->type, 1)); break; } /* fall through */
      default:
        if (f->type == PB_TYPE_MESSAGE) { node *s = m_addmsg(m, f->tag, f->refer); if (depth) fill(s, depth - 1, pick(4)); }
        else m_add(m, f->tag, f->type, VALUE(f->type, 1));
    }
  }
}
#ifdef ZC
#include "anyzc.h"
#else
void harness(void) {
  lcg = ((uint32_t)sym_range(0, SETS - 1) * 256 + (uint32_t)sym_range(0, SEEDS - 1)) * 7919 + FIRST;
  schema();
  node *m = m_root(&desc[0]);
  pb_journal_t j;
  if (pick(2)) {
    pb_encoder_t e = pb_encoder_create(&desc[0]);
    encode(m, &e, 0, 1 + (int)pick(8));
    const pb_buffer_t *b = pb_encoder_buffer(&e);
    j = pb_journal_create(pb_buffer_data(b), pb_buffer_size(b));
    sym_check(m_same(m, &j), "encoded values are the records of a message");
    pb_encoder_destroy(&e);
    sym_reach(0);
  } else {
    fill(m, 2, pick(9));
    j = m_journal(m);
    sym_reach(1);
  }
  if (m->nk) agree(m, pb_journal_buffer(&j));
  pb_message_t msg = pb_message_create(&desc[0], &j);
  look(m, &msg);
  iterate(m, &msg);
  for (int k = 0; k < K; k++) {
    if (m->nk > 40) { const pb_field_descriptor_t *f = any_field(m); sym_check(pb_message_erase(&msg, f->tag) == PB_ERROR_NONE, "erasing succeeds"); m_erase(m, f->tag); continue; }
    static const unsigned char ops[] = { OPS };
    switch (ops[pick(sizeof ops)]) {
      case 0: handle(m, &msg); break;
      case 1: traverse(m, &msg); break;
      case 6: oneofs(m, &msg, pick(3) == 0); break;
      case 7: branch(m, &msg); break;
      case 8: iterate(m, &msg); break;
      case 9: keep(m, &msg); break;
      case 10: hold_oneof(m, &msg); break;
      case 11: hold_cursor(m, &msg); break;
      default: edit(m, &msg);
    }
    if (k % 3 == 0) kept();
    sym_check(m_same(m, &j), "edits have their documented effect");
    if (k % 4 == 0) look(m, &msg);
    if (k % AGREE == 0 && m->nk) agree(m, pb_journal_buffer(&j));
  }
  look(m, &msg);
  sym_check(m_same(m, &j), "edits have their documented effect");
  kept();
  sym_obs(pb_buffer_size(&j.buffer));
  for (int i = 0; i < 3; i++) forget(i);
  pb_message_destroy(&msg); pb_journal_destroy(&j);
  sym_check(sym_heap_live() == 0, "nothing is leaked");
}
#endif
