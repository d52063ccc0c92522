/* What the decoder, the validator and edits of any kind make of a message. */
#ifndef EDITS_H
#define EDITS_H
#include "templates.h"

/* ---- what the decoder delivers is what the model holds */
typedef struct { node *m; int i, e; } walk;
static node *step(walk *w) {
  for (; w->i < w->m->nk; w->i++, w->e = 0) {
    node *r = w->m->kid[w->i];
    if (!m_known(w->m, r)) continue;
    if (r->kind != PACKED_REC) { w->i++; return r; }
    if (w->e < r->nk) return r->kid[w->e++];
  }
  return NULL;
}
static void decode(node *m, const pb_decoder_t *d);
static pb_error_t on(const pb_field_descriptor_t *f, const void *value, void *user) {
  walk *w = user;
  node *r = step(w);
  sym_check(r && r->tag == f->tag, "the decoder delivers the fields of the message in order");
  if (r->kind == MSG) { decode(r, value); sym_reach(2); }
  else {
    value_t v; memset(&v, 0, sizeof v);
    memcpy(&v, value, ref_wiretype(f->type) == 2 ? sizeof v.s : ref_size(f->type));
    sym_check(v_same(f->type, &v, r), "the decoder delivers the values of the message");
    sym_reach(r->elem ? 3 : 4);
  }
  return PB_ERROR_NONE;
}
static void decode(node *m, const pb_decoder_t *d) {
  walk w = { m, 0, 0 };
  sym_check(pb_decoder_decode(d, on, &w) == PB_ERROR_NONE, "a message can be decoded");
  sym_check(!step(&w), "the decoder delivers all fields of the message");
}
static int complete(node *m) {
  for (size_t i = 0; i < m->desc->field.size; i++) {
    const pb_field_descriptor_t *f = &m->desc->field.data[i];
    int has = 0;
    for (int k = 0; k < m->nk; k++) if (m->kid[k]->tag == f->tag && m_known(m, m->kid[k])) has = 1;
    if (f->label == PB_LABEL_REQUIRED && !has) return 0;
  }
  for (int k = 0; k < m->nk; k++) if (m_known(m, m->kid[k]) && m->kid[k]->kind == MSG && !complete(m->kid[k])) return 0;
  return 1;
}
static void agree(node *m, const pb_buffer_t *b) {
  pb_decoder_t d = pb_decoder_create(m->desc, b);
  decode(m, &d);
  pb_decoder_destroy(&d);
  pb_validator_t v = pb_validator_create(m->desc);
  pb_error_t e = pb_validator_check(&v, b);
  int c = complete(m);
  sym_check(e == (c ? PB_ERROR_NONE : PB_ERROR_ABSENT), "a message is valid exactly if every required field is present");
  sym_reach(c ? 5 : 6);
  pb_validator_destroy(&v);
}
static const pb_field_descriptor_t *any_field(node *m) {
  size_t n = 0;
  for (const pb_descriptor_t *d = m->desc; d; d = d->extension) n += d->field.size;
  size_t k = CHOICE(n);
  for (const pb_descriptor_t *d = m->desc; d; k -= d->field.size, d = d->extension) if (k < d->field.size) return &d->field.data[k];
  return NULL;
}
#ifndef EDIT_OP
#define EDIT_OP() CHOICE(4)
#endif
#ifdef EDIT_DEPTH                            /* any schema: submessages are edited in the same ways */
static int edit_depth;
static void edit(node *m, pb_message_t *msg);
#define EDIT_SUB(r, s) do { if (edit_depth < EDIT_DEPTH) { edit_depth++; edit(r, s); edit_depth--; } } while (0)
#else
#define EDIT_SUB(r, s) do { value_t v = V32(sym7()); sym_check(pb_message_put(s, 1, &v) == PB_ERROR_NONE, "writing succeeds"); m_write(r, 1, &v); } while (0)
#endif

static int edit_whole;                       /* a submessage was overwritten as a whole */
/* overwrite a submessage of m by another message, or by a submessage of another message */
static void whole(node *m, node *r, const pb_field_descriptor_t *f, pb_message_t *msg, pb_cursor_t *c) {
  static const uint8_t behind[] = { 0xf8, 0xff, 0xff, 0xff, 0x0f, 0x01 };      /* an unknown field */
  int inner = LONG_OR((int)CHOICE(2), 1);
  pb_journal_t o = inner ? pb_journal_create(behind, sizeof behind) : pb_journal_create_empty();
  pb_message_t w = pb_message_create(m->desc, &o), s = inner ? pb_message_create_within(&w, f->tag) : pb_message_create(f->refer, &o);
  for (int i = r->nk - 1; i >= 0; i--) m_kill(r->kid[i]);
  r->nk = 0; edit_whole = 1;
  EDIT_SUB(r, &s);
  if (c) sym_check(pb_cursor_put(c, &s) == PB_ERROR_NONE, "a cursor writes the submessage it is at");
  else sym_check(pb_message_put(msg, f->tag, &s) == PB_ERROR_NONE, "writing a submessage succeeds");
  pb_message_destroy(&s); pb_message_destroy(&w); pb_journal_destroy(&o);
}
/* an edit of any kind */
static void edit(node *m, pb_message_t *msg) {
  const pb_field_descriptor_t *f = any_field(m);
  unsigned op = (unsigned)EDIT_OP();
  sym_reach(10 + (int)op);
  switch (op) {
    case 0: {
      if (f->type == PB_TYPE_MESSAGE) {
        pb_message_t s = pb_message_create_within(msg, f->tag);
        sym_check(pb_message_valid(&s), "a submessage can be created");
        node *r = m_slot(m, f->tag);
        if (CHOICE(2)) EDIT_SUB(r, &s);
        pb_message_destroy(&s);
      } else {
        value_t v = VALUE(f->type, 1), c = v;
        if (LONG_OR(ref_wiretype(f->type) == 2 && CHOICE(3) == 0 && m_own(m, msg, CHOICE(2), &v, &c), 0)) sym_reach(14);
        sym_check(pb_message_put(msg, f->tag, &v) == PB_ERROR_NONE, "writing succeeds");
        m_write(m, f->tag, &c);
      }
      break; }
    case 1: sym_check(pb_message_erase(msg, f->tag) == PB_ERROR_NONE, "erasing succeeds"); m_erase(m, f->tag); break;
    case 2: {                                /* the first value through a cursor */
      pb_cursor_t c = pb_cursor_create(msg, f->tag);
      node *r = f->label == PB_LABEL_REPEATED ? m_first(m, f->tag) : m_find(m, f->tag);
      if (pb_cursor_valid(&c)) {
        sym_check(r != NULL, "a cursor is at a value");
        sym_check(pb_cursor_erase(&c) == PB_ERROR_NONE, "erasing through a cursor succeeds");
        m_remove(r);
      } else sym_check(!r, "a cursor finds a value that is there");
      pb_cursor_destroy(&c); break; }
    case 3: {                                /* a submessage as a whole */
      if (f->type == PB_TYPE_MESSAGE) whole(m, m_slot(m, f->tag), f, msg, NULL); break; }
  }
}
#ifdef X_ENC
#define VALS LONG_OR(5, 2)
/* encoders' output opens as a message */
static void encode(node *m, pb_encoder_t *e, int depth, int fields) {
  for (int k = 0; k < fields; k++) {
    const pb_field_descriptor_t *f = any_field(m);
    size_t n = f->label == PB_LABEL_REPEATED ? CHOICE(VALS) + 1 : 1;
    if (f->type == PB_TYPE_MESSAGE) {
      pb_encoder_t s[VALS];
      for (size_t i = 0; i < n; i++) { s[i] = pb_encoder_create(f->refer); node *r = m_addmsg(m, f->tag, f->refer); if (CHOICE(2) && depth < 3) encode(r, &s[i], depth + 1, LONG_OR((int)CHOICE(depth ? 2 : 6) + 1, 1)); }
      sym_check(pb_encoder_encode(e, f->tag, s, n) == PB_ERROR_NONE, "encoding submessages succeeds");
      for (size_t i = 0; i < n; i++) pb_encoder_destroy(&s[i]);
      sym_reach(20);
    } else {
      union { uint8_t u8[VALS]; uint32_t u32[VALS]; uint64_t u64[VALS]; pb_string_t s[VALS]; } u; memset(&u, 0, sizeof u);
      node *p = n > 1 && f->flags ? m_addpacked(m, f->tag) : NULL;
      for (size_t i = 0; i < n; i++) {
        value_t v = LONG_OR(0, i || depth) ? ref_wiretype(f->type) == 2 ? VS("xy", 2) : ref_size(f->type) == 8 ? V64(1) : V32(1) : VALUE(f->type, 2);
        switch (ref_wiretype(f->type) == 2 ? 0 : ref_size(f->type)) { case 0: u.s[i] = v.s; break; case 1: u.u8[i] = v.u8; break; case 4: u.u32[i] = v.u32; break; default: u.u64[i] = v.u64; }
        if (p) m_addelem(p, f->type, v); else m_add(m, f->tag, f->type, v);
      }
      sym_check(pb_encoder_encode(e, f->tag, &u, n) == PB_ERROR_NONE, "encoding values succeeds");
      sym_reach(p ? 21 : 22);
    }
  }
}
#endif
#endif
