/* A message with a field of every type and with tags of every length. */
#define NODES 100
#define KIDS 40
#define PAYLOAD 20
#include "templates.h"
static const pb_field_descriptor_t f_wide[] = {
  { 1, "a", INT64, OPTIONAL }, { 2, "b", UINT64, OPTIONAL }, { 3, "c", SFIXED32, OPTIONAL }, { 15, "d", SINT32, OPTIONAL }, { 16, "e", SFIXED64, OPTIONAL },
  { 17, "f", FLOAT, OPTIONAL }, { 31, "g", FIXED64, REPEATED, NULL, NULL, PACKED }, { 32, "h", SINT32, REPEATED, NULL, NULL, PACKED }, { 2047, "i", BYTES, OPTIONAL },
  { 2048, "j", INT32, REPEATED }, { 2049, "k", MESSAGE, OPTIONAL, &d_in }, { 4095, "l", BOOL, REPEATED, NULL, NULL, PACKED }, { 262143, "m", FIXED64, OPTIONAL },
  { 262144, "n", MESSAGE, REPEATED, &d_leaf }, { 33554431, "o", BYTES, REPEATED }, { 33554432, "p", SFIXED32, OPTIONAL },
  { 268435456, "q", UINT64, REPEATED, NULL, NULL, PACKED }, { 536870910, "r", STRING, REPEATED }, { 536870911, "s", INT64, OPTIONAL },
};
static pb_descriptor_t d_wide = { { f_wide, COUNT(f_wide) } };
static value_t any(pb_type_t t) {
  value_t v = t_value(t, 2);
  /* one and two bytes, and the longest encoding: each length is a path */
  if (ref_wiretype(t) == 0 && t != PB_TYPE_BOOL && t != PB_TYPE_ENUM) {
    uint64_t top = ref_size(t) == 4 ? 0xf0000000u : (uint64_t)0xff << 56, w = sym_range(0, 2);
    uint64_t bits = ref_size(t) == 4 ? v.u32 : v.u64;
    sym_assume(w == 0 ? bits < 64 : w == 1 ? bits >= 128 && bits < 4096 : (bits & top) == top);
  }
  return v;
}
static node *shape(int full) {
  node *m = m_root(&d_wide);
  if (!full) return m;
  for (size_t i = 0; i < d_wide.field.size; i++) {
    const pb_field_descriptor_t *f = &d_wide.field.data[i];
    if (full == 2 && i % 3 == 1) continue;
    value_t v = V64(sym7() & 1); uint8_t *b = (uint8_t *)"ab";
    if (ref_wiretype(f->type) == 2) v = VS((char *)b, 2);
    if (f->type == PB_TYPE_MESSAGE) { node *s = m_addmsg(m, f->tag, f->refer); m_add(s, 1, PB_TYPE_UINT32, V32(sym7())); if (f->label == PB_LABEL_REPEATED) m_addmsg(m, f->tag, f->refer); }
    else if (f->flags) { node *p = m_addpacked(m, f->tag); m_addelem(p, f->type, v); m_addelem(p, f->type, V64(1)); }
    else { m_add(m, f->tag, f->type, v); if (f->label == PB_LABEL_REPEATED) m_add(m, f->tag, f->type, v); }
    /* an unknown field between them */
    if (full == 2 && i % 4 == 0) m_add(m, f->tag + 100000000, PB_TYPE_UINT64, V64(sym7()));
  }
  return m;
}
void harness(void) {
  node *m = shape((int)sym_range(0, 2));
  pb_journal_t j = m_journal(m);
  pb_message_t msg = pb_message_create(&d_wide, &j);
  m_check_reads(m, &msg);
  const pb_field_descriptor_t *f = &d_wide.field.data[sym_range(0, d_wide.field.size - 1)];
  for (int k = 0; k < K; k++) {
    if (k) f = &d_wide.field.data[sym_range(0, d_wide.field.size - 1)];
    int scalar = f->type != PB_TYPE_MESSAGE;
    static const uint8_t ops[] = { OPS };
    unsigned op = ops[sym_range(0, COUNT(ops) - 1)];
    sym_reach((int)op);
    switch (op) {
      case 0:
        if (scalar) { value_t v = any(f->type); sym_check(pb_message_put(&msg, f->tag, &v) == PB_ERROR_NONE, "writing a field succeeds"); m_write(m, f->tag, &v); }
        else { pb_message_t s = pb_message_create_within(&msg, f->tag); value_t v = V32(sym7());
          sym_check(pb_message_put(&s, 1, &v) == PB_ERROR_NONE, "writing a field of a submessage succeeds");
          m_write(m_slot(m, f->tag), 1, &v); pb_message_destroy(&s); }
        break;
      case 1: sym_check(pb_message_erase(&msg, f->tag) == PB_ERROR_NONE, "erasing a field succeeds"); m_erase(m, f->tag); break;
      case 2: case 3: {                       /* through a cursor: writing or erasing all values */
        pb_cursor_t c = pb_cursor_create(&msg, f->tag);
        int at = 0, n = 0;
        node *occ[8];
        for (int i = 0; i < m->nk; i++) {
          node *r = m->kid[i];
          if (r->tag != f->tag) continue;
          if (r->kind == PACKED_REC) for (int e = 0; e < r->nk; e++) occ[n++] = r->kid[e]; else occ[n++] = r;
        }
        sym_check(pb_cursor_valid(&c) == (n > 0), "a cursor is valid exactly if there is a value");
        for (; at < n; at++) {
          value_t v; memset(&v, 0, sizeof v);
          if (scalar) {
            sym_check(pb_cursor_get(&c, &v) == PB_ERROR_NONE && v_same(f->type, &v, occ[at]), "a cursor visits all values in order");
            if (op == 2) { v = at ? t_value(f->type, 0) : any(f->type); if (at && ref_wiretype(f->type) == 0) v = V64(1); sym_check(pb_cursor_put(&c, &v) == PB_ERROR_NONE, "a cursor writes the value it is at"); m_set(occ[at], f->type, &v); }
          }
          if (op == 3) { sym_check(pb_cursor_erase(&c) == PB_ERROR_NONE, "a cursor erases the value it is at"); m_remove(occ[at]); }
          sym_check(pb_cursor_next(&c) == (at + 1 < n), "a cursor moves while there are values");
          sym_reach(10);
        }
        sym_check(pb_cursor_error(&c) == PB_ERROR_EOM, "a cursor ends at the end of the message");
        pb_cursor_destroy(&c); break; }
      case 4: {                               /* through a field */
        if (!scalar) return;
        pb_field_t h = pb_field_create(&msg, f->tag);
        sym_check(pb_field_valid(&h), "a field can be created");
        node *had = f->label == PB_LABEL_REPEATED ? NULL : m_find(m, f->tag);
        node *r = m_slot(m, f->tag);
        value_t v; memset(&v, 0, sizeof v);
        if (!had) m_set(r, f->type, &v);
        sym_check(pb_field_get(&h, &v) == PB_ERROR_NONE && v_same(f->type, &v, r), "a field is created with its value or zero");
        v = any(f->type);
        sym_check(pb_field_put(&h, &v) == PB_ERROR_NONE, "a field can be written");
        m_set(r, f->type, &v);
        pb_field_destroy(&h); break; }
    }
    sym_check(m_same(m, &j), "an edit changes the field it is for and nothing else");
  }
  m_check_reads(m, &msg);
  sym_obs(pb_buffer_size(&j.buffer));
  pb_message_destroy(&msg); pb_journal_destroy(&j);
  sym_check(sym_heap_live() == 0, "nothing is leaked");
}
