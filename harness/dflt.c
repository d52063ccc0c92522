/* Absent fields read as their default; whatever it is. */
#include "templates.h"
static value_t dv; static pb_string_t ds; static uint8_t db[4];
void harness(void) {
  static const pb_type_t types[] = { PB_TYPE_INT32, PB_TYPE_INT64, PB_TYPE_UINT32, PB_TYPE_UINT64, PB_TYPE_SINT32, PB_TYPE_SINT64, PB_TYPE_FIXED32,
    PB_TYPE_FIXED64, PB_TYPE_SFIXED32, PB_TYPE_SFIXED64, PB_TYPE_BOOL, PB_TYPE_ENUM, PB_TYPE_FLOAT, PB_TYPE_DOUBLE, PB_TYPE_STRING, PB_TYPE_BYTES };
  pb_type_t t = types[sym_range(0, COUNT(types) - 1)];
  int with = (int)sym_range(0, 1), req = (int)sym_range(0, 1), str = ref_wiretype(t) == 2, nested = (int)sym_range(0, 1);
  memset(&dv, 0, sizeof dv);
  if (str) { size_t n = sym_range(1, 3); sym_bytes(db, n); ds = pb_string_init(db, n); dv.s = ds; }
  else if (t == PB_TYPE_BOOL) { dv.u8 = sym_u8(); sym_assume(dv.u8 < 2); }
  else if (ref_size(t) == 4) dv.u32 = sym_u32();
  else dv.u64 = sym_u64();
  pb_field_descriptor_t f[] = { { 3, "f", t, req ? PB_LABEL_REQUIRED : PB_LABEL_OPTIONAL, t == PB_TYPE_ENUM ? (const void *)&e_main : NULL, with ? str ? (const void *)&ds : (const void *)&dv : NULL } };
  pb_descriptor_t d = { { f, 1 } };
  pb_field_descriptor_t fo[] = { { 1, "m", PB_TYPE_MESSAGE, PB_LABEL_OPTIONAL, &d } };
  pb_descriptor_t outer = { { fo, 1 } };
  node *root = m_root(nested ? &outer : &d), *m = root;
  if (nested) m = m_addmsg(root, 1, &d);
  if (sym_range(0, 1)) m_add(m, 2, PB_TYPE_UINT32, V32(sym7()));
  if (sym_range(0, 1)) m_add(m, 9, PB_TYPE_FIXED32, V32(sym_u32()));
  pb_journal_t j = m_journal(root);
  pb_message_t top = pb_message_create(root->desc, &j), msg = nested ? pb_message_create_within(&top, 1) : pb_message_create(&d, &j);
  value_t v; memset(&v, 0xAA, sizeof v); value_t untouched = v;
  for (int k = 0; k < 3; k++) {
    memset(&v, 0xAA, sizeof v);
    sym_check(!pb_message_has(&msg, 3), "an absent field is not there");
    pb_error_t e = pb_message_get(&msg, 3, &v);
    if (with) {
      sym_check(e == PB_ERROR_NONE, "an absent field with a default can be read");
      sym_check(v_default(&f[0], &v), "an absent field reads as its default");
      if (!str) sym_check(!memcmp((uint8_t *)&v + ref_size(t), (uint8_t *)&untouched + ref_size(t), sizeof v - ref_size(t)), "reading a default writes only the value");
      sym_reach(1);
    } else {
      sym_check(e == PB_ERROR_ABSENT, "an absent field without a default reads as absent");
      sym_check(!memcmp(&v, &untouched, sizeof v), "reading an absent field leaves the value alone");
      sym_reach(2);
    }
    if (with && k == 0) { sym_check(!pb_message_match(&msg, 3, &dv), "an absent field matches nothing, not even its default"); sym_reach(3); }
    sym_check(m_same(root, &j), "reading a default changes nothing");
    if (k == 2) break;
    if (k == 0) {                       /* written and erased: absent again */
      value_t w = t_value(t, 1);
      sym_check(pb_message_put(&msg, 3, &w) == PB_ERROR_NONE, "a field can be written");
      node *r = m_write(m, 3, &w);
      memset(&v, 0, sizeof v);
      sym_check(pb_message_get(&msg, 3, &v) == PB_ERROR_NONE && v_same(t, &v, r), "a field that was written reads as written, not as its default");
      sym_check(pb_message_erase(&msg, 3) == PB_ERROR_NONE, "a field can be erased");
      m_erase(m, 3);
      sym_reach(4);
    } else {                            /* created explicitly: present with its default, or zero */
      pb_field_t h = pb_field_create(&msg, 3);
      sym_check(pb_field_valid(&h), "a field can be created");
      node *r = m_slot(m, 3);
      value_t z; memset(&z, 0, sizeof z);
      m_set(r, t, with ? &dv : &z);
      memset(&v, 0, sizeof v);
      sym_check(pb_field_get(&h, &v) == PB_ERROR_NONE && v_same(t, &v, r), "a created field has its default as value, or zero");
      sym_check(pb_message_has(&msg, 3), "a created field is present");
      sym_check(m_same(root, &j), "a created field is written with its default");
      /* creating it again denotes the same field and keeps its value */
      value_t w = t_value(t, 1);
      sym_check(pb_field_put(&h, &w) == PB_ERROR_NONE, "a created field can be written");
      m_set(r, t, &w);
      pb_field_t g = pb_field_create(&msg, 3);
      memset(&v, 0, sizeof v);
      sym_check(pb_field_get(&g, &v) == PB_ERROR_NONE && v_same(t, &v, r), "creating an existing field keeps its value");
      sym_check(m_same(root, &j), "creating an existing field changes nothing");
      sym_check(pb_field_clear(&g) == PB_ERROR_NONE, "a field can be cleared");
      m_remove(r);
      pb_field_destroy(&g); pb_field_destroy(&h);
      sym_reach(5);
    }
  }
  sym_obs(pb_buffer_size(&j.buffer));
  pb_message_destroy(&msg); if (nested) pb_message_destroy(&top); pb_journal_destroy(&j);
  sym_check(sym_heap_live() == 0, "nothing is leaked");
}
