/* A cursor whose value is erased by other means, then one more edit, then the cursor is moved. */
#include "model.h"
#include "choice.h"
static const struct { pb_tag_t tag; int packed; } fields[] = { { 4, 0 }, { 4, 1 }, { 5, 1 }, { 5, 0 } };
static const char *const what[] = {
  "a cursor moves from an erased value to the next",
  "a cursor moves from an erased value to the next after a field in front of it was written",
  "a cursor moves from an erased value to the next after a field in front of it was erased",
  "a cursor moves from an erased value to the next after a field behind it was written",
  "a cursor moves from an erased value to the next after a field behind it was erased",
  "a cursor moves from an erased value to the next after a value was appended",
  "a cursor moves from an erased value to the next after a value in front of it was written",
  "a cursor moves from an erased value to the next after a value behind it was written",
};
static node *value_at(node *root, pb_tag_t tag, int k) {
  for (int i = 0; i < root->nk; i++) {
    node *r = root->kid[i];
    if (r->tag != tag) continue;
    if (r->kind == PACKED_REC) { for (int e = 0; e < r->nk; e++) if (k-- == 0) return r->kid[e]; }
    else if (k-- == 0) return r;
  }
  return NULL;
}
void harness(void) {
  unsigned w = CHOICE(4), front = CHOICE(2), behind = CHOICE(2), k = CHOICE(3), edit = CHOICE(8);
  static char text[4]; sym_bytes(text, 3);
  pb_tag_t tag = fields[w].tag;
  node *root = m_root(&d_main), *r = root;
  if (front) m_add(root, 2, PB_TYPE_STRING, VS(text, CHOICE(2)));
  if (fields[w].packed) r = m_addpacked(root, tag);
  for (int i = 0; i < 3; i++) {
    value_t v = V32(sym_u32());
    sym_assume(v.u32 < 0x4000 && (v.u32 >= 0x80 || i != 1));
    if (fields[w].packed) m_addelem(r, PB_TYPE_UINT32, v); else m_add(root, tag, PB_TYPE_UINT32, v);
  }
  if (behind) m_add(root, 6, PB_TYPE_FIXED32, V32(sym_u32()));
  pb_journal_t j = m_journal(root);
  pb_message_t msg = pb_message_create(&d_main, &j);
  pb_cursor_t c = pb_cursor_create(&msg, tag), other = pb_cursor_create(&msg, tag);
  for (unsigned i = 0; i < k; i++) sym_check(pb_cursor_next(&c) && pb_cursor_next(&other), "a cursor moves while there are values");
  node *gone = value_at(root, tag, k), *next = value_at(root, tag, k + 1), *before = k ? value_at(root, tag, k - 1) : NULL;
  sym_check(pb_cursor_erase(&other) == PB_ERROR_NONE, "a value can be erased through a cursor");
  m_remove(gone);
  value_t v = VS(text, 3), v32 = V32(sym_u32());
  switch (edit) {
    case 1: sym_check(pb_message_put(&msg, 2, &v) == PB_ERROR_NONE, "a field can be written"); m_write(root, 2, &v); break;
    case 2: sym_check(pb_message_erase(&msg, 2) == PB_ERROR_NONE, "a field can be erased"); m_erase(root, 2); break;
    case 3: sym_check(pb_message_put(&msg, 6, &v32) == PB_ERROR_NONE, "a field can be written"); m_write(root, 6, &v32); break;
    case 4: sym_check(pb_message_erase(&msg, 6) == PB_ERROR_NONE, "a field can be erased"); m_erase(root, 6); break;
    case 5: sym_check(pb_message_put(&msg, tag, &v32) == PB_ERROR_NONE, "a value can be appended"); m_write(root, tag, &v32); break;
    case 6: case 7: {
      node *q = edit == 6 ? before : next;
      if (!q) break;
      pb_cursor_t it = pb_cursor_create(&msg, tag);
      for (int i = 0; value_at(root, tag, i) != q; i++) sym_check(pb_cursor_next(&it), "a cursor moves while there are values");
      sym_check(pb_cursor_put(&it, &v32) == PB_ERROR_NONE, "a value can be written through a cursor");
      m_set(q, PB_TYPE_UINT32, &v32);
      pb_cursor_destroy(&it);
    }
  }
  sym_check(m_same(root, &j), "edits have their documented effect");
  memset(&v, 0, sizeof v);
  sym_check(pb_cursor_get(&c, &v) == PB_ERROR_INVALID, "an erased value cannot be read through a cursor");
  int more = pb_cursor_next(&c);
  if (next) {
    sym_check(more && pb_cursor_get(&c, &v) == PB_ERROR_NONE && v_same(PB_TYPE_UINT32, &v, next), what[edit]);
    sym_reach(edit);
  } else sym_reach(8);                       /* it may visit a value appended since, or none */
  pb_cursor_destroy(&c); pb_cursor_destroy(&other);
  pb_message_destroy(&msg); pb_journal_destroy(&j);
  sym_check(sym_heap_live() == 0, "nothing is leaked");
}
