/* Messages stored in bytes fields. */
#ifdef LONG
#define NODES 1500
#define KIDS 60
#define WIRE 4000
#else
#define NODES 60
#endif
#define PAYLOAD 150
#include "templates.h"

extern pb_descriptor_t d_box, d_env;
/* what the bytes hold: itself with a bytes field, a submessage, a packed field */
static const pb_field_descriptor_t f_box[] = {
  { 1, "a", UINT32, OPTIONAL }, { 2, "b", BYTES, OPTIONAL }, { 3, "m", MESSAGE, OPTIONAL, &d_leaf }, { 4, "p", UINT32, REPEATED, NULL, NULL, PACKED }, { 5, "s", STRING, REPEATED },
};
pb_descriptor_t d_box = { { f_box, COUNT(f_box) } };
static const pb_field_descriptor_t f_env[] = {
  { 1, "u", UINT32, OPTIONAL }, { 2, "blob", BYTES, OPTIONAL }, { 3, "sub", MESSAGE, OPTIONAL, &d_env }, { 4, "tail", STRING, OPTIONAL }, { 5, "blobs", BYTES, REPEATED },
};
pb_descriptor_t d_env = { { f_env, COUNT(f_env) } };

static pb_journal_t j; static node *root, *owner, *box, *deep;
static pb_message_t m_owner, m_root_, m_box, m_deep; static pb_field_t h_box, h_deep; static int have_deep;

static node *fill(node *b, unsigned which) {  /* contents of a box */
  node *r;
  switch (which) {
    case 0: break;
    case 1: m_add(b, 1, PB_TYPE_UINT32, V32(sym7())); break;
    case 2: m_add(b, 1, PB_TYPE_UINT32, V32(300)); m_add(b, 77, PB_TYPE_STRING, S2()); r = m_addmsg(b, 3, &d_leaf); m_add(r, 1, PB_TYPE_UINT32, V32(sym7()));
      r = m_addpacked(b, 4); m_addelem(r, PB_TYPE_UINT32, V32(sym7())); m_addelem(r, PB_TYPE_UINT32, V32(300)); break;
    case 3: { static uint8_t big[120]; for (size_t i = 0; i < sizeof big; i++) big[i] = (uint8_t)i; /* near the next length of the prefix */
      m_add(b, 5, PB_TYPE_STRING, VS((char *)big, 120)); m_add(b, 1, PB_TYPE_UINT32, V32(sym7())); break; }
  }
  return b;
}
/* the field reads as the bytes of the message within it */
static void reads(pb_field_t *h, node *b) {
  static uint8_t w[WIRE];
  size_t n = m_payload(w, b);
  pb_string_t s;
  sym_check(pb_field_get(h, &s) == PB_ERROR_NONE && s.size == n, "a bytes field is as long as the message within it");
  uint8_t diff = 0;
  for (size_t i = 0; i < n; i++) diff |= s.data[i] ^ w[i];
  sym_check(!diff, "a bytes field reads as the message within it");
}
static void reads_box(node *b, pb_message_t *m) {
  if (b->alive) {
    sym_check(pb_message_valid(m), "a message within a bytes field is valid as long as the field exists");
    for (pb_tag_t t = 1; t <= 5; t++) {
      node *r = m_find(b, t);
      sym_check(pb_message_has(m, t) == (r != NULL), "a field within the bytes is present exactly if it was written and not erased");
      if (t != 1 || !r) continue;
      uint32_t v; sym_check(pb_message_get(m, t, &v) == PB_ERROR_NONE, "a field within the bytes can be read");
      value_t x = V32(v); sym_check(v_same(PB_TYPE_UINT32, &x, r), "a field within the bytes reads as written");
    }
  } else {
    uint32_t v;
    sym_check(pb_message_get(m, 1, &v) == PB_ERROR_INVALID && !pb_message_has(m, 1), "a message within an erased bytes field has nothing");
    sym_reach(40);
  }
}
static void look(void) {
  sym_check(m_same(root, &j), "edits within a bytes field change that field and the lengths around it");
  reads_box(box, &m_box);
  if (box->alive) { reads(&h_box, box); sym_reach(41); } else sym_check(pb_field_get(&h_box, &(pb_string_t){0}) == PB_ERROR_INVALID, "an erased bytes field cannot be read");
  if (have_deep) { reads_box(deep, &m_deep); if (deep->alive) reads(&h_deep, deep); }
}
static void edit_box(node *b, pb_message_t *m) {
  unsigned op = (unsigned)CHOICE(6);
  int alive = b->alive;
  pb_error_t e, want = alive ? PB_ERROR_NONE : PB_ERROR_INVALID;
  value_t v;
  sym_reach(10 + (int)op);
  switch (op) {
    case 0: v = VALUE(PB_TYPE_UINT32, 0); sym_check(pb_message_put(m, 1, &v) == want, "writing within the bytes"); if (alive) m_write(b, 1, &v); break;
    case 1: v = VALUE(PB_TYPE_STRING, 3); sym_check(pb_message_put(m, 5, &v) == want, "writing within the bytes"); if (alive) m_write(b, 5, &v); break;
    case 2: { pb_tag_t t = (pb_tag_t)CHOICE(5) + 1; e = pb_message_erase(m, t); sym_check(alive ? e == PB_ERROR_NONE : e != PB_ERROR_ALLOC, "erasing within the bytes"); if (alive) m_erase(b, t); break; }
    case 3: { pb_message_t s = pb_message_create_within(m, 3);
      sym_check(pb_message_valid(&s) == alive, "creating a submessage within the bytes");
      if (alive) { node *r = m_slot(b, 3); v = V32(sym7()); sym_check(pb_message_put(&s, 1, &v) == PB_ERROR_NONE, "writing to a submessage within the bytes"); m_write(r, 1, &v); }
      pb_message_destroy(&s); break; }
    case 4: v = VALUE(PB_TYPE_UINT32, 0); sym_check(pb_message_put(m, 4, &v) == want, "appending to a packed field within the bytes"); if (alive) m_write(b, 4, &v); break;
    case 5: { pb_cursor_t c = pb_cursor_create(m, 4); node *r = alive ? m_first(b, 4) : NULL;
      sym_check(pb_cursor_valid(&c) == (r != NULL), "a cursor within the bytes finds what is there");
      if (r) { sym_check(pb_cursor_erase(&c) == PB_ERROR_NONE, "erasing through a cursor within the bytes"); m_remove(r); }
      pb_cursor_destroy(&c); break; }
  }
}
static void edit_outer(void) {
  unsigned op = (unsigned)CHOICE(6);
  int alive = owner->alive; value_t v;
  pb_error_t want = alive ? PB_ERROR_NONE : PB_ERROR_INVALID;
  sym_reach(20 + (int)op);
  switch (op) {
    case 0: v = VALUE(PB_TYPE_UINT32, 0); sym_check(pb_message_put(&m_owner, 1, &v) == want, "writing in front of the bytes"); if (alive) m_write(owner, 1, &v); break;
    case 1: v = VALUE(PB_TYPE_STRING, 2); sym_check(pb_message_put(&m_owner, 4, &v) == want, "writing behind the bytes"); if (alive) m_write(owner, 4, &v); break;
    case 2: v = VALUE(PB_TYPE_UINT32, 0); sym_check(pb_message_put(&m_root_, 1, &v) == PB_ERROR_NONE, "writing in front of the message"); m_write(root, 1, &v); break;
    case 3: if (!alive) return; sym_check(pb_message_erase(&m_owner, box->tag) == PB_ERROR_NONE, "erasing the bytes"); m_erase(owner, box->tag); break;
    case 4: sym_check(pb_message_erase(&m_root_, 3) == PB_ERROR_NONE, "erasing the message around the bytes"); m_erase(root, 3); break;
    case 5: if (!box->alive) return;         /* the bytes as a whole, to another message */
      { uint8_t w[4] = { 0x08, (uint8_t)sym7(), 0x20, (uint8_t)sym7() }; size_t n = CHOICE(2) ? 4 : 2;
        v = VS((char *)w, n);
        sym_check(pb_field_put(&h_box, &v) == PB_ERROR_NONE, "replacing the bytes");
        /* handles of what was within the bytes are not used after this */
        if (have_deep) { pb_message_destroy(&m_deep); pb_field_destroy(&h_deep); have_deep = 0; }
        for (int i = 0; i < box->nk; i++) m_kill(box->kid[i]);
        box->nk = 0; m_add(box, 1, PB_TYPE_UINT32, V32(w[1])); if (n == 4) m_add(box, 4, PB_TYPE_UINT32, V32(w[3])); }
      break;
  }
}
#ifdef LONG
/* bytes that were erased are created again */
static void reopen(void) {
  if (have_deep) { pb_message_destroy(&m_deep); pb_field_destroy(&h_deep); have_deep = 0; }
  pb_message_destroy(&m_box); pb_field_destroy(&h_box);
  if (!owner->alive) { pb_message_destroy(&m_owner); m_owner = pb_message_create_within(&m_root_, 3); sym_check(pb_message_valid(&m_owner), "a submessage can be created"); owner = m_slot(root, 3); }
  h_box = pb_field_create(&m_owner, 2);
  sym_check(pb_field_valid(&h_box), "a field can be created");
  box = m_slot(owner, 2); box->kind = MSG; box->desc = &d_box;
  m_box = pb_message_create_from_field(&d_box, &h_box);
  sym_check(pb_message_valid(&m_box), "an empty bytes field opens as a message");
  sym_reach(31);
}
#endif
void harness(void) {
#ifdef LONG
  lcg = (uint32_t)sym_range(0, SEEDS - 1) * 7919 + FIRST;
#endif
  unsigned which = (unsigned)CHOICE(4), level = (unsigned)CHOICE(2), rep = LISTS ? (unsigned)CHOICE(2) : 0;
  root = owner = m_root(&d_env);
  m_add(root, 1, PB_TYPE_UINT32, V32(sym7()));
  if (level) { owner = m_addmsg(root, 3, &d_env); m_add(owner, 1, PB_TYPE_UINT32, V32(sym7())); }
  box = fill(m_addmsg(owner, rep ? 5 : 2, &d_box), which);
  deep = NULL;
  if (which == 2 && CHOICE(2)) { deep = fill(m_addmsg(box, 2, &d_box), 2); }
  if (CHOICE(2)) m_add(owner, rep ? 5 : 4, rep ? PB_TYPE_BYTES : PB_TYPE_STRING, S2());
  j = m_journal(root);
  m_root_ = pb_message_create(&d_env, &j);
  m_owner = level ? pb_message_create_within(&m_root_, 3) : pb_message_create(&d_env, &j);
  if (rep) { pb_cursor_t c = pb_cursor_create(&m_owner, 5); h_box = pb_field_create_from_cursor(&c); pb_cursor_destroy(&c); }
  else h_box = pb_field_create(&m_owner, 2);
  m_box = pb_message_create_from_field(&d_box, &h_box);
  sym_check(pb_message_valid(&m_box), "a bytes field opens as a message");
  if (deep) {
    h_deep = pb_field_create(&m_box, 2); m_deep = pb_message_create_from_field(&d_box, &h_deep); have_deep = 1;
    sym_check(pb_message_valid(&m_deep), "bytes within a message within bytes open as a message");
    sym_reach(30);
  }
  int eager = (int)CHOICE(2);          /* looking aligns handles: look after every step or at the end */
  look();
  for (int k = 0; k < K; k++) {
#ifdef LONG
    if (!box->alive && !CHOICE(3)) reopen();
    unsigned who = (unsigned)CHOICE(3); if (who == 2 && !have_deep) who = 0;
#else
    unsigned who = (unsigned)CHOICE(3);
#endif
    if (who == 0) edit_box(box, &m_box);
    else if (who == 1) edit_outer();
    else if (have_deep) edit_box(deep, &m_deep); else return;
    if (eager) look();
  }
  look();
  sym_obs(pb_buffer_size(&j.buffer));
  if (have_deep) { pb_message_destroy(&m_deep); pb_field_destroy(&h_deep); }
  pb_message_destroy(&m_box); pb_field_destroy(&h_box); pb_message_destroy(&m_owner); pb_message_destroy(&m_root_);
  pb_journal_destroy(&j);
  sym_check(sym_heap_live() == 0, "nothing is leaked");
}
