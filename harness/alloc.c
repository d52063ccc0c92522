/* Edits with failing allocations: reported, safe, and all memory taken from
 * and returned to the given allocator. */
#ifdef LONG
#define NODES 1500
#define KIDS 60
#define WIRE 4000
#endif
#include "templates.h"
#include "own.h"
static own_t a = { -1, 0, 0, { 0 } };
static pb_allocator_t al = { { own_allocate, own_resize, own_free }, &a };
static uint8_t before[WIRE];
static node *root;
/* the message under test, and the same one where no allocation fails */
typedef struct { pb_journal_t j; pb_message_t msg, sub, leaf; pb_field_t fld; pb_cursor_t cur; } world;
static world w[2];
static size_t foreign;                        /* blocks that are not the allocator's */
static void settle(void) {
  sym_check(sym_heap_live() == (size_t)a.live + foreign, "all memory is taken from the given allocator");
  sym_check(a.live <= 2, "no more blocks are held than needed");
}
static void readable(world *W) {                  /* whatever happened, reading is safe */
  value_t v; memset(&v, 0, sizeof v);
  size_t n = pb_buffer_size(&W->j.buffer);
  sym_check(pb_journal_valid(&W->j), "the journal stays valid");
  if (n) sym_block_holds((void *)pb_buffer_data(&W->j.buffer), n);
  for (size_t i = 0; i < d_main.field.size; i++) {
    const pb_field_descriptor_t *f = &d_main.field.data[i];
    pb_message_has(&W->msg, f->tag);
    if (f->type == PB_TYPE_MESSAGE || f->label == PB_LABEL_REPEATED) continue;
    pb_error_t e = pb_message_get(&W->msg, f->tag, &v);
    sym_check(e >= PB_ERROR_NONE && e <= PB_ERROR_EOM, "reading returns a value or an error code");
    if (ref_wiretype(f->type) == 2 && e == PB_ERROR_NONE && v.s.data != (f->label != PB_LABEL_ONEOF && f->value ? ((pb_string_t *)f->value)->data : NULL))
      sym_check(v.s.data >= pb_buffer_data(&W->j.buffer) && v.s.data + v.s.size <= pb_buffer_data(&W->j.buffer) + n, "a string read lies within the message");
  }
  static const pb_tag_t t[] = { 3, 3, 1 };
  pb_message_nested_get(&W->msg, t, 3, &v); pb_message_has(&W->sub, 2); pb_message_get(&W->sub, 1, &v); pb_message_get(&W->leaf, 1, &v);
  pb_field_get(&W->fld, &v);
  pb_cursor_get(&W->cur, &v);
  for (int i = 0; i < 4 && pb_cursor_next(&W->cur); i++) pb_cursor_get(&W->cur, &v);
  settle();
}
static uint32_t val; static uint8_t str[3];    /* what is written */
/* one edit; its result, or an error for a handle that is invalid */
static pb_error_t edit(world *W, int op, const pb_field_descriptor_t *f) {
  pb_error_t e = PB_ERROR_NONE;
  static const pb_tag_t t3[] = { 3, 3, 1 }, t2[] = { 9, 2 }; uint32_t x = val;
  value_t v; memset(&v, 0, sizeof v); pb_string_t s = pb_string_init(str, sizeof str);
  if (f->type != PB_TYPE_MESSAGE) { if (ref_wiretype(f->type) == 2) v.s = s; else if (f->type == PB_TYPE_ENUM) v.u32 = 5; else if (f->type == PB_TYPE_BOOL) v.u8 = 1; else v.u64 = val; }
  switch (op) {
    case 0:
      if (f->type != PB_TYPE_MESSAGE) return pb_message_put(&W->msg, f->tag, &v);
      else {
        node *src = m_root(f->refer); m_add(src, 1, PB_TYPE_UINT32, V32(val));
        long k = a.fail_at, c = a.calls; a.fail_at = -1;
        size_t h = sym_heap_live(); pb_journal_t j2 = m_journal(src); foreign += sym_heap_live() - h;
        pb_message_t m2 = pb_message_create(f->refer, &j2); a.fail_at = k; a.calls = c;
        e = pb_message_put(&W->msg, f->tag, &m2);
        pb_message_destroy(&m2); h = sym_heap_live(); pb_journal_destroy(&j2); foreign -= h - sym_heap_live();
        return e; }
    case 1: return pb_message_erase(&W->msg, f->tag);
    case 2: return pb_message_nested_put(&W->msg, t3, 3, &x);
    case 3: return pb_message_nested_put(&W->msg, t2, 2, &s);
    case 4: return pb_message_nested_erase(&W->msg, t3, 3);
    case 5: if (f->type == PB_TYPE_MESSAGE) { pb_message_t m = pb_message_create_within(&W->msg, f->tag); if (!pb_message_valid(&m)) e = pb_message_error(&m); pb_message_destroy(&m); }
      else { pb_field_t m = pb_field_create(&W->msg, f->tag); if (!pb_field_valid(&m)) e = pb_field_error(&m); pb_field_destroy(&m); }
      return e;
    case 6: return pb_field_put(&W->fld, &s);
    case 7: return pb_field_clear(&W->fld);
    case 8: return pb_message_put(&W->sub, 1, &x);
    case 9: return pb_message_put(&W->leaf, 2, &x);
    case 10: return pb_message_clear(&W->sub);
    case 11: { pb_oneof_t o = pb_oneof_create(&o_main, &W->msg); e = pb_oneof_clear(&o); pb_oneof_destroy(&o); return e; }
    case 12: return pb_cursor_put(&W->cur, &x);
    case 13: return pb_cursor_erase(&W->cur);
    default: { pb_cursor_t c = pb_cursor_create(&W->msg, f->tag);
      while (!e && pb_cursor_valid(&c)) { e = op == 14 ? pb_cursor_erase(&c) : f->type == PB_TYPE_MESSAGE ? PB_ERROR_NONE : pb_cursor_put(&c, &v); if (!pb_cursor_next(&c)) break; }
      pb_cursor_destroy(&c); return e; }
  }
}
#define OPS 16
#ifdef WHOLE                                      /* is what a failed edit leaves behind still a message? */
#define AFTER(what) "after a failed " what " the message can still be decoded"
static const char *const after[OPS] = {
  AFTER("pb_message_put"), AFTER("pb_message_erase"), AFTER("pb_message_nested_put"), AFTER("pb_message_nested_put"), AFTER("pb_message_nested_erase"), AFTER("creation of a field or submessage"),
  AFTER("pb_field_put"), AFTER("pb_field_clear"), AFTER("pb_message_put to a submessage"), AFTER("pb_message_put to a submessage"), AFTER("pb_message_clear of a submessage"),
  AFTER("pb_oneof_clear"), AFTER("pb_cursor_put"), AFTER("pb_cursor_erase"), AFTER("pb_cursor_erase"), AFTER("pb_cursor_put") };
static pb_error_t ignore(const pb_field_descriptor_t *f, const void *value, void *user) {
  (void)user;
  if (f->type == PB_TYPE_MESSAGE) return pb_decoder_decode(value, ignore, NULL);
  return PB_ERROR_NONE;
}
static void whole(const pb_buffer_t *b, int op) {
  pb_decoder_t d = pb_decoder_create(&d_main, b);
  sym_check(pb_decoder_decode(&d, ignore, NULL) == PB_ERROR_NONE, after[op]);
  pb_decoder_destroy(&d); sym_reach(30);
}
#endif
static void setup(world *W, pb_allocator_t *al, const uint8_t *wire, size_t n, int nested) {
  W->j = al ? n ? pb_journal_create_with_allocator(al, wire, n) : pb_journal_create_empty_with_allocator(al) : n ? pb_journal_create(wire, n) : pb_journal_create_empty();
  W->msg = pb_message_create(&d_main, &W->j);
  W->sub = W->leaf = pb_message_create_invalid(); W->fld = pb_field_create_invalid(); W->cur = pb_cursor_create(&W->msg, 4);
  if (nested) { W->sub = pb_message_create_within(&W->msg, 3); W->leaf = pb_message_create_within(&W->sub, 3); W->fld = pb_field_create(&W->sub, 2); }
}
static void teardown(world *W) {
  pb_cursor_destroy(&W->cur); pb_field_destroy(&W->fld); pb_message_destroy(&W->leaf); pb_message_destroy(&W->sub); pb_message_destroy(&W->msg);
  pb_journal_destroy(&W->j);
}
static int same(const pb_buffer_t *x, const uint8_t *d, size_t n) { return pb_buffer_size(x) == n && !(n && memcmp(pb_buffer_data(x), d, n)); }
void harness(void) {
#ifdef LONG
  lcg = (uint32_t)sym_range(0, SEEDS - 1) * 7919 + FIRST;
#endif
  unsigned t = (unsigned)CHOICE(TEMPLATES);
  root = t_build(t);
  static uint8_t wire[WIRE]; size_t n = m_plen(root); m_payload(wire, root);
  int handles = t == 2 || t == 3 || t == 7;   /* handles that exist before */
  setup(&w[1], NULL, wire, n, t == 2 || t == 7); foreign = sym_heap_live();
  setup(&w[0], &al, wire, n, t == 2 || t == 7);
  int alike = 1;
  settle();
  for (int k = 0; k < K; k++) {
    int op = (int)CHOICE(OPS);
    if (!handles && LONG_OR(1, 0) && op >= 6 && op != 11 && op < 14) op = 5;
    if (LONG_OR(0, 1) && op >= 6 && op != 11 && op < 14 && !(handles && (op < 12 ? t != 3 : t == 3))) return;
    const pb_field_descriptor_t *f = &d_main.field.data[op < 2 || op == 5 || op >= 14 ? CHOICE(d_main.field.size) : 0];
    size_t was = pb_buffer_size(&w[0].j.buffer);
    if (was > WIRE) sym_fail("harness: wire");
    if (was) memcpy(before, pb_buffer_data(&w[0].j.buffer), was);
    if (LONG_OR(k < 30, 1)) {
      val = sym_u8() | (uint32_t)sym_u8() << 8; sym_assume(val >= 128 && val < LONG_OR(8192, 16384)); sym_bytes(str, 3);
    }
    a.calls = 0;
    long at = LONG_OR(pick(3) ? MAXF : pick(5) ? 0 : (long)pick(pick(3) ? 3 : MAXF), k == 0 || FAILS > 1 ? (long)sym_range(0, MAXF) : MAXF);
    a.fail_at = at == MAXF ? -1 : at;
    pb_error_t e = edit(&w[0], op, f);
    int failed = a.fail_at >= 0 && a.calls > a.fail_at;
    if (LONG_OR(0, a.fail_at >= 0 && !failed)) return;    /* the same as without a failure */
    if (at == MAXF && K == 1) sym_check(a.calls <= MAXF, "harness: every allocation is covered");
    a.fail_at = -1;
    sym_check(e >= PB_ERROR_NONE && e <= PB_ERROR_EOM, "an edit returns an error code");
    if (alike) {                              /* the same without a failure */
      size_t h = sym_heap_live();
      pb_error_t e1 = LONG_OR(e && failed, 0) ? e : edit(&w[1], op, f);
      foreign += sym_heap_live() - h;
      if (e == PB_ERROR_NONE || !failed) {
        sym_check(e == e1 && same(&w[0].j.buffer, pb_buffer_data(&w[1].j.buffer), pb_buffer_size(&w[1].j.buffer)), "an edit that reports success is complete");
        sym_reach(23);
      } else alike = 0;
#ifdef LONG
      if (!alike && same(&w[0].j.buffer, before, was)) {   /* go on as if the edit had not been tried */
        size_t h = sym_heap_live();
        teardown(&w[1]); setup(&w[1], NULL, before, was, 0);
        foreign += sym_heap_live() - h;
        for (int i = 0; i < 1; i++) { pb_message_destroy(&w[i].sub); pb_message_destroy(&w[i].leaf); pb_field_destroy(&w[i].fld); pb_cursor_destroy(&w[i].cur); w[i].cur = pb_cursor_create(&w[i].msg, 4); w[i].sub = w[i].leaf = pb_message_create_invalid(); w[i].fld = pb_field_create_invalid(); }
        handles = 0; alike = 1; sym_reach(24);
      }
#endif
    }
    if (LONG_OR(!alike, 0)) { sym_reach(21); break; }   /* what is left behind is read in short histories */
    if (failed && at == 0 && e)               /* nothing has been done yet */
      sym_check(same(&w[0].j.buffer, before, was), "an edit that cannot begin changes nothing");
#ifdef WHOLE
    if (failed && e) whole(&w[0].j.buffer, op);
#endif
    readable(&w[0]); if (alike) readable(&w[1]);
    sym_reach(op); if (failed) { sym_reach(20); if (at > 0) sym_reach(21); if (at > 2) sym_reach(22); }
    sym_obs(e); sym_obs(pb_buffer_size(&w[0].j.buffer));
  }
  teardown(&w[0]);
  sym_check(a.live == 0, "every block is returned to the allocator");
  teardown(&w[1]);
  sym_check(sym_heap_live() == 0, "nothing is leaked");
}
