/* Arbitrary bytes opened as a message: safe, unchanged by reads, and in
 * agreement with the (reference) decoder. */
#include "model.h"
#define M (N - 1)
static const uint8_t f_lead[] = { 0x08, 0x07 };
static const uint8_t l_msg[] = { 0x1a, M };               /* msg of exactly the symbolic bytes */
static const uint8_t l_sub[] = { 0x1a, M + 4, 0x08, 0x01, 0x1a, M };
static const uint8_t l_pck[] = { 0x2a, 0x02, 0x01, 0x02, 0x2a, M };
static const uint8_t l_rep[] = { 0x20, 0x05, 0x22, M };
static const uint8_t l_pf[] = { 0x5a, M };
static const uint8_t l_one[] = { 0x38, 0x05 };
static const uint8_t l_onem[] = { 0x42, 0x00, 0x4a, M };
static const uint8_t l_rm[] = { 0x52, 0x02, 0x08, 0x01, 0x52, M };
static const uint8_t l_str[] = { 0x12, M };
static const uint8_t l_unk[] = { 0x9a, 0x06, 0x01, 0x08, 0x9b, 0x06 };
static const uint8_t l_bmsg[] = { 0x1a, 0xff, 0xff, 0xff };   /* lengths of up to 2^32 - 1 */
static const uint8_t l_bstr[] = { 0x12, 0xff, 0xff, 0xff };
static const uint8_t l_bpck[] = { 0x2a, 0xff, 0xff, 0xff };
static const uint8_t l_bunk[] = { 0x9a, 0x06, 0xff, 0xff, 0xff };
static const uint8_t l_key[] = { 0x88, 0x80, 0x80 };          /* a key of four or five bytes */
static const uint8_t l_neg[] = { 0x70, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff };
static const uint8_t l_sg[] = { 0x60, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff };
static const uint8_t l_over[] = { 0x1a, 0x02, 0x12 };         /* a string that may reach beyond its submessage */
static const uint8_t l_overp[] = { 0x1a, 0x03, 0x22 };
static const uint8_t l_one1[] = { 0x1a, 0x01 };
static const struct { const uint8_t *d; size_t n; pb_tag_t tag[6]; } L[] = {
  { 0, 0, { 1, 2, 4, 5, 7, 13 } }, { f_lead, 2, { 1, 3, 6, 8, 10, 15 } }, { l_msg, 2, { 3, 4 } }, { l_sub, 6, { 3, 1 } }, { l_pck, 6, { 5, 1, 11 } },
  { l_rep, 4, { 4, 5 } }, { l_pf, 2, { 11, 12 } }, { l_one, 2, { 7, 8, 9 } }, { l_onem, 4, { 9, 8 } }, { l_rm, 6, { 10, 3 } }, { l_str, 2, { 2, 14 } }, { l_unk, 6, { 1, 20 } },
  { l_bmsg, 4, { 3, 1 } }, { l_bstr, 4, { 2, 1 } }, { l_bpck, 4, { 5, 1 } }, { l_bunk, 5, { 1 } }, { l_key, 3, { 1, 3 } }, { l_neg, 9, { 14, 1 } }, { l_sg, 9, { 12, 1 } },
  { l_over, 3, { 3 } }, { l_overp, 3, { 3 } }, { l_one1, 2, { 3, 2 } } };

static const uint8_t *base;
static int is_member(const pb_field_descriptor_t *f, const pb_field_descriptor_t *g) { return g->label == PB_LABEL_ONEOF && g->value == f->value; }
/* value read == event e */
static int v_event(const pb_field_descriptor_t *f, const value_t *v, const uint8_t *d, const ref_event *e) {
  if (ref_wiretype(f->type) == 2) return v->s.size == e->bits && v->s.data == d + e->start;
  return (ref_size(f->type) == 1 ? v->u8 : ref_size(f->type) == 4 ? v->u32 : v->u64) == e->bits;
}
static void inspect(pb_message_t *m, const pb_descriptor_t *desc, pb_tag_t tag, const uint8_t *d, size_t n, int depth) {
  static ref_result rs[3]; ref_result *r = &rs[depth];
  ref_decode(desc, d, n, r);
  const pb_field_descriptor_t *f = ref_field(desc, tag);
  ref_event *last = NULL; size_t count = 0;
  for (size_t i = 0; i < r->n && i < REF_EVENTS; i++) {
    if (r->e[i].f == f) { last = &r->e[i]; count++; }
    else if (f->label == PB_LABEL_ONEOF && is_member(f, r->e[i].f)) last = NULL;
  }
  int has = pb_message_has(m, tag), known = r->ok && !r->overflow;
  if (known) sym_check(has == (last != NULL), "a field is present exactly if it is decoded");
  sym_reach(known ? 1 : 2);
  value_t v; memset(&v, 0, sizeof v);
  if (f->type != PB_TYPE_MESSAGE && f->label != PB_LABEL_REPEATED) {
    pb_error_t e = pb_message_get(m, tag, &v);
    if (known && last) {
      sym_check(e == PB_ERROR_NONE, "a decoded field can be read");
      sym_check(v_event(f, &v, d, last), "a field reads as the last value decoded");
      sym_check(pb_message_match(m, tag, &v), "a field matches the value read");
      sym_reach(3);
    } else if (known) {
      sym_check(e == (f->value && f->label != PB_LABEL_ONEOF ? PB_ERROR_NONE : PB_ERROR_ABSENT), "an absent field reads as its default, if any");
      sym_reach(4);
    }
    sym_check(e >= PB_ERROR_NONE && e <= PB_ERROR_EOM, "reading returns a value or an error code");
  }
  if (f->label == PB_LABEL_REPEATED) {
    pb_cursor_t c = pb_cursor_create(m, tag);
    size_t k = 0, i = 0;
    for (; k <= n && pb_cursor_valid(&c); k++) {
      while (i < r->n && i < REF_EVENTS && r->e[i].f != f) i++;
      if (f->type != PB_TYPE_MESSAGE) {
        pb_error_t e = pb_cursor_get(&c, &v);
        if (known) {
          sym_check(i < r->n, "a cursor visits no more values than are decoded");
          sym_check(e == PB_ERROR_NONE && v_event(f, &v, d, &r->e[i]), "a cursor visits the values decoded, in order");
          sym_reach(5);
        }
      } else if (depth < 2) {
        pb_message_t sub = pb_message_create_from_cursor(&c);
        if (known) {
          sym_check(pb_message_valid(&sub), "a submessage that is decoded can be opened");
          inspect(&sub, f->refer, 1, d + r->e[i].start, r->e[i].bits, depth + 1);
          sym_reach(6);
        } else { pb_message_has(&sub, 1); pb_message_get(&sub, 1, &v); }
        pb_message_destroy(&sub);
      }
      i++;
      if (!pb_cursor_next(&c)) { k++; break; }
    }
    sym_check(k <= n, "iterating ends");
    if (known) sym_check(k == count, "a cursor visits all values decoded");
    if (known) sym_check(pb_cursor_error(&c) == PB_ERROR_EOM, "a cursor behind the last value is at the end of the message");
    sym_check(!pb_cursor_next(&c), "a cursor does not move beyond the end or an error");
    pb_cursor_destroy(&c);
  }
  if (f->label == PB_LABEL_ONEOF) {
    pb_oneof_t o = pb_oneof_create(f->value, m);
    pb_tag_t active = pb_oneof_case(&o), w = 0;
    for (size_t i = 0; i < r->n && i < REF_EVENTS; i++) if (is_member(f, r->e[i].f)) w = r->e[i].f->tag;
    if (known) { sym_check(active == w, "a oneof reports the member decoded last"); sym_reach(7); }
    pb_oneof_destroy(&o);
  }
  if (f->type == PB_TYPE_MESSAGE && has && f->label != PB_LABEL_REPEATED && depth < 2) {
    pb_message_t sub = pb_message_create_within(m, tag);
    if (known) {
      sym_check(pb_message_valid(&sub), "a submessage that is decoded can be opened");
      pb_tag_t t = f->refer == &d_in ? 1 + (pb_tag_t)sym_range(0, 3) : 1 + (pb_tag_t)sym_range(0, 1);
      inspect(&sub, f->refer, t, d + last->start, last->bits, depth + 1);
      sym_reach(8);
      if (ref_field(f->refer, t)->label != PB_LABEL_REPEATED && ref_field(f->refer, t)->type != PB_TYPE_MESSAGE) {
        pb_tag_t tags[] = { tag, t }; value_t a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b);
        pb_error_t x = pb_message_get(&sub, t, &a), y = pb_message_nested_get(m, tags, 2, &b);
        sym_check(x == y && !memcmp(&a, &b, sizeof a), "reading along a branch equals reading from the submessage");
        sym_check(pb_message_nested_has(m, tags, 2) == pb_message_has(&sub, t), "testing along a branch equals testing the submessage");
      }
    } else { pb_message_has(&sub, 1); pb_message_get(&sub, 1, &v); pb_tag_t tags[] = { tag, 1 }; pb_message_nested_has(m, tags, 2); pb_message_nested_get(m, tags, 2, &v); }
    pb_message_destroy(&sub);
  }
}
#ifdef A_READ
void harness(void) {
  size_t w = sym_range(0, COUNT(L) - 1);
  size_t k = sym_range(0, 5);
  pb_tag_t tag = L[w].tag[k]; sym_assume(tag);
  size_t n = sym_range(1, w < 2 ? N : M);
  uint8_t *b = malloc(L[w].n + n), *c = malloc(L[w].n + n);
  for (size_t i = 0; i < L[w].n; i++) b[i] = L[w].d[i];
  sym_bytes(b + L[w].n, n);
  memcpy(c, b, L[w].n + n);
  pb_journal_t j = pb_journal_create_zero_copy(b, L[w].n + n);
  pb_message_t m = pb_message_create(&d_main, &j);
  base = b;
  inspect(&m, &d_main, tag, b, L[w].n + n, 0);
  sym_check(!memcmp(b, c, L[w].n + n) && pb_journal_valid(&j), "reading changes nothing");
  sym_obs(pb_message_has(&m, tag));
  pb_message_destroy(&m); pb_journal_destroy(&j);
  free(b); free(c);
  sym_check(sym_heap_live() == 0, "nothing is leaked");
}
#endif
#ifdef A_EDIT
/* writing to and erasing from arbitrary bytes */
void harness(void) {
  size_t w = sym_range(0, COUNT(L) - 1);
  size_t k = sym_range(0, 5);
  pb_tag_t tag = L[w].tag[k]; sym_assume(tag);
  size_t n = sym_range(1, w < 2 ? N : M);
  uint8_t *b = malloc(L[w].n + n);
  for (size_t i = 0; i < L[w].n; i++) b[i] = L[w].d[i];
  sym_bytes(b + L[w].n, n);
  ACCT(a);
  pb_journal_t j = pb_journal_create_with_allocator(&a_alloc, b, L[w].n + n);
  free(b);
  pb_message_t m = pb_message_create(&d_main, &j);
  const pb_field_descriptor_t *f = ref_field(&d_main, tag);
  value_t v; memset(&v, 0, sizeof v);
  if (ref_wiretype(f->type) == 2) v.s = pb_string_init_from_chars("ab");
  else v.u64 = 1;
  pb_error_t e = PB_ERROR_NONE;
  int op = (int)sym_range(0, 3);
  if (op == 0) e = pb_message_erase(&m, tag);
  else if (op == 1 && f->type != PB_TYPE_MESSAGE) e = pb_message_put(&m, tag, &v);
  else if (op == 1) { pb_message_t s = pb_message_create_within(&m, tag); uint32_t x = 300; e = pb_message_put(&s, 1, &x); pb_message_destroy(&s); }
  else {
    pb_cursor_t c = pb_cursor_create(&m, tag);
    for (size_t i = 0; i <= n + L[w].n && pb_cursor_valid(&c); i++) {
      if (op == 2) e = pb_cursor_erase(&c);
      else if (f->type != PB_TYPE_MESSAGE) e = pb_cursor_put(&c, &v);
      else { pb_message_t s = pb_message_create_from_cursor(&c); uint32_t x = 300; e = pb_message_put(&s, 1, &x); pb_message_destroy(&s); }
      sym_check(i < n + L[w].n, "iterating ends");
      if (!pb_cursor_next(&c)) break;
    }
    pb_cursor_destroy(&c);
  }
  sym_check(e >= PB_ERROR_NONE && e <= PB_ERROR_EOM, "an edit succeeds or returns an error code");
  sym_reach(10 + op); sym_reach(e ? 14 : 15);
  if (pb_buffer_size(&j.buffer)) sym_block_holds((void *)pb_buffer_data(&j.buffer), pb_buffer_size(&j.buffer));
  /* what is there afterwards is still safe to read */
  pb_message_has(&m, tag);
  if (f->type != PB_TYPE_MESSAGE && f->label != PB_LABEL_REPEATED) pb_message_get(&m, tag, &v);
  sym_obs(e); sym_obs(pb_buffer_size(&j.buffer));
  pb_message_destroy(&m); pb_journal_destroy(&j);
  sym_check(a.live == 0, "every block is returned to the allocator");
  sym_check(sym_heap_live() == 0, "nothing is leaked");
}
#endif
