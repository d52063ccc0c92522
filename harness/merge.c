/* The concatenation of two encoded messages reads like one merged into the other. */
#include "templates.h"
static uint8_t ba[WIRE], bb[WIRE], bc[2 * WIRE];
static size_t na, nb;
#define VALS 16
typedef struct { int n; uint64_t v[VALS]; uint64_t s[VALS]; } list;
static uint64_t key(pb_type_t t, const value_t *v) {
  if (ref_wiretype(t) == 2) { uint64_t h = v->s.size; for (size_t i = 0; i < v->s.size && i < 6; i++) h = h << 8 | v->s.data[i]; return h; }
  return ref_size(t) == 1 ? v->u8 : ref_size(t) == 4 ? v->u32 : v->u64;
}
static void collect(pb_message_t *m, const pb_field_descriptor_t *f, list *l) {
  l->n = 0;
  pb_cursor_t c = pb_cursor_create(m, f->tag);
  if (pb_cursor_valid(&c)) do {
    if (l->n == VALS) sym_fail("harness: values");
    if (f->type == PB_TYPE_MESSAGE) {
      pb_message_t s = pb_message_create_from_cursor(&c);
      value_t v; memset(&v, 0, sizeof v); l->v[l->n] = pb_message_get(&s, 1, &v) ? ~0ull : v.u32;
      pb_message_destroy(&s);
    } else {
      value_t v; memset(&v, 0, sizeof v);
      sym_check(pb_cursor_get(&c, &v) == PB_ERROR_NONE, "a visited value can be read");
      l->v[l->n] = key(f->type, &v);
    }
    l->n++;
  } while (pb_cursor_next(&c));
  sym_check(pb_cursor_error(&c) == PB_ERROR_EOM, "iteration ends at the end of the message");
  pb_cursor_destroy(&c);
}
typedef struct { int n; pb_tag_t t[48]; uint64_t v[48]; } events;
static pb_error_t handler(const pb_field_descriptor_t *f, const void *value, void *user) {
  events *e = user;
  if (e->n == 48) sym_fail("harness: events");
  e->t[e->n] = f->tag;
  e->v[e->n++] = f->type == PB_TYPE_MESSAGE ? pb_buffer_size(pb_decoder_buffer(value)) : key(f->type, value);
  return PB_ERROR_NONE;
}
static pb_error_t decode(uint8_t *d, size_t n, events *e) {
  pb_buffer_t b = ro_buffer(d, n);
  pb_decoder_t dec = pb_decoder_create(&d_main, &b);
  e->n = 0;
  pb_error_t r = n ? pb_decoder_decode(&dec, handler, e) : PB_ERROR_NONE;
  pb_decoder_destroy(&dec); pb_buffer_destroy(&b);
  return r;
}
void harness(void) {
  node *a = t_build((unsigned)sym_range(0, TEMPLATES - 1));
  na = m_plen(a); m_payload(ba, a);
  events ea, eb, ec;
  if (!BYTES_N) {
    npool = 0; memset(pool, 0, sizeof pool);
    node *b = t_build((unsigned)sym_range(0, TEMPLATES - 1));
    nb = m_plen(b); m_payload(bb, b);
    sym_check(decode(bb, nb, &eb) == PB_ERROR_NONE, "a valid message decodes");
  } else {
    nb = sym_range(1, BYTES_N);
    sym_bytes(bb, nb);
    pb_error_t e = decode(bb, nb, &eb);
    sym_assume(e == PB_ERROR_NONE);
  }
  sym_assume(na && nb);
  memcpy(bc, ba, na); memcpy(bc + na, bb, nb);
  /* decoder */
  sym_check(decode(ba, na, &ea) == PB_ERROR_NONE, "a valid message decodes");
  sym_check(decode(bc, na + nb, &ec) == PB_ERROR_NONE, "a concatenation of valid messages decodes");
  sym_check(ec.n == ea.n + eb.n, "a concatenation has the values of both messages");
  for (int i = 0; i < ec.n; i++)
    sym_check(i < ea.n ? ec.t[i] == ea.t[i] && ec.v[i] == ea.v[i] : ec.t[i] == eb.t[i - ea.n] && ec.v[i] == eb.v[i - ea.n], "a concatenation has the values of the first, then of the second message");
  /* messages */
  pb_journal_t ja = pb_journal_create_zero_copy(ba, na), jb = pb_journal_create_zero_copy(bb, nb), jc = pb_journal_create_zero_copy(bc, na + nb);
  pb_message_t A = pb_message_create(&d_main, &ja), B = pb_message_create(&d_main, &jb), C = pb_message_create(&d_main, &jc);
  for (size_t i = 0; i < d_main.field.size; i++) {
    const pb_field_descriptor_t *f = &d_main.field.data[i];
    list la, lb, lc;
    collect(&A, f, &la); collect(&B, f, &lb); collect(&C, f, &lc);
    if (f->label == PB_LABEL_REPEATED) {
      sym_check(lc.n == la.n + lb.n, "repeated fields are concatenated");
      for (int k = 0; k < lc.n; k++) sym_check(lc.v[k] == (k < la.n ? la.v[k] : lb.v[k - la.n]), "repeated fields are concatenated in order");
      if (lc.n) sym_reach(1);
    } else if (f->label == PB_LABEL_ONEOF) {
      pb_oneof_t oa = pb_oneof_create(&o_main, &A), ob = pb_oneof_create(&o_main, &B), oc = pb_oneof_create(&o_main, &C);
      pb_tag_t ta = pb_oneof_case(&oa), tb = pb_oneof_case(&ob), tc = pb_oneof_case(&oc);
      sym_check(tc == (tb ? tb : ta), "of a oneof the last member remains");
      pb_oneof_destroy(&oa); pb_oneof_destroy(&ob); pb_oneof_destroy(&oc);
      sym_check(lc.n == (tc == f->tag), "a member is visible only if it is the active one");
      if (tc == f->tag) { sym_check(lc.v[0] == (lb.n ? lb.v[0] : la.v[0]), "of a oneof the last value remains"); sym_reach(2); }
    } else {
      sym_check(lc.n == (la.n || lb.n), "an optional field is present if it is in either message");
      if (lc.n) { sym_check(lc.v[0] == (lb.n ? lb.v[0] : la.v[0]), "of an optional field the last value remains"); sym_reach(f->type == PB_TYPE_MESSAGE ? 3 : 4); }
    }
  }
  sym_obs(na * 1000 + nb);
  pb_message_destroy(&A); pb_message_destroy(&B); pb_message_destroy(&C);
  pb_journal_destroy(&ja); pb_journal_destroy(&jb); pb_journal_destroy(&jc);
}
