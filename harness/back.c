/* Messages and encoders that share an allocator of any kind. */
#ifdef LONG
#define NODES 2500
#define KIDS 60
#define WIRE 4000
#else
#define NODES 140
#endif
#define PAYLOAD 20
#include <protobluff/util/chunk_allocator.h>
#include "edits.h"

static node *m_clone(const node *r) {
  node *c = m_new(r->tag, r->wt, r->kind);
  c->desc = r->desc; c->n = r->n; c->elem = r->elem;
  for (size_t i = 0; i < r->n && i < PAYLOAD; i++) c->b[i] = r->b[i];
  for (int i = 0; i < r->nk; i++) m_insert(c, c->nk, m_clone(r->kid[i]));
  return c;
}
static node *m[2]; static pb_journal_t j[2]; static pb_message_t msg[2];
static uint8_t out[400]; static size_t nout;
/* a value of one message is written to the other */
static void transfer(int from, int to) {
  const pb_field_descriptor_t *f = any_field(m[from]);
  node *r = m_find(m[from], f->tag);
  if (!r) return;
  if (f->type == PB_TYPE_MESSAGE) {
    pb_cursor_t c = pb_cursor_create(&msg[from], f->tag);
    if (f->label == PB_LABEL_REPEATED) r = m_first(m[from], f->tag);
    pb_message_t s = pb_message_create_from_cursor(&c);
    sym_check(pb_message_valid(&s), "a submessage can be opened");
    if (!r->nk) { pb_message_destroy(&s); pb_cursor_destroy(&c); return; }
    sym_check(pb_message_put(&msg[to], f->tag, &s) == PB_ERROR_NONE, "a submessage of another message can be written");
    node *w = m_slot(m[to], f->tag);
    for (int i = 0; i < w->nk; i++) m_kill(w->kid[i]);
    w->nk = 0;
    for (int i = 0; i < r->nk; i++) m_insert(w, w->nk, m_clone(r->kid[i]));
    pb_message_destroy(&s); pb_cursor_destroy(&c);
    sym_reach(20);
  } else {
    value_t v; memset(&v, 0, sizeof v);
    if (f->label == PB_LABEL_REPEATED) {
      pb_cursor_t c = pb_cursor_create(&msg[from], f->tag);
      sym_check(pb_cursor_get(&c, &v) == PB_ERROR_NONE, "a value can be read");
      pb_cursor_destroy(&c);
    } else sym_check(pb_message_get(&msg[from], f->tag, &v) == PB_ERROR_NONE, "a value can be read");
    if (ref_wiretype(f->type) == 2 && !v.s.size) return;
    sym_check(pb_message_put(&msg[to], f->tag, &v) == PB_ERROR_NONE, "a value of another message can be written");
    m_write(m[to], f->tag, &v);
    sym_reach(21);
  }
}
static void look(int i) {
  sym_check(m_same(m[i], &j[i]), "a message consists of what its own history calls for");
}
void harness(void) {
#ifdef LONG
  lcg = (uint32_t)sym_range(0, SEEDS - 1) * 7919 + FIRST;
#endif
  unsigned kind = (unsigned)CHOICE(6);
  static const uint8_t cap[] = { 0, 0, 1, 7, 16, 64 };
  ACCT(acct);
  pb_allocator_t chunk = kind == 1 ? pb_chunk_allocator_create() : pb_chunk_allocator_create_with_capacity(kind > 1 ? cap[kind] : 1);
  pb_allocator_t *a = kind ? &chunk : &acct_alloc;
  sym_reach(kind ? 1 : 0);
  static const uint8_t other[] = { 0, 2, 7 };
  m[0] = t_build((unsigned)CHOICE(TEMPLATES));
  m[1] = t_build(other[CHOICE(OTHERS)]);
  for (int i = 0; i < 2; i++) {
    static uint8_t w[WIRE];
    size_t n = m_payload(w, m[i]);
    j[i] = n ? pb_journal_create_with_allocator(a, w, n) : pb_journal_create_empty_with_allocator(a);
    sym_check(pb_journal_valid(&j[i]), "a journal can be created with any allocator");
    msg[i] = pb_message_create(&d_main, &j[i]);
  }
  pb_encoder_t e = pb_encoder_create_with_allocator(a, &d_main);
  for (int k = 0; k < K; k++) {
    unsigned who = (unsigned)CHOICE(5);
    sym_reach(30 + (int)who);
    switch (who) {
      case 0: case 1: edit(m[who], &msg[who]); break;
      case 2: transfer(0, 1); break;
      case 3: transfer(1, 0); break;
      case 4: { uint32_t v = sym7(); out[nout++] = 0x08; out[nout++] = (uint8_t)v; sym_check(pb_encoder_encode(&e, 1, &v, 1) == PB_ERROR_NONE, "encoding succeeds"); break; }
    }
    look(0); look(1);
  }
  m_check_reads(m[1], &msg[1]);
  sym_obs(pb_buffer_size(&j[0].buffer)); sym_obs(pb_buffer_size(&j[1].buffer));
  /* either message may be destroyed first, or the allocator may end everything */
  int first = (int)CHOICE(kind ? 3 : 2);
  if (first < 2) {
    pb_message_destroy(&msg[first]); pb_journal_destroy(&j[first]);
    look(1 - first);
    value_t v = V32(300);
    sym_check(pb_message_put(&msg[1 - first], 1, &v) == PB_ERROR_NONE, "a message can be edited after another one was destroyed");
    m_write(m[1 - first], 1, &v); look(1 - first);
    m_check_reads(m[1 - first], &msg[1 - first]);
    sym_check(pb_buffer_size(pb_encoder_buffer(&e)) == nout, "an encoder holds what was encoded");
    for (size_t i = 0; i < nout; i++) sym_check(pb_buffer_data(pb_encoder_buffer(&e))[i] == out[i], "an encoder holds what was encoded");
    pb_encoder_destroy(&e);
    look(1 - first);
    pb_message_destroy(&msg[1 - first]); pb_journal_destroy(&j[1 - first]);
  }
  sym_reach(40 + first);
  sym_check(acct.live == 0, "everything is returned to the allocator");
  pb_chunk_allocator_destroy(&chunk);
  sym_check(sym_heap_live() == 0, "nothing is leaked");
}
