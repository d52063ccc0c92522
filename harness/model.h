/* A model of messages as trees of records, written from the documentation: it
 * says what bytes a message must consist of after every operation. The shape
 * of the tree is concrete on each path, payload bytes may be symbolic. */
#ifndef MODEL_H
#define MODEL_H
#include "common.h"

#ifndef NODES
#define NODES 40
#endif
#ifndef PAYLOAD
#define PAYLOAD 140
#endif
#ifndef KIDS
#define KIDS 16
#endif
enum { RAW, MSG, PACKED_REC };
typedef struct node {
  pb_tag_t tag; unsigned wt; int kind; int alive; int elem;
  const pb_descriptor_t *desc;             /* MSG: of the submessage */
  struct node *up, *next;                  /* next: erased: what came behind it */
  struct node *kid[KIDS]; int nk;          /* MSG: records; PACKED_REC: elements */
  uint8_t b[PAYLOAD]; size_t n;            /* RAW: payload without length prefix; beyond PAYLOAD bytes it is FILL */
} node;
#define FILL(i) ((uint8_t)((i) * 7 + ((i) >> 8)))
static node pool[NODES]; static int npool;

static node *m_new(pb_tag_t tag, unsigned wt, int kind) {
  if (npool == NODES) sym_fail("harness: out of model nodes");
  node *m = &pool[npool++];
  m->tag = tag; m->wt = wt; m->kind = kind; m->alive = 1;
  return m;
}
static node *m_root(const pb_descriptor_t *d) { node *m = m_new(0, 2, MSG); m->desc = d; return m; }
static void m_insert(node *m, int at, node *k) {
  if (m->nk == KIDS) sym_fail("harness: out of model kids");
  for (int i = m->nk; i > at; i--) m->kid[i] = m->kid[i - 1];
  m->kid[at] = k; m->nk++; k->up = m;
}
static int m_index(const node *k) {
  for (int i = 0; i < k->up->nk; i++) if (k->up->kid[i] == k) return i;
  sym_fail("harness: lost node");
  return -1;
}
static void m_kill(node *k) { k->alive = 0; for (int i = 0; i < k->nk; i++) m_kill(k->kid[i]); }
static int m_known(const node *m, const node *r);
static node *m_successor(const node *k) {
  const node *m = k->elem ? k->up->up : k->up;
  int seen = 0;
  for (int i = 0; i < m->nk; i++) {
    node *q = m->kid[i];
    if (q->tag != k->tag || !m_known(m, q)) continue;
    if (q->kind == PACKED_REC) { for (int e = 0; e < q->nk; e++) { if (seen) return q->kid[e]; seen = q->kid[e] == k; } }
    else { if (seen) return q; seen = q == k; }
  }
  return NULL;
}
static void m_remove(node *k) {
  node *m = k->up;
  if (k->kind != PACKED_REC) k->next = m_successor(k);
  for (int i = m_index(k); i + 1 < m->nk; i++) m->kid[i] = m->kid[i + 1];
  m->nk--; m_kill(k);
  /* a packed field without values does not remain */
  if (m->kind == PACKED_REC && !m->nk) m_remove(m);
}
/* ---- serialisation */
static size_t m_put(uint8_t *d, const node *r);
static size_t m_payload(uint8_t *d, const node *r) {
  size_t n = 0;
  if (r->kind == RAW) { for (size_t i = 0; i < r->n && i < PAYLOAD; i++) d[i] = r->b[i]; for (size_t i = PAYLOAD; i < r->n; i++) d[i] = FILL(i); return r->n; }
  for (int i = 0; i < r->nk; i++) n += r->kind == MSG ? m_put(d + n, r->kid[i]) : m_payload(d + n, r->kid[i]);
  return n;
}
static size_t m_len(const node *r);
static size_t m_vlen(size_t v) { size_t n = 1; while (v >= 0x80) { v >>= 7; n++; } return n; }
static size_t m_plen(const node *r) {
  if (r->kind == RAW) return r->n;
  size_t n = 0;
  for (int i = 0; i < r->nk; i++) n += r->kind == MSG ? m_len(r->kid[i]) : m_plen(r->kid[i]);
  return n;
}
static size_t m_len(const node *r) {
  size_t p = m_plen(r);
  return m_vlen((r->tag << 3) | r->wt) + (r->wt == 2 ? m_vlen(p) : 0) + p;
}
static size_t m_put(uint8_t *d, const node *r) {
  size_t n = ref_put_varint(d, (r->tag << 3) | r->wt);
  if (r->wt == 2) n += ref_put_varint(d + n, m_plen(r));
  return n + m_payload(d + n, r);
}
/* ---- values */
typedef union { uint8_t u8; uint32_t u32; uint64_t u64; pb_string_t s; } value_t;
static void m_set(node *r, pb_type_t t, const value_t *v) {
  switch (ref_wiretype(t)) {
    case 0: {
      uint64_t bits = ref_size(t) == 1 ? v->u8 : ref_size(t) == 4 ? v->u32 : v->u64;
      r->n = ref_put_varint(r->b, ref_to_wire(t, bits)); break; }
    case 1: for (int i = 0; i < 8; i++) r->b[i] = (uint8_t)(v->u64 >> (8 * i)); r->n = 8; break;
    case 5: for (int i = 0; i < 4; i++) r->b[i] = (uint8_t)(v->u32 >> (8 * i)); r->n = 4; break;
    default: for (size_t i = 0; i < v->s.size && i < PAYLOAD; i++) r->b[i] = v->s.data[i]; r->n = v->s.size; break;
  }
}
/* ---- building initial messages */
static node *m_add(node *m, pb_tag_t tag, pb_type_t t, value_t v) {
  node *r = m_new(tag, ref_wiretype(t), RAW); m_set(r, t, &v); m_insert(m, m->nk, r); return r;
}
static node *m_addmsg(node *m, pb_tag_t tag, const pb_descriptor_t *d) {
  node *r = m_new(tag, 2, MSG); r->desc = d; m_insert(m, m->nk, r); return r;
}
static node *m_addpacked(node *m, pb_tag_t tag) { node *r = m_new(tag, 2, PACKED_REC); m_insert(m, m->nk, r); return r; }
static node *m_addelem(node *p, pb_type_t t, value_t v) {
  node *r = m_new(p->tag, ref_wiretype(t), RAW); r->elem = 1; m_set(r, t, &v); m_insert(p, p->nk, r); return r;
}
static inline value_t V32(uint32_t x) { value_t v; memset(&v, 0, sizeof v); v.u32 = x; return v; }
static inline value_t V64(uint64_t x) { value_t v; memset(&v, 0, sizeof v); v.u64 = x; return v; }
static inline value_t VS(const char *d, size_t n) { value_t v; memset(&v, 0, sizeof v); v.s.data = (uint8_t *)d; v.s.size = n; return v; }

/* ---- what a reader sees */
static int m_known(const node *m, const node *r) {
  const pb_field_descriptor_t *f = ref_field(m->desc, r->tag);
  return f && (r->wt == ref_wiretype(f->type) || r->wt == 2) && !(r->kind == PACKED_REC && !r->nk);
}
static int m_member(const node *m, pb_tag_t tag, const pb_field_descriptor_t *f) {
  const pb_field_descriptor_t *g = ref_field(m->desc, tag);
  return g && g->label == PB_LABEL_ONEOF && g->value == f->value;
}
/* The occurrence a reader of the tag sees: the last one; of a oneof only its
 * last member is visible. */
static node *m_find(node *m, pb_tag_t tag) {
  const pb_field_descriptor_t *f = ref_field(m->desc, tag);
  for (int i = m->nk - 1; i >= 0; i--) {
    node *r = m->kid[i];
    if (!m_known(m, r)) continue;
    if (r->tag == tag) return r->kind == PACKED_REC ? r->kid[r->nk - 1] : r;
    if (f->label == PB_LABEL_ONEOF && m_member(m, r->tag, f)) return NULL;
  }
  return NULL;
}
static node *m_first(node *m, pb_tag_t tag) {
  for (int i = 0; i < m->nk; i++)
    if (m->kid[i]->tag == tag && m_known(m, m->kid[i])) return m->kid[i]->kind == PACKED_REC ? m->kid[i]->kid[0] : m->kid[i];
  return NULL;
}
/* the k-th value of a field */
static inline node *nth(node *m, pb_tag_t tag, int k, int *count) {
  node *r = NULL; int n = 0;
  for (int i = 0; i < m->nk; i++) {
    node *q = m->kid[i];
    if (q->tag != tag || !m_known(m, q)) continue;
    if (q->kind == PACKED_REC) { for (int e = 0; e < q->nk; e++) if (n++ == k) r = q->kid[e]; }
    else if (n++ == k) r = q;
  }
  *count = n;
  return r;
}
/* ---- the documented effect of creating a field or submessage for writing */
static node *m_slot(node *m, pb_tag_t tag) {
  const pb_field_descriptor_t *f = ref_field(m->desc, tag);
  int at = -1;
  for (int i = 0; i < m->nk; i++) if (m_known(m, m->kid[i]) && m->kid[i]->tag == tag) at = i;
  for (int i = 0; i < m->nk && (at < 0 || m->kid[at]->tag != tag); i++) if (m_known(m, m->kid[i]) && m->kid[i]->tag < tag) at = i;
  if (f->label == PB_LABEL_ONEOF)
    for (int i = m->nk - 1; i >= 0 && i >= at; i--)
      if (m->kid[i]->tag != tag && m_known(m, m->kid[i]) && m_member(m, m->kid[i]->tag, f)) {
        if (i == at) {                        /* the predecessor itself is superseded: its place is used */
          m_remove(m->kid[i]); at = -2 - i; break;
        }
        m_remove(m->kid[i]);
      }
  if (at <= -2) {
    int i = -2 - at;
    node *r = m_new(tag, ref_wiretype(f->type), f->type == PB_TYPE_MESSAGE ? MSG : RAW);
    if (f->type == PB_TYPE_MESSAGE) r->desc = f->refer;
    m_insert(m, i, r);
    return r;
  }
  if (at >= 0 && m->kid[at]->tag == tag) {
    node *r = m->kid[at];
    if (f->label != PB_LABEL_REPEATED) return r->kind == PACKED_REC ? r->kid[r->nk - 1] : r;
    if (f->flags && r->kind == PACKED_REC) {
      node *e = m_new(tag, ref_wiretype(f->type), RAW); e->elem = 1;
      m_insert(r, r->nk, e);
      return e;
    }
  }
  node *r;
  if (f->flags) {
    node *p = m_new(tag, 2, PACKED_REC); m_insert(m, at + 1, p);
    r = m_new(tag, ref_wiretype(f->type), RAW); r->elem = 1; m_insert(p, 0, r);
  } else {
    r = m_new(tag, ref_wiretype(f->type), f->type == PB_TYPE_MESSAGE ? MSG : RAW);
    if (f->type == PB_TYPE_MESSAGE) r->desc = f->refer;
    m_insert(m, at + 1, r);
  }
  return r;
}
static node *m_write(node *m, pb_tag_t tag, const value_t *v) {
  node *r = m_slot(m, tag);
  m_set(r, ref_field(m->desc, tag)->type, v);
  return r;
}
static void m_erase(node *m, pb_tag_t tag) {
  const pb_field_descriptor_t *f = ref_field(m->desc, tag);
  for (int i = m->nk - 1; i >= 0; i--) {
    node *r = m->kid[i];
    if (m_known(m, r) && (r->tag == tag || (f->label == PB_LABEL_ONEOF && m_member(m, r->tag, f)))) m_remove(r);
  }
}
/* ---- comparison with the library */
#ifndef WIRE
#define WIRE 900
#endif
static int m_same(const node *root, const pb_journal_t *j) {
  static uint8_t buf[WIRE];
  size_t n = m_plen(root);
  if (n > WIRE) sym_fail("harness: wire");
  m_payload(buf, root);
  const pb_buffer_t *b = &j->buffer;
  if (pb_buffer_size(b) != n) return 0;
  for (size_t i = 0; i < n; i++) if (buf[i] != pb_buffer_data(b)[i]) return 0;
  return 1;
}
static pb_journal_t m_journal(const node *root) {
  static uint8_t buf[WIRE];
  size_t n = m_plen(root);
  if (!n) return pb_journal_create_empty();
  if (n > WIRE) sym_fail("harness: wire");
  m_payload(buf, root);
  return pb_journal_create(buf, n);
}
static int v_same(pb_type_t t, const value_t *v, const node *r) {
  static node tmp;
  if (ref_wiretype(t) != 2) {
    m_set(&tmp, t, v);
    if (tmp.n != r->n) return 0;
    for (size_t i = 0; i < tmp.n; i++) if (tmp.b[i] != r->b[i]) return 0;
    return 1;
  }
  if (v->s.size != r->n) return 0;
  for (size_t i = 0; i < r->n; i++) if (v->s.data[i] != (i < PAYLOAD ? r->b[i] : FILL(i))) return 0;
  return 1;
}
static int v_default(const pb_field_descriptor_t *f, const value_t *v) {
  if (ref_wiretype(f->type) != 2) return !memcmp(f->value, v, ref_size(f->type));
  const pb_string_t *s = f->value;
  return s->size == v->s.size && !memcmp(s->data, v->s.data, s->size);
}
/* Reading every optional scalar field of a message gives what the model says */
static void m_check_reads(node *m, pb_message_t *msg) {
  for (const pb_descriptor_t *d = m->desc; d; d = d->extension) for (size_t i = 0; i < d->field.size; i++) {
    const pb_field_descriptor_t *f = &d->field.data[i];
    node *r = m_find(m, f->tag);
    sym_check(pb_message_has(msg, f->tag) == (r != NULL), "a field is present exactly if it was written and not erased");
    if (f->label == PB_LABEL_REPEATED || f->type == PB_TYPE_MESSAGE) continue;
    value_t v; memset(&v, 0, sizeof v);
    pb_error_t e = pb_message_get(msg, f->tag, &v);
    if (r) {
      sym_check(e == PB_ERROR_NONE, "a present field can be read");
      sym_check(v_same(f->type, &v, r), "a field reads as the value last written");
      sym_check(pb_message_match(msg, f->tag, &v), "a field matches the value read from it");
    } else if (f->value && f->label != PB_LABEL_ONEOF) {
      sym_check(e == PB_ERROR_NONE, "an absent field with a default can be read");
      sym_check(v_default(f, &v), "an absent field reads as its default");
    } else sym_check(e == PB_ERROR_ABSENT, "an absent field without a default reads as absent");
  }
}
/* A string that lies in the message itself, and a copy of it */
static inline int m_own(node *m, pb_message_t *msg, unsigned k, value_t *v, value_t *copy) {
  static uint8_t b[PAYLOAD];
  for (const pb_descriptor_t *d = m->desc; d; d = d->extension) for (size_t i = 0; i < d->field.size; i++) {
    const pb_field_descriptor_t *f = &d->field.data[i];
    if (f->type == PB_TYPE_MESSAGE || ref_wiretype(f->type) != 2 || f->label == PB_LABEL_REPEATED) continue;
    node *r = m_find(m, f->tag);
    if (!r || r->n > PAYLOAD || k--) continue;
    sym_check(pb_message_get(msg, f->tag, v) == PB_ERROR_NONE && v_same(f->type, v, r), "a present field can be read");
    for (size_t x = 0; x < r->n; x++) b[x] = r->b[x];
    *copy = VS((char *)b, r->n);
    return 1;
  }
  return 0;
}
#endif
