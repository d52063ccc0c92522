/* An allocator that knows its blocks and fails on demand. */
#ifndef OWN_H
#define OWN_H
#include "common.h"
#define OWN_BLOCKS 16
typedef struct { long fail_at; long calls; long live; void *block[OWN_BLOCKS]; } own_t;
static int own_slot(own_t *o, void *b) { for (int i = 0; i < OWN_BLOCKS; i++) if (o->block[i] == b) return i; return -1; }
static void *own_allocate(void *data, size_t n) {
  own_t *o = data; if (o->calls++ == o->fail_at) return NULL;
  void *p = malloc(n); if (p) { int i = own_slot(o, NULL); sym_check(i >= 0, "harness: blocks"); o->block[i] = p; o->live++; }
  return p;
}
static void own_free(void *data, void *b) {
  own_t *o = data; if (!b) return;
  int i = own_slot(o, b); sym_check(i >= 0, "only blocks of the allocator are returned to it");
  o->block[i] = NULL; o->live--; free(b);
}
static void *own_resize(void *data, void *b, size_t n) {
  own_t *o = data; if (!b) return own_allocate(data, n);
  int i = own_slot(o, b); sym_check(i >= 0, "only blocks of the allocator are resized by it");
  if (o->calls++ == o->fail_at) return NULL;
  void *p = realloc(b, n); if (p) o->block[i] = p;
  return p;
}
#define OWN(name) own_t name = { -1, 0, 0, { 0 } }; pb_allocator_t name##_alloc = { { own_allocate, own_resize, own_free }, &name }
#endif
