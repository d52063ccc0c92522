/* Descriptor lookups and iterators, over descriptors with symbolic content. */
#include "common.h"
#include "util/descriptor.h"
#ifndef FIELDS
#define FIELDS 3
#endif
static pb_field_descriptor_t *fields(size_t n, const pb_tag_t *tag, char (*name)[3]) {
  pb_field_descriptor_t *r = malloc(n ? n * sizeof *r : 1);
  for (size_t i = 0; i < n; i++) {
    pb_field_descriptor_t f = { tag[i], name ? name[i] : "f", PB_TYPE_UINT32, PB_LABEL_OPTIONAL };
    memcpy(&r[i], &f, sizeof f);
  }
  return r;
}
static pb_descriptor_t *descriptor(pb_field_descriptor_t *f, size_t n) {
  pb_descriptor_t d = { { f, n }, NULL }, *r = malloc(sizeof d);
  memcpy(r, &d, sizeof d);
  return r;
}
static void ascending(pb_tag_t *tag, size_t n) {
  for (size_t i = 0; i < n; i++) {
    tag[i] = sym_u32();
    sym_assume(tag[i] >= 1 && tag[i] < (1u << 29));
    if (i) sym_assume(tag[i - 1] < tag[i]);
  }
}
static void name(char *s) {
  size_t n = sym_range(0, 2);
  for (size_t i = 0; i < n; i++) { s[i] = (char)sym_u8(); sym_assume(s[i] != 0); }
  s[n] = 0;
}
static int same_name(const char *a, const char *b) {
  for (int i = 0; i < 3; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; }
  return 1;
}
/* iterators visit every index once, in both directions */
#define ITER(pfx, desc, n, at) do { \
  pfx##_iter_t it = pfx##_iter_create(desc); size_t k = 0; \
  if (pfx##_iter_begin(&it)) { \
    do { sym_check(pfx##_iter_pos(&it) == k, "an iterator visits all entries in order"); \
         sym_check((const void *)pfx##_iter_current(&it) == (const void *)(at), "an iterator yields the entry at its position"); k++; \
         if (k > 8) break; \
    } while (pfx##_iter_next(&it)); \
    sym_reach(10); \
  } \
  sym_check(k == (n), "an iterator visits all entries"); \
  k = 0; \
  if (pfx##_iter_end(&it)) { \
    do { k++; if (k > 8) break; \
         sym_check(pfx##_iter_pos(&it) == (n) - k, "an iterator visits all entries in reverse order"); \
         { size_t j_ = k; k = (n) - k; \
           sym_check((const void *)pfx##_iter_current(&it) == (const void *)(at), "an iterator yields the entry at its position"); k = j_; } \
    } while (pfx##_iter_prev(&it)); \
  } \
  sym_check(k == (n), "an iterator visits all entries in reverse"); \
  pfx##_iter_destroy(&it); } while (0)

#ifdef D_TAG
void harness(void) {
  pb_tag_t t0[FIELDS], t1[2], t2[2];
  size_t n0 = sym_range(0, FIELDS), n1 = sym_range(0, 2), n2 = sym_range(0, 1);
  ascending(t0, n0); ascending(t1, n1); ascending(t2, n2);
  /* tags are unique within a message and its extensions */
  for (size_t i = 0; i < n0; i++) { for (size_t k = 0; k < n1; k++) sym_assume(t0[i] != t1[k]); for (size_t k = 0; k < n2; k++) sym_assume(t0[i] != t2[k]); }
  for (size_t i = 0; i < n1; i++) for (size_t k = 0; k < n2; k++) sym_assume(t1[i] != t2[k]);
  pb_field_descriptor_t *f0 = fields(n0, t0, NULL), *f1 = fields(n1, t1, NULL), *f2 = fields(n2, t2, NULL);
  pb_descriptor_t *d = descriptor(f0, n0), *e1 = descriptor(f1, n1), *e2 = descriptor(f2, n2);
  unsigned order = (unsigned)sym_range(0, 4);
  /* 0: none, 1: one, 2: two, 3: the first twice, 4: both twice */
  if (order >= 1) pb_descriptor_extend(d, e1);
  if (order == 3) pb_descriptor_extend(d, e1);
  if (order >= 2) pb_descriptor_extend(d, e2);
  if (order >= 3) { pb_descriptor_extend(d, e1); pb_descriptor_extend(d, e2); }
  pb_tag_t tag = sym_u32(); sym_assume(tag >= 1);
  const pb_field_descriptor_t *want = NULL;
  for (size_t i = 0; i < n0; i++) if (t0[i] == tag) want = &f0[i];
  if (order >= 1) for (size_t i = 0; i < n1; i++) if (t1[i] == tag) want = &f1[i];
  if (order >= 2) for (size_t i = 0; i < n2; i++) if (t2[i] == tag) want = &f2[i];
  const pb_field_descriptor_t *got = pb_descriptor_field_by_tag(d, tag);
  sym_check(got == want, "a tag denotes the field that carries it, in the message or an extension, or none");
  sym_check(pb_descriptor_extension(d) == (order ? e1 : NULL), "extensions are chained in the order of registration");
  if (order >= 1) sym_check(pb_descriptor_extension(e1) == (order >= 2 ? e2 : NULL), "extensions are chained in the order of registration");
  sym_check(!pb_descriptor_extension(e2), "an extension is registered once");
  sym_reach(want ? 1 : 2); if (want && want >= f1 && want < f1 + n1) sym_reach(3); if (want && order >= 2 && want == f2) sym_reach(4);
  ITER(pb_descriptor, d, n0, &f0[k]);
  free(f0); free(f1); free(f2); free(d); free(e1); free(e2);
}
#endif
#ifdef D_NAME
void harness(void) {
  static char s0[2][3], s1[1][3], q[3];
  static const pb_tag_t t[] = { 3, 9 };
  size_t n0 = sym_range(0, 2), n1 = sym_range(0, 1);
  for (size_t i = 0; i < n0; i++) name(s0[i]);
  for (size_t i = 0; i < n1; i++) name(s1[i]);
  for (size_t i = 0; i < n0; i++) {
    if (i) sym_assume(!same_name(s0[i], s0[i - 1]));
    for (size_t k = 0; k < n1; k++) sym_assume(!same_name(s0[i], s1[k]));
  }
  name(q);
  pb_field_descriptor_t *f0 = fields(n0, t, s0), *f1 = fields(n1, t, s1);
  pb_descriptor_t *d = descriptor(f0, n0), *e = descriptor(f1, n1);
  int ext = (int)sym_range(0, 1);
  if (ext) pb_descriptor_extend(d, e);
  const pb_field_descriptor_t *want = NULL;
  for (size_t i = 0; i < n0; i++) if (same_name(s0[i], q)) want = &f0[i];
  if (ext) for (size_t i = 0; i < n1; i++) if (same_name(s1[i], q)) want = &f1[i];
  sym_check(pb_descriptor_field_by_name(d, q) == want, "a name denotes the field that carries it, in the message or an extension, or none");
  sym_reach(want ? want == f1 && n1 ? 3 : 1 : 2);
  free(f0); free(f1); free(d); free(e);
}
#endif
#ifdef D_TYPE
/* accessors of one field descriptor of any content */
void harness(void) {
  static const uint32_t dv = 7;
  pb_tag_t tag = sym_u32(); sym_assume(tag >= 1 && tag < (1u << 29));
  pb_type_t t = (pb_type_t)sym_range(PB_TYPE_INT32, PB_TYPE_MESSAGE);
  pb_label_t l = (pb_label_t)sym_range(PB_LABEL_REQUIRED, PB_LABEL_ONEOF);
  const void *refer = t == PB_TYPE_MESSAGE ? (const void *)&d_leaf : t == PB_TYPE_ENUM ? (const void *)&e_main : NULL;
  const void *value = l == PB_LABEL_ONEOF ? (const void *)&o_main : sym_range(0, 1) ? &dv : NULL;
  uint8_t flags = (uint8_t)sym_range(0, 1);
  pb_field_descriptor_t f = { tag, "nm", t, l, refer, value, flags };
  sym_check(pb_field_descriptor_tag(&f) == tag && pb_field_descriptor_type(&f) == t && pb_field_descriptor_label(&f) == l, "a descriptor tells what it was made of");
  sym_check(pb_field_descriptor_name(&f) == f.name && !pb_field_descriptor_packed(&f) == !flags, "a descriptor tells what it was made of");
  sym_check(pb_field_descriptor_nested(&f) == (t == PB_TYPE_MESSAGE ? refer : NULL), "only messages have a nested descriptor");
  sym_check(pb_field_descriptor_enum(&f) == (t == PB_TYPE_ENUM ? refer : NULL), "only enums have an enum descriptor");
  sym_check(pb_field_descriptor_oneof(&f) == (l == PB_LABEL_ONEOF ? value : NULL), "only oneof members have a oneof descriptor");
  sym_check(pb_field_descriptor_default(&f) == (l == PB_LABEL_ONEOF ? NULL : value), "oneof members have no default");
  sym_check(pb_field_descriptor_type_size(&f) == (ref_wiretype(t) == 2 ? sizeof(pb_string_t) : ref_size(t)), "the size of a type is that of its values");
  sym_check((unsigned)pb_field_descriptor_wiretype(&f) == ref_wiretype(t), "the wire type of a type is that of the wire format");
  sym_reach(1);
}
#endif
#ifdef D_ENUM
void harness(void) {
  static char s[3][3], q[3]; int32_t num[3];
  size_t n = sym_range(0, 3);
  pb_enum_value_descriptor_t *v = malloc(n ? n * sizeof *v : 1);
  int byname = (int)sym_range(0, 1);
  for (size_t i = 0; i < n; i++) {
    num[i] = (int32_t)sym_u32();
    if (i) sym_assume(num[i - 1] <= num[i]);              /* ascending, aliases allowed */
    if (byname) name(s[i]);
    pb_enum_value_descriptor_t e = { num[i], s[i] };
    memcpy(&v[i], &e, sizeof e);
  }
  pb_enum_descriptor_t d = { { v, n } };
  if (byname) {
    for (size_t i = 0; i < n; i++) for (size_t k = 0; k < i; k++) sym_assume(!same_name(s[i], s[k]));
    name(q);
    const pb_enum_value_descriptor_t *want = NULL;
    for (size_t i = 0; i < n; i++) if (same_name(s[i], q)) want = &v[i];
    sym_check(pb_enum_descriptor_value_by_name(&d, q) == want, "a name denotes the enum value that carries it, or none");
    sym_reach(want ? 1 : 2);
  } else {
    int32_t x = (int32_t)sym_u32(); int present = 0;
    for (size_t i = 0; i < n; i++) present |= num[i] == x;
    const pb_enum_value_descriptor_t *got = pb_enum_descriptor_value_by_number(&d, x);
    sym_check(!got == !present, "a number denotes an enum value exactly if one carries it");
    if (got) sym_check(pb_enum_value_descriptor_number(got) == x && got >= v && got < v + n, "a number denotes an enum value that carries it");
    sym_reach(present ? 3 : 4);
  }
  ITER(pb_enum_descriptor, &d, n, &v[k]);
  sym_check(pb_enum_descriptor_size(&d) == n && !pb_enum_descriptor_empty(&d) == !!n, "an enum descriptor tells its size");
  free(v);
}
#endif
#ifdef D_ONEOF
void harness(void) {
  size_t idx[3], n = sym_range(0, 3), *p = malloc(n ? n * sizeof *p : 1);
  for (size_t i = 0; i < n; i++) p[i] = idx[i] = sym_range(i ? idx[i - 1] + 1 : 0, 15 - 2 + i);
  pb_oneof_descriptor_t o = { &d_main, { p, n } };
  ITER(pb_oneof_descriptor, &o, n, &d_main.field.data[idx[k]]);
  sym_check(pb_oneof_descriptor_size(&o) == n && !pb_oneof_descriptor_empty(&o) == !!n, "a oneof descriptor tells its size");
  sym_reach(1);
  free(p);
}
#endif
