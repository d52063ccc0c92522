/* Generated accessors against the generic operations. Two messages with the
 * same bytes: the generated function works on one, the generic operation with
 * the schema's tags on the other; results and bytes must be the same. */
#undef NDEBUG                       /* assertions of the generated functions count */
#include "common.h"
void __assert_fail(const char *expr, const char *file, unsigned line, const char *func) {
  (void)expr; (void)file; (void)line; (void)func;
  sym_fail("an assertion in a generated function");
  for (;;) exit(1);
}
static pb_journal_t ja, jb; static pb_message_t ma, mb;
typedef union { uint8_t raw[16]; pb_string_t s; pb_enum_t e; uint64_t u; } val;
static uint8_t text[2][4]; static int ntext;
static int is_string(pb_type_t t) { return t == PB_TYPE_STRING || t == PB_TYPE_BYTES; }
static val any(pb_type_t t) {
  val v; memset(&v, 0, sizeof v);
  if (is_string(t)) {
    uint8_t *b = text[ntext++ & 1]; size_t n = (size_t)sym_range(1, 2);
    sym_bytes(b, n); v.s.data = b; v.s.size = n;
  } else sym_bytes(v.raw, ref_size(t));
  if (t == PB_TYPE_BOOL) sym_assume(v.raw[0] < 2);
  return v;
}
static void open_both(const pb_descriptor_t *d) {
  size_t n = pb_buffer_size(&jb.buffer);
  ja = n ? pb_journal_create(pb_buffer_data(&jb.buffer), n) : pb_journal_create_empty();
  ma = pb_message_create(d, &ja);
}
static pb_error_t generic_put(pb_message_t *m, const pb_tag_t *t, size_t n, const void *v) {
  return n == 1 ? pb_message_put(m, t[0], v) : pb_message_nested_put(m, t, n, v);
}
static pb_message_t generic_create(pb_message_t *m, const pb_tag_t *t, size_t n) {
  return n == 1 ? pb_message_create_within(m, t[0]) : pb_message_create_nested(m, t, n);
}
/* Absent, or present with any value. */
static int begin(const pb_descriptor_t *d, const pb_tag_t *t, size_t n, pb_type_t type) {
  jb = pb_journal_create_empty(); mb = pb_message_create(d, &jb);
  int present = (int)sym_range(0, 1);
  if (present && type == PB_TYPE_MESSAGE) {
    pb_message_t s = generic_create(&mb, t, n);
    sym_check(pb_message_valid(&s), "the field of the schema can be created");
    pb_message_destroy(&s);
  } else if (present) { val v = any(type); sym_check(generic_put(&mb, t, n, &v) == PB_ERROR_NONE, "the field of the schema can be written"); }
  open_both(d);
  sym_reach(present);
  return present;
}
static void same(void) {
  size_t n = pb_buffer_size(&ja.buffer);
  sym_check(n == pb_buffer_size(&jb.buffer), "generated and generic function leave equally many bytes");
  sym_check(!memcmp(pb_buffer_data(&ja.buffer), pb_buffer_data(&jb.buffer), n), "generated and generic function leave the same bytes");
  sym_obs(n); for (size_t i = 0; i < n; i++) sym_obs(pb_buffer_data(&ja.buffer)[i]);
}
static void end(void) {
  same();
  pb_message_destroy(&ma); pb_message_destroy(&mb); pb_journal_destroy(&ja); pb_journal_destroy(&jb);
  sym_check(sym_heap_live() == 0, "nothing is leaked");
}
#define TAGS(...) (const pb_tag_t []){ __VA_ARGS__ }
#define CASE_HAS(D, T, N, TYPE, F) { \
  begin(&D, T, N, TYPE); \
  int a = F(&ma), b = N == 1 ? pb_message_has(&mb, (T)[0]) : pb_message_nested_has(&mb, T, N); \
  sym_check(!a == !b, "a generated test is the generic one"); sym_obs(a); end(); sym_reach(10); }
#define CASE_GET(D, T, N, TYPE, CT, F) { \
  begin(&D, T, N, TYPE); \
  val va, vb; memset(&va, 0xa5, sizeof va); memset(&vb, 0xa5, sizeof vb); \
  pb_error_t a = F(&ma, (CT *)&va), b = N == 1 ? pb_message_get(&mb, (T)[0], &vb) : pb_message_nested_get(&mb, T, N, &vb); \
  sym_check(a == b, "a generated read reports what the generic one does"); \
  if (!a && is_string(TYPE)) sym_check(va.s.size == vb.s.size && !memcmp(va.s.data, vb.s.data, va.s.size), "a generated read yields the same string"); \
  else sym_check(!memcmp(&va, &vb, sizeof va), "a generated read yields the same value"); \
  sym_obs(a); end(); sym_reach(11); }
#define CASE_PUT(D, T, N, TYPE, CT, F) { \
  begin(&D, T, N, TYPE); val v = any(TYPE); \
  pb_error_t a = F(&ma, (const CT *)&v), b = generic_put(&mb, T, N, &v); \
  sym_check(a == b, "a generated write reports what the generic one does"); sym_obs(a); end(); sym_reach(12); }
#define CASE_ERASE(D, T, N, TYPE, F) { \
  begin(&D, T, N, TYPE); \
  pb_error_t a = F(&ma), b = N == 1 ? pb_message_erase(&mb, (T)[0]) : pb_message_nested_erase(&mb, T, N); \
  sym_check(a == b, "a generated erasure reports what the generic one does"); sym_obs(a); end(); sym_reach(13); }
#define CASE_CREATE(D, T, N, REFER, F) { \
  begin(&D, T, N, PB_TYPE_MESSAGE); \
  pb_message_t a = F(&ma), b = generic_create(&mb, T, N); \
  sym_check(pb_message_valid(&a) && pb_message_valid(&b), "a submessage can be created"); \
  sym_check(pb_message_descriptor(&a) == &REFER, "a created submessage has the type the schema gives it"); \
  sym_check(pb_message_start(&a) == pb_message_start(&b) && pb_message_end(&a) == pb_message_end(&b), "the submessage is created at the same place"); \
  pb_message_destroy(&a); pb_message_destroy(&b); end(); sym_reach(14); }
#define CASE_CURSOR(D, T, N, F) { \
  begin(&D, T, N, PB_TYPE_MESSAGE); \
  pb_cursor_t a = F(&ma), b = N == 1 ? pb_cursor_create(&mb, (T)[0]) : pb_cursor_create_nested(&mb, T, N); \
  sym_check(pb_cursor_valid(&a) == pb_cursor_valid(&b) && pb_cursor_error(&a) == pb_cursor_error(&b), "a generated cursor is as valid as the generic one"); \
  if (pb_cursor_valid(&a)) { \
    sym_check(pb_cursor_tag(&a) == pb_cursor_tag(&b), "a generated cursor is at the same field"); \
    for (int i = 0; i < 3; i++) { int x = pb_cursor_next(&a); sym_check(x == pb_cursor_next(&b), "a generated cursor visits as many values"); if (!x) break; } } \
  pb_cursor_destroy(&a); pb_cursor_destroy(&b); end(); sym_reach(15); }
#define CASE_MATCH(D, T, N, EV, F) { \
  begin(&D, T, N, PB_TYPE_ENUM); pb_enum_t v = EV; \
  int a = F(&ma), b = N == 1 ? pb_message_match(&mb, (T)[0], &v) : pb_message_nested_match(&mb, T, N, &v); \
  sym_check(!a == !b, "a generated test for an enumeration value is the generic one"); sym_obs(a); end(); sym_reach(16); }
#define CASE_PUTV(D, T, N, EV, F) { \
  begin(&D, T, N, PB_TYPE_ENUM); pb_enum_t v = EV; \
  pb_error_t a = F(&ma), b = generic_put(&mb, T, N, &v); \
  sym_check(a == b, "a generated write of an enumeration value reports what the generic one does"); end(); sym_reach(17); }
/* encoders */
static void same_bytes(const pb_encoder_t *a, const pb_encoder_t *b) {
  size_t n = pb_buffer_size(pb_encoder_buffer(a));
  sym_check(n == pb_buffer_size(pb_encoder_buffer(b)), "generated and generic encoder yield equally many bytes");
  sym_check(!memcmp(pb_buffer_data(pb_encoder_buffer(a)), pb_buffer_data(pb_encoder_buffer(b)), n), "generated and generic encoder yield the same bytes");
  sym_obs(n);
}
static pb_encoder_t sub(const pb_descriptor_t *d) {
  pb_encoder_t e = pb_encoder_create(d);
  if (sym_range(0, 1)) for (size_t i = 0; i < d->field.size; i++) if (d->field.data[i].type != PB_TYPE_MESSAGE) {
    val v = any(d->field.data[i].type);
    sym_check(pb_encoder_encode(&e, d->field.data[i].tag, &v, 1) == PB_ERROR_NONE, "a field of the schema can be encoded");
    break;
  }
  return e;
}
#define CASE_ENC(D, M, TAG, TYPE, CT, F, COUNT, ...) { \
  pb_encoder_t a = M##_encoder_create(), b = pb_encoder_create(&D); size_t n = COUNT; \
  CT v[2]; for (size_t i = 0; i < n; i++) { val x = any(TYPE); memcpy(&v[i], &x, sizeof v[i]); } \
  pb_error_t x = F(&a, v __VA_ARGS__), y = pb_encoder_encode(&b, TAG, v, n); \
  sym_check(x == y, "a generated encoder reports what the generic one does"); sym_check(!x, "a field of the schema can be encoded"); \
  same_bytes(&a, &b); M##_encoder_destroy(&a); pb_encoder_destroy(&b); \
  sym_check(sym_heap_live() == 0, "nothing is leaked"); sym_reach(18); }
#define CASE_ENCM(D, M, TAG, REFER, F, COUNT, ...) { \
  pb_encoder_t a = M##_encoder_create(), b = pb_encoder_create(&D); size_t n = COUNT; \
  pb_encoder_t v[2]; for (size_t i = 0; i < n; i++) v[i] = sub(&REFER); \
  pb_error_t x = F(&a, v __VA_ARGS__), y = pb_encoder_encode(&b, TAG, v, n); \
  sym_check(x == y, "a generated encoder reports what the generic one does"); sym_check(!x, "a field of the schema can be encoded"); \
  same_bytes(&a, &b); M##_encoder_destroy(&a); pb_encoder_destroy(&b); for (size_t i = 0; i < n; i++) pb_encoder_destroy(&v[i]); \
  sym_check(sym_heap_live() == 0, "nothing is leaked"); sym_reach(19); }
#define CASE_ENCV(D, M, TAG, EV, F) { \
  pb_encoder_t a = M##_encoder_create(), b = pb_encoder_create(&D); pb_enum_t v = EV; \
  pb_error_t x = F(&a), y = pb_encoder_encode(&b, TAG, &v, 1); \
  sym_check(x == y && !x, "a generated encoder of an enumeration value reports what the generic one does"); \
  same_bytes(&a, &b); M##_encoder_destroy(&a); pb_encoder_destroy(&b); \
  sym_check(sym_heap_live() == 0, "nothing is leaked"); sym_reach(20); }
/* the member of a oneof written last is the one reported */
typedef struct { pb_tag_t tag; pb_type_t type; } member;
static pb_tag_t write_member(pb_message_t *m, const member *o, size_t n) {
  size_t i = (size_t)sym_range(0, n);
  if (i == n) return 0;
  if (o[i].type == PB_TYPE_MESSAGE) { pb_message_t s = pb_message_create_within(m, o[i].tag); sym_check(pb_message_valid(&s), "a member can be created"); pb_message_destroy(&s); }
  else { val v = any(o[i].type); sym_check(pb_message_put(m, o[i].tag, &v) == PB_ERROR_NONE, "a member can be written"); }
  return o[i].tag;
}
#define CASE_ONEOF(D, F, N, ...) { \
  static const member o[] = { __VA_ARGS__ }; \
  jb = pb_journal_create_empty(); mb = pb_message_create(&D, &jb); \
  pb_tag_t first = write_member(&mb, o, N), second = write_member(&mb, o, N); \
  open_both(&D); \
  sym_check(F(&ma) == (second ? second : first), "the generated case function reports the member written last"); \
  end(); sym_reach(21); }
/* messages, decoders, encoders */
static const pb_field_descriptor_t *seen[2][2]; static uint64_t seen_value[2][2]; static int nseen[2];
static pb_error_t on(const pb_field_descriptor_t *f, const void *value, void *user) {
  int k = *(int *)user; 
  if (nseen[k] < 2) { seen[k][nseen[k]] = f; memcpy(&seen_value[k][nseen[k]], value, is_string(f->type) ? 8 : f->type == PB_TYPE_MESSAGE ? 0 : ref_size(f->type)); }
  nseen[k]++;
  return PB_ERROR_NONE;
}
#define CASE_CODEC(D, M, BYTES_) { \
  uint8_t *d = sym_block(BYTES_); if (BYTES_ < 3) sym_assume(d[0] < 128); pb_buffer_t buf = ro_buffer(d, BYTES_); int k0 = 0, k1 = 1; \
  pb_decoder_t a = M##_decoder_create(&buf), b = pb_decoder_create(&D, &buf); \
  sym_check(pb_decoder_descriptor(&a) == &D && pb_decoder_valid(&a), "a generated decoder decodes its message"); \
  pb_error_t x = M##_decode(&a, on, &k0), y = pb_decoder_decode(&b, on, &k1); \
  sym_check(x == y && nseen[0] == nseen[1] && !memcmp(seen[0], seen[1], sizeof seen[0]) && !memcmp(seen_value[0], seen_value[1], sizeof seen_value[0]), "a generated decoder delivers what the generic one does"); \
  sym_obs(x); sym_obs(nseen[0]); \
  M##_decoder_destroy(&a); pb_decoder_destroy(&b); pb_buffer_destroy(&buf); free(d); \
  ACCT(acct); pb_encoder_t e = M##_encoder_create_with_allocator(&acct_alloc); \
  sym_check(pb_encoder_descriptor(&e) == &D && pb_encoder_valid(&e) && !pb_buffer_size(pb_encoder_buffer(&e)), "a generated encoder encodes its message"); \
  size_t hidden = 0; \
  for (size_t i = 0; i < D.field.size; i++) if (D.field.data[i].type == PB_TYPE_UINT32) { \
    uint32_t v = 77; sym_check(pb_encoder_encode(&e, D.field.data[i].tag, &v, 1) == PB_ERROR_NONE, "encoding succeeds"); hidden = 1; break; } \
  sym_check(acct.calls >= (long)hidden && acct.live == (long)hidden, "a generated encoder uses the allocator it is given"); \
  M##_encoder_destroy(&e); sym_check(acct.live == 0 && sym_heap_live() == 0, "everything is returned"); sym_reach(22); }
#define CASE_MESSAGE(D, M, BYTES_) { \
  uint8_t *d = sym_block(BYTES_); jb = pb_journal_create(d, BYTES_); free(d); mb = pb_message_create(&D, &jb); \
  ja = pb_journal_create(pb_buffer_data(&jb.buffer), BYTES_); ma = M##_create(&ja); \
  sym_check(pb_message_valid(&ma) && pb_message_descriptor(&ma) == &D && pb_message_journal(&ma) == &ja, "a generated constructor opens its message"); \
  for (size_t i = 0; i < D.field.size; i++) sym_check(pb_message_has(&ma, D.field.data[i].tag) == pb_message_has(&mb, D.field.data[i].tag), "a message opened by a generated constructor reads the same"); \
  same(); M##_destroy(&ma); pb_message_destroy(&mb); pb_journal_destroy(&ja); pb_journal_destroy(&jb); \
  sym_check(sym_heap_live() == 0, "nothing is leaked"); sym_reach(23); }

/* ------------------------------------------------------------ descriptors */
typedef struct { pb_tag_t tag; const char *name; pb_type_t type; pb_label_t label; int packed; const void *refer; int dflt; uint64_t bits; const char *str; size_t len; int extension; } row;
static int nan_bits(pb_type_t t, uint64_t b) {
  return t == PB_TYPE_FLOAT ? (b & 0x7f800000) == 0x7f800000 && (b & 0x7fffff) : (b & 0x7ff0000000000000) == 0x7ff0000000000000 && (b & 0xfffffffffffff);
}
static void check_row(const pb_descriptor_t *d, const row *r, const pb_field_descriptor_t *f) {
  sym_check(pb_field_descriptor_tag(f) == r->tag, "a field has the tag of the schema");
  sym_check(!strcmp(pb_field_descriptor_name(f), r->name), "a field has the name of the schema");
  sym_check(pb_field_descriptor_type(f) == r->type, "a field has the type of the schema");
  sym_check(pb_field_descriptor_label(f) == r->label, "a field has the label of the schema");
  sym_check(!pb_field_descriptor_packed(f) == !r->packed, "a field is packed if the schema says so");
  if (r->type == PB_TYPE_MESSAGE || r->type == PB_TYPE_ENUM) sym_check(f->refer == r->refer, "a field refers to the message or enumeration of the schema");
  if (r->label == PB_LABEL_ONEOF) { sym_check(f->value == r->str, "a member refers to its oneof"); return; }
  const void *v = pb_field_descriptor_default(f);
  sym_check(!v == !r->dflt, "a field has a default if the schema gives it one");
  if (!v) return;
  if (is_string(r->type)) {
    const pb_string_t *s = v;
    sym_check(s->size == r->len && !memcmp(s->data, r->str, r->len), "a default string is that of the schema");
  } else {
    uint64_t b = 0; memcpy(&b, v, ref_size(r->type));
    int floating = r->type == PB_TYPE_FLOAT || r->type == PB_TYPE_DOUBLE;
    sym_check(floating && nan_bits(r->type, r->bits) ? nan_bits(r->type, b) : b == r->bits, "a default value is that of the schema");
  }
  (void)d;
}
static void check_message(const pb_descriptor_t *d, const row *rows, size_t n, size_t base) {
  pb_tag_t tag = sym_u32(); sym_assume(tag != 0);
  sym_check(pb_descriptor_size(d) == base, "a message has as many fields as in the schema");
  for (size_t i = 0; i + 1 < base; i++) sym_check(d->field.data[i].tag < d->field.data[i + 1].tag, "fields are in the order of tags");
  const pb_field_descriptor_t *f = pb_descriptor_field_by_tag(d, tag);
  const row *r = NULL;
  for (size_t i = 0; i < n; i++) if (rows[i].tag == tag) { r = &rows[i]; break; }
  sym_check(!f == !r, "exactly the fields of the schema and its extensions are found");
  if (f) { check_row(d, r, f); sym_reach(r->extension ? 31 : 30); } else sym_reach(32);
}
typedef struct { int32_t number; const char *name; } evalue;
static void check_enum(const pb_enum_descriptor_t *d, const evalue *v, size_t n) {
  pb_enum_t number = (pb_enum_t)sym_u32();
  sym_check(pb_enum_descriptor_size(d) == n, "an enumeration has as many values as in the schema");
  for (size_t i = 0; i < n; i++) {
    size_t k = 0;
    for (size_t m = 0; m < n; m++) k += d->value.data[m].number == v[i].number && !strcmp(d->value.data[m].name, v[i].name);
    sym_check(k == 1, "every value of an enumeration has the name and number of the schema");
  }
  const pb_enum_value_descriptor_t *x = pb_enum_descriptor_value_by_number(d, number);
  int hit = 0, named = 0;
  for (size_t i = 0; i < n; i++) if (v[i].number == number) { hit = 1; if (x && !strcmp(x->name, v[i].name)) named = 1; }
  sym_check(!x == !hit && named == hit, "exactly the values of the schema are found");
  sym_reach(33 + hit);
}
static void check_oneof(const pb_oneof_descriptor_t *o, const pb_descriptor_t *d, const pb_tag_t *tags, size_t n) {
  sym_check(o->descriptor == d, "a oneof belongs to its message");
  sym_check(pb_oneof_descriptor_size(o) == n, "a oneof has as many members as in the schema");
  for (size_t i = 0; i < n; i++) {
    size_t k = o->index.data[i], hits = 0;
    sym_check(k < d->field.size && (!i || k > o->index.data[i - 1]), "members of a oneof are fields of its message, in order");
    for (size_t t = 0; t < n; t++) hits += d->field.data[k].tag == tags[t];
    sym_check(hits == 1, "members of a oneof are those of the schema");
  }
  sym_reach(35);
}
