/* The schemas most harnesses use. */
#include "common.h"

static const uint32_t dflt_u32 = 42;
static const pb_string_t dflt_str = pb_string_const("def");

static const pb_enum_value_descriptor_t ev[] = { { -7, "MINUS" }, { 0, "ZERO" }, { 1, "ONE" }, { 5, "FIVE" } };
const pb_enum_descriptor_t e_main = { { ev, 4 } };

static const pb_field_descriptor_t f_leaf[] = {
  { 1, "x", UINT32, REQUIRED },
  { 2, "y", UINT32, REPEATED },
};
pb_descriptor_t d_leaf = { { f_leaf, 2 } };

static const pb_field_descriptor_t f_in[] = {
  { 1, "a", UINT32,  OPTIONAL },
  { 2, "s", STRING,  OPTIONAL },
  { 3, "m", MESSAGE, OPTIONAL, &d_leaf },
  { 4, "p", UINT32,  REPEATED, NULL, NULL, PACKED },
};
pb_descriptor_t d_in = { { f_in, 4 } };

extern pb_descriptor_t d_main;
const pb_oneof_descriptor_t o_main = { &d_main, { (const size_t[]){ 6, 7, 8 }, 3 } };
static const pb_field_descriptor_t f_main[] = {
  {  1, "u",   UINT32,  OPTIONAL, NULL, &dflt_u32 },
  {  2, "str", STRING,  OPTIONAL, NULL, &dflt_str },
  {  3, "msg", MESSAGE, OPTIONAL, &d_in },
  {  4, "rep", UINT32,  REPEATED },
  {  5, "pck", UINT32,  REPEATED, NULL, NULL, PACKED },
  {  6, "fix", FIXED32, REQUIRED },
  {  7, "oa",  UINT32,  ONEOF, NULL, &o_main },
  {  8, "ob",  STRING,  ONEOF, NULL, &o_main },
  {  9, "oc",  MESSAGE, ONEOF, &d_in, &o_main },
  { 10, "rm",  MESSAGE, REPEATED, &d_leaf },
  { 11, "pf",  FIXED32, REPEATED, NULL, NULL, PACKED },
  { 12, "sg",  SINT64,  REQUIRED },
  { 13, "bo",  BOOL,    OPTIONAL },
  { 14, "i3",  INT32,   OPTIONAL },
  { 15, "dbl", DOUBLE,  OPTIONAL },
  { 20, "en",  ENUM,    OPTIONAL, &e_main },
};
pb_descriptor_t d_main = { { f_main, 16 } };
