/* Strings: equality is equality of size and bytes. */
#include "common.h"
void harness(void) {
  size_t n = sym_range(0, N), m = sym_range(0, N);
  uint8_t *a = malloc(n ? n : 1), *b = malloc(m ? m : 1);
  sym_bytes(a, n); sym_bytes(b, m);
  pb_string_t x = pb_string_init(a, n), y = pb_string_init(b, m);
  int same = n == m; for (size_t i = 0; i < n && i < m; i++) same &= a[i] == b[i];
  sym_check(!pb_string_equals(&x, &y) == !same, "strings are equal exactly if sizes and bytes are");
  sym_check(pb_string_size(&x) == n && pb_string_data(&x) == a && !pb_string_empty(&x) == !!n, "a string tells its size and data");
  sym_reach(same ? 1 : 2);
  /* from a nul-terminated array */
  char *c = malloc(n + 1);
  for (size_t i = 0; i < n; i++) c[i] = (char)a[i];
  c[n] = 0;
  size_t len = 0; while (c[len]) len++;
  pb_string_t z = pb_string_init_from_chars(c);
  sym_check(z.size == len && z.data == (uint8_t *)c, "a string made from characters ends before the terminator");
  free(a); free(b); free(c);
}
