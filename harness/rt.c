/* The part of libc the library uses, for the symbolic engine. malloc, calloc,
 * realloc, free, memcpy, memmove, memset and memcmp are built into pbse. */
#include <stddef.h>
#include <stdint.h>
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) {
  for (;; a++, b++) {
    unsigned char x = (unsigned char)*a, y = (unsigned char)*b;
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
}
int strncmp(const char *a, const char *b, size_t n) {
  for (; n; a++, b++, n--) {
    unsigned char x = (unsigned char)*a, y = (unsigned char)*b;
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
  return 0;
}
void *memchr(const void *s, int c, size_t n) {
  const unsigned char *p = s;
  for (; n; p++, n--) if (*p == (unsigned char)c) return (void *)p;
  return 0;
}
char *strchr(const char *s, int c) {
  for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; }
}
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) {
  char *r = d;
  for (; n && *s; n--) *d++ = *s++;
  for (; n; n--) *d++ = 0;
  return r;
}
void *stdout_obj, *stderr_obj;
void *stdout = &stdout_obj, *stderr = &stderr_obj;
int fflush(void *f) { (void)f; return 0; }
size_t strnlen(const char *s, size_t n) { size_t k = 0; while (k < n && s[k]) k++; return k; }
int abs(int x) { return x < 0 ? -x : x; }
