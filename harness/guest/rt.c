/* What a libc and libgcc would provide on the foreign platform. */
#include <stdint.h>
#include <stddef.h>
void *memcpy(void *d, const void *s, size_t n) {
  volatile char *a = d;
  const char *b = s;
  while (n--)
    *a++ = *b++;
  return d;
}
void *memmove(void *d, const void *s, size_t n) {
  volatile char *a = d;
  const char *b = s;
  if (a < b)
    while (n--)
      *a++ = *b++;
  else
    while (n--)
      a[n] = b[n];
  return d;
}
void *memset(void *d, int c, size_t n) {
  volatile char *a = d;
  while (n--)
    *a++ = (char)c;
  return d;
}
int memcmp(const void *x, const void *y, size_t n) {
  const unsigned char *a = x, *b = y;
  for (; n; n--, a++, b++)
    if (*a != *b)
      return *a - *b;
  return 0;
}
int strcmp(const char *a, const char *b) {
  for (; *a && *a == *b; a++, b++)
    ;
  return (unsigned char)*a - (unsigned char)*b;
}
size_t strlen(const char *s) {
  size_t n = 0;
  while (s[n])
    n++;
  return n;
}
void abort(void) { __builtin_trap(); }

/* what a compiler's runtime library has */
typedef unsigned long long u64;
static u64 divide(u64 a, u64 b, u64 *rem) {
  u64 q = 0, r = 0;
  for (int i = 63; i >= 0; i--) {
    r = r << 1 | (a >> i & 1);
    if (r >= b)
      r -= b, q |= 1ull << i;
  }
  *rem = r;
  return q;
}
u64 __udivdi3(u64 a, u64 b) {
  u64 r;
  return divide(a, b, &r);
}
u64 __umoddi3(u64 a, u64 b) {
  u64 r;
  divide(a, b, &r);
  return r;
}
