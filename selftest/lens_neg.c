/* Idioms that are right for every length: nothing may be reported here. */
#include <stddef.h>
typedef unsigned char u8;
void leaf(u8 *);
struct k;
static unsigned tail_of(unsigned len) { return len & 7; }
static size_t whole(size_t len) { return len - len % 8; }
static void chunked(u8 *d, unsigned len) { while (len) { unsigned short c = len > 1000 ? 1000 : len, j; for (j = 0; j < c; j++) leaf(d + j); d += c; len -= c; } }
void dvbcsa_encrypt(const struct k *key, u8 *data, unsigned int len) {
  int blocks = len / 8, i;
  u8 tail = len & 7, j, t2 = (u8)len & 7;
  unsigned n, left = len;
  size_t z;
  u8 *p, *end;
  if (len < 8) return;
  for (i = 0; i < blocks; i++) leaf(data + (size_t)i * 8);
  for (i = blocks - 1; i >= 0; i--) leaf(data + (size_t)i * 8);
  while (blocks--) leaf(data);
  for (j = 0; j < tail; j++) leaf(data + j);
  for (j = t2; j > 0; j--) leaf(data + j);
  for (n = (len >> 3) - 1; n > 0; n--) leaf(data + n * 8);
  for (n = len & ~7u; n != 0; n -= 8) leaf(data + n - 8);
  while (left >= 8) { leaf(data); data += 8; left -= 8; }
  for (z = 0; z + 8 <= len; z += 8) leaf(data + z);
  for (p = data, end = data + len; p < end; p++) leaf(p);
  do { leaf(data); } while (--left);
}
void dvbcsa_decrypt(const struct k *key, u8 *data, unsigned int len) {
  unsigned i, alen = len - tail_of(len);
  long long w = len; 
  ptrdiff_t q;
  if (len < 8) return;
  for (i = 8; i < alen; i += 8) leaf(data + i);
  for (i = 0; i < len; i++) leaf(data + i);
  for (w -= 8; w >= 0; w -= 8) leaf(data + w);
  for (q = (ptrdiff_t)whole(len) - 8; q > 0; q -= 8) leaf(data + q);
  chunked(data, len);
  if (len < 256) { u8 c = len; while (c--) leaf(data + c); }
  switch (len & 7) { case 3: leaf(data); case 2: leaf(data + 1); break; default: leaf(data + 2); }
  for (i = len; i--;) leaf(data + i);
}
