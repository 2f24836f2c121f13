/* Positive examples for the width rule: every marked line must be reported. */
#include <stddef.h>
typedef unsigned char u8;
void leaf(u8 *);
struct k;
static void helper(u8 *d, int n) { int i; for (i = 0; i < n; i++) d[i] ^= 1; }             /* signed */
static void narrow(u8 *d, unsigned short n) { while (n--) leaf(d++); }
void dvbcsa_encrypt(const struct k *key, u8 *data, unsigned int len) {
  int i;
  for (i = (int)(len & ~7u) - 8; i > 0; i -= 8) leaf(data + i);                            /* signed */
  unsigned char c;
  for (c = 0; c < len / 8; c++) leaf(data + c);                                            /* counter */
  helper(data, len);
}
void dvbcsa_decrypt(const struct k *key, u8 *data, unsigned int len) {
  unsigned short n = len;                                                                  /* narrow */
  unsigned i;
  for (i = 0; i < n; i++) leaf(data + i);
  narrow(data, len >> 3);                                                                  /* narrow */
  unsigned bits = len * 8;                                                                 /* overflow */
  for (i = 0; i < bits; i += 8) leaf(data + i / 8);
  int blocks = (int)len / 8;                                                               /* signed */
  for (i = 0; i < (unsigned)blocks; i++) leaf(data + 8 * i);
}
