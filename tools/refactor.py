import subprocess,sys,os,re
SRC='/repo'
def rep(s,a,b,n=1):
    assert s.count(a)>=1,(a[:80]); return s.replace(a,b) if n==0 else s.replace(a,b,n)
def func(s,start,new):
    """replace the function whose definition begins with start up to its closing brace in column 0"""
    i=s.index(start); j=s.index('\n}\n',i)+3; return s[:i]+new+s[j:]
R={}
def r(f):
    def d(g): R.setdefault(g.__name__,[]).append((f,g)); return g
    return d
@r('src/dvbcsa_algo.c')
def A1(s):
    s=func(s,'void dvbcsa_decrypt','''static void dec_chain(const uint8_t *sch, uint8_t *first, const uint8_t *end)
{
  uint8_t *p = first;

  dvbcsa_block_decrypt(sch, p, p);
  for (p += 8; p < end; p += 8)
    {
      dvbcsa_xor_64(p - 8, p);
      dvbcsa_block_decrypt(sch, p, p);
    }
}

void dvbcsa_decrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int len)
{
  if (len >= 8)
    {
      uint8_t *end = data + (len - len % 8);
      dvbcsa_stream_xor(key->cws, data, data + 8, len - 8);
      dec_chain(key->sch, data, end);
    }
}
''')
    return func(s,'void dvbcsa_encrypt','''static void enc_one(const struct dvbcsa_key_s *key, uint8_t *b)
{
  dvbcsa_block_encrypt(key->sch, b, b);
}

void dvbcsa_encrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int len)
{
  size_t n = len / 8;
  uint8_t *p;

  if (n == 0)
    return;

  p = data + (n - 1) * 8;
  enc_one(key, p);
  while (p != data)
    {
      p -= 8;
      dvbcsa_xor_64(p, p + 8);
      enc_one(key, p);
    }
  dvbcsa_stream_xor(key->cws, data, data + 8, len - 8);
}
''')
@r('src/dvbcsa_algo.c')
def A2(s):
    s=func(s,'void dvbcsa_decrypt','''void dvbcsa_decrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int len)
{
  const unsigned int blocks = len >> 3;
  unsigned int n;
  uint64_t next;

  if (blocks == 0)
    goto out;

  dvbcsa_stream_xor(key->cws, data, data + 8, len - 8);
  n = 0;
  do
    {
      uint8_t *b = data + (size_t)n * 8;
      dvbcsa_block_decrypt(key->sch, b, b);
      if (++n == blocks)
        break;
      memcpy(&next, b + 8, 8);
      {
        uint64_t v;
        memcpy(&v, b, 8);
        v ^= next;
        memcpy(b, &v, 8);
      }
    }
  while (1);
out:
  return;
}
''')
    return func(s,'void dvbcsa_encrypt','''void dvbcsa_encrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int len)
{
  const unsigned int blocks = len >> 3;
  unsigned int n;
  dvbcsa_block_t prev = { 0, 0, 0, 0, 0, 0, 0, 0 };

  if (blocks == 0)
    return;
  for (n = blocks; n-- > 0; )
    {
      uint8_t *b = data + (size_t)n * 8;
      unsigned int k;
      for (k = 0; k < 8; k++)
        b[k] ^= prev[k];
      dvbcsa_block_encrypt(key->sch, b, prev);
      memcpy(b, prev, sizeof(prev));
    }
  dvbcsa_stream_xor(key->cws, data, data + 8, len - 8);
}
''')
@r('src/dvbcsa_block.c')
def B1(s):
    s=func(s,'void dvbcsa_block_decrypt','''void dvbcsa_block_decrypt (const dvbcsa_keys_t key, const dvbcsa_block_t in, dvbcsa_block_t out)
{
  int i;
  uint8_t w0 = in[0], w1 = in[1], w2 = in[2], w3 = in[3], w4 = in[4], w5 = in[5], w6 = in[6], w7 = in[7];

  for (i = DVBCSA_KEYSBUFF_SIZE - 1; i >= 0; i--)
    {
      const uint8_t s = dvbcsa_block_sbox[w6 ^ key[i]];
      const uint8_t l = s ^ w7;
      const uint8_t n6 = csa_block_perm[s] ^ w5;

      w7 = w6; w6 = n6; w5 = w4; w4 = w3 ^ l; w3 = w2 ^ l; w2 = w1 ^ l; w1 = w0; w0 = l;
    }
  out[0] = w0; out[1] = w1; out[2] = w2; out[3] = w3; out[4] = w4; out[5] = w5; out[6] = w6; out[7] = w7;
}
''')
    return func(s,'void dvbcsa_block_encrypt','''void dvbcsa_block_encrypt (const dvbcsa_keys_t key, const dvbcsa_block_t in, dvbcsa_block_t out)
{
  const uint8_t *k = key, *end = key + DVBCSA_KEYSBUFF_SIZE;
  dvbcsa_block_t W;
  unsigned int j;

  for (j = 0; j < DVBCSA_DATA_SIZE; j++)
    W[j] = in[j];

  for (; k != end; ++k)
    {
      uint8_t first = W[0], S = dvbcsa_block_sbox[W[7] ^ *k];

      memmove(W, W + 1, 7);
      W[1] ^= first;
      W[2] ^= first;
      W[3] ^= first;
      W[5] ^= csa_block_perm[S];
      W[7] = first ^ S;
    }

  for (j = 0; j < DVBCSA_DATA_SIZE; j++)
    out[j] = W[j];
}
''')
@r('src/dvbcsa_block.c')
def B2(s):
    s=func(s,'void dvbcsa_block_decrypt','''static void dec_round(uint8_t k, uint8_t *W)
{
  uint8_t S = dvbcsa_block_sbox[k ^ W[6]], L = W[7] ^ S;
  int j;

  for (j = 7; j > 0; j--)
    W[j] = W[j - 1];
  for (j = 2; j <= 4; j++)
    W[j] ^= L;
  W[6] ^= csa_block_perm[S];
  W[0] = L;
}

void dvbcsa_block_decrypt (const dvbcsa_keys_t key, const dvbcsa_block_t in, dvbcsa_block_t out)
{
  unsigned int i;

  if (out != in)
    memcpy(out, in, DVBCSA_DATA_SIZE);
  for (i = 0; i < DVBCSA_KEYSBUFF_SIZE; i += 2)
    {
      dec_round(key[DVBCSA_KEYSBUFF_SIZE - 1 - i], out);
      dec_round(key[DVBCSA_KEYSBUFF_SIZE - 2 - i], out);
    }
}
''')
    return s
@r('src/dvbcsa_block.c')
def B3(s):
    return func(s,'void dvbcsa_key_set','''void dvbcsa_key_set (const dvbcsa_cw_t cw, struct dvbcsa_key_s *key)
{
  int i;

  dvbcsa_key_schedule_block(cw, key->sch);
  for (i = 0; i < 8; i++)
    {
      key->cws[i] = (uint8_t)(cw[i] << 4 | cw[i] >> 4);
      key->cw[i] = cw[i];
    }
}
''')
@r('src/dvbcsa_key.c')
def K1(s):
    return func(s,'void\ndvbcsa_key_schedule_block','''void
dvbcsa_key_schedule_block(const dvbcsa_cw_t cw, uint8_t * kk)
{
  uint64_t k = dvbcsa_load_le64(cw);
  unsigned int row = 7;

  while (row-- > 0)
    {
      uint64_t m = k ^ (row * 0x0101010101010101ULL);
      uint8_t *dst = kk + 8 * row;
      unsigned int j;

      for (j = 0; j < 8; j++, m >>= 8)
        dst[j] = (uint8_t)m;
      if (row)
        k = dvbcsa_key_permute_block(k);
    }
}
''')
@r('src/dvbcsa_key.c')
def K2(s):
    s=func(s,'static inline uint64_t dvbcsa_key_permute_block','''static inline uint64_t dvbcsa_key_permute_block(uint64_t k)
{
  return kperm[0][k & 0xff] | kperm[1][(k >> 8) & 0xff] | kperm[2][(k >> 16) & 0xff] | kperm[3][(k >> 24) & 0xff]
    | (kperm[4][(k >> 32) & 0xff] ^ kperm[5][(k >> 40) & 0xff]) | (kperm[6][(k >> 48) & 0xff] + kperm[7][k >> 56]);
}
''')
    return func(s,'void\ndvbcsa_key_schedule_block','''void
dvbcsa_key_schedule_block(const dvbcsa_cw_t cw, uint8_t * kk)
{
  uint64_t k[7];
  int i, j;

  k[6] = dvbcsa_load_le64(cw);
  for (i = 5; i >= 0; --i)
    k[i] = dvbcsa_key_permute_block(k[i + 1]);
  for (j = 0; j < 8; j++)
    for (i = 6; i >= 0; i--)
      kk[i * 8 + j] = ((k[i] >> (j * 8)) & 0xff) ^ (unsigned)i;
}
''')
@r('src/dvbcsa_stream.c')
def S1(s):
    i=s.index('void dvbcsa_stream_xor')
    return s[:i]+'''struct stream_state { uint64_t A, B; uint32_t pqzyx, cfed; };

static void stream_setup(struct stream_state *st, const uint8_t *cw, const uint8_t *iv)
{
  const uint8_t *p;

  st->pqzyx = st->cfed = 0;
  st->A = dvbcsa_load_le32(cw);
  st->B = dvbcsa_load_le32(cw + 4);
  for (p = iv; p < iv + 8; p++)
    {
      uint8_t v[2];
      int k;

      v[0] = *p;
      v[1] = swap_nbl(*p);
      for (k = 0; k < 4; k++)
        csa_stream_init_round(v[k & 1], &st->A, &st->B, &st->pqzyx, &st->cfed);
    }
}

static uint8_t stream_byte(struct stream_state *st)
{
  static const uint8_t outbits[16] = { 0, 3, 3, 0, 1, 2, 2, 1, 2, 1, 1, 2, 3, 0, 0, 3 };
  uint8_t r = 0;
  int k;

  for (k = 0; k < 4; k++)
    {
      csa_stream_round(&st->A, &st->B, &st->pqzyx, &st->cfed);
      r = (uint8_t)(r << 2 | OUTBITS(st->cfed));
    }
  return r;
}

void dvbcsa_stream_xor (const dvbcsa_cw_t cw, const dvbcsa_block_t iv,
                        uint8_t *data, unsigned int len)
{
  struct stream_state st;
  uint8_t *end = data + len;

  stream_setup(&st, cw, iv);
  while (data < end)
    *data++ ^= stream_byte(&st);
}
'''.replace('OUTBITS(st->cfed)','(csa_out[GETD(st->cfed) & 0xf] & 3)').replace('  static const uint8_t outbits[16] = { 0, 3, 3, 0, 1, 2, 2, 1, 2, 1, 1, 2, 3, 0, 0, 3 };\n',TAB(s))
def TAB(s):
    i=s.index('static const uint8_t csa_stream_out[16]'); j=s.index('};',i)+2
    return '  '+s[i:j].replace('csa_stream_out','csa_out')+'\n'
@r('src/dvbcsa_stream.c')
def S2(s):
    a=s.index('  uint32_t              res;'); b=s.index('  return res;',a)
    s=s[:a]+'''  static const struct { uint64_t mask; uint8_t t, s[5]; } sel[7] = {
    { 0x2018004200LL, 1, { 37, 27, 25, 11, 5 } }, { 0x4201480000LL, 4, { 38, 32, 22, 16, 18 } },
    { 0x8040122000LL, 5, { 39, 29, 18, 14, 9 } }, { 0x1082010040LL, 0, { 36, 30, 23, 3, 12 } },
    { 0x0004a00180LL, 2, { 26, 22, 19, 5, 3 } }, { 0x0100048820LL, 3, { 32, 17, 9, 2, 11 } },
    { 0x0c20001400LL, 6, { 35, 33, 27, 9, 6 } } };
  uint32_t res = 0;
  int i, j;

  for (i = 0; i < 7; i++)
    {
      uint64_t t = A & sel[i].mask, x = 0;
      for (j = 0; j < 5; j++)
        x ^= t >> sel[i].s[j];
      res |= sbox[sel[i].t][x & 0x1f];
    }

'''+s[b:]
    s=rep(s,'return TSTP(pqzyx) ? ((x << 1) | ((x >> 3) & 1)) & 0xf : x;','if (!TSTP(pqzyx))\n    return x;\n  x = (x << 1) | ((x & 8) >> 3);\n  return x & 0xf;')
    return s
@r('src/dvbcsa_bs_algo.c')
def G1(s):
    s=func(s,'static void dvbcsa_pkt_buf_load','''static inline unsigned int used_len(const struct dvbcsa_bs_batch_s *p, unsigned int maxlen)
{
  if (p->len > maxlen)
    return maxlen;
  return p->len;
}

static void dvbcsa_pkt_buf_load(struct dvbcsa_bs_pkt_buf *pkt_buf,
                                const struct dvbcsa_bs_batch_s *pcks,
                                unsigned int maxlen)
{
  const struct dvbcsa_bs_batch_s *p = pcks;

  while (p->data != NULL)
    {
      const size_t i = p - pcks;
      unsigned int len = used_len(p, maxlen);

      memcpy(&pkt_buf->data[i * BS_PKT_BLOCKS8], p->data, len);
      pkt_buf->len8[i] = len - (len & 7);
      p++;
    }

  pkt_buf->maxlen = maxlen;
  pkt_buf->n_packets = p - pcks;
}
''')
    return func(s,'static void dvbcsa_pkt_buf_store','''static void dvbcsa_pkt_buf_store(const struct dvbcsa_bs_pkt_buf *pkt_buf,
                                const struct dvbcsa_bs_batch_s *pcks)
{
  int i;

  for (i = 0; i < pkt_buf->n_packets; ++i)
    memcpy(pcks[i].data, pkt_buf->data + i * BS_PKT_BLOCKS8, used_len(pcks + i, pkt_buf->maxlen));
}
''')
@r('src/dvbcsa_bs_algo.c')
def G2(s):
    s=rep(s,'''      memcpy(block, pcks[i].data, len);''','''      {
        uint8_t *d = (uint8_t *)block;
        unsigned int k;
        for (k = 0; k < len; k++)
          d[k] = pcks[i].data[k];
      }''')
    s=rep(s,'''      memcpy(pcks[i].data, block, len);''','''      if (len)
        memmove(pcks[i].data, block, len);''')
    a=s.index('void dvbcsa_bs_decrypt('); b=s.index('struct dvbcsa_bs_key_s * dvbcsa_bs_key_alloc')
    return s[:a]+'''static void run(const struct dvbcsa_bs_key_s *key, const struct dvbcsa_bs_batch_s *pcks, unsigned int maxlen, int encrypt)
{
  struct dvbcsa_bs_pkt_buf pbuf;

#ifdef HAVE_ASSERT_H
  assert((maxlen & 7) == 0 && maxlen <= DVBCSA_BS_MAX_PACKET_LEN);
#endif
  dvbcsa_pkt_buf_load(&pbuf, pcks, maxlen);
  switch (encrypt)
    {
    case 1:
      dvbcsa_bs_block_encrypt_batch(key, &pbuf, maxlen);
      dvbcsa_bs_stream_cipher_batch(key, &pbuf, maxlen);
      break;
    default:
      dvbcsa_bs_stream_cipher_batch(key, &pbuf, maxlen);
      dvbcsa_bs_block_decrypt_batch(key, &pbuf, maxlen);
      break;
    }
  BS_EMPTY ();
  dvbcsa_pkt_buf_store(&pbuf, pcks);
}

void dvbcsa_bs_decrypt(const struct dvbcsa_bs_key_s *key,
                       const struct dvbcsa_bs_batch_s *pcks,
                       unsigned int maxlen)
{
  run(key, pcks, maxlen, 0);
}

void dvbcsa_bs_encrypt(const struct dvbcsa_bs_key_s *key,
                       const struct dvbcsa_bs_batch_s *pcks,
                       unsigned int maxlen)
{
  run(key, pcks, maxlen, 1);
}

'''+s[b:]
@r('src/dvbcsa_bs_algo.c')
def G3(s):
    s=rep(s,'''  struct dvbcsa_bs_pkt_buf pbuf;
''','''  struct dvbcsa_bs_pkt_buf pbuf;

  memset(&pbuf, 0, sizeof(pbuf));
''',0)
    return s
@r('src/dvbcsa_bs_block.c')
def H1(s):
    s=rep(s,'''  for (i = maxlen - 8; i >= 0; i -= 8)
    dvbcsa_bs_block_encrypt_block(key, pkt_buf, i);''','''  for (i = maxlen / 8; i > 0; i--)
    dvbcsa_bs_block_encrypt_block(key, pkt_buf, (i - 1) * 8);''')
    s=rep(s,'''  for (i = 0; i < maxlen; i += 8)
    dvbcsa_bs_block_decrypt_block(key, pkt_buf, i);''','''  i = 0;
  while (i != maxlen)
    {
      dvbcsa_bs_block_decrypt_block(key, pkt_buf, i);
      i += 8;
    }''')
    s=rep(s,'''          w = r[8 * 8 + g];
          tmp1 = r[8 * 2 + g];
          tmp2 = r[8 * 3 + g];
          tmp3 = r[8 * 4 + g];
          w = BS_XOR(w, sbox_out);
          tmp4 = r[8 * 6 + g];
          tmp1 = BS_XOR(tmp1, w);
          tmp2 = BS_XOR(tmp2, w);
          tmp3 = BS_XOR(tmp3, w);
          r[8 * 0 + g] = w;
          r[8 * 2 + g] = tmp1;
          tmp4 = BS_XOR(tmp4, perm_out);
          r[8 * 3 + g] = tmp2;
          r[8 * 4 + g] = tmp3;
          r[8 * 6 + g] = tmp4;''','''          (void)tmp1; (void)tmp2; (void)tmp3; (void)tmp4;
          w = BS_XOR(sbox_out, r[64 + g]);
          r[8 * 6 + g] = BS_XOR(perm_out, r[8 * 6 + g]);
          for (int q = 4; q >= 2; q--)
            r[8 * q + g] = BS_XOR(w, r[8 * q + g]);
          r[g] = w;''')
    s=rep(s,'''        scratch1[g] = BS_XOR(block[i], r6_N[g]);''','''        scratch1[7 - g] = BS_XOR(r6_N[7 - g], block[i]);''')
    return s
@r('src/dvbcsa_bs_block.c')
def H2(s):
    s=rep(s,'''  dvbcsa_bs_word_t r[8 * (8 + 56)];

  dvbcsa_bs_block_transpose_in(r, pkt_buf, offset);''','''  dvbcsa_bs_word_t r[8 * (8 + 56)];
  unsigned int q;

  for (q = 0; q < sizeof(r) / sizeof(r[0]); q++)
    r[q] = BS_VAL8(00);
  dvbcsa_bs_block_transpose_in(r, pkt_buf, offset);''')
    s=rep(s,'for (j = 0; j < BS_BATCH_BYTES * 8; j += 4) \\','for (j = 0; j < BS_BATCH_BYTES * 8; j = j + 4) \\',0)
    return s
@r('src/dvbcsa_bs_key.c')
def BK1(s):
    a=s.index('  uint64_t ck ='); b=s.rindex('}')
    return s[:a]+'''  for (i = 0; i < DVBCSA_CWBITS_SIZE; i++)
    {
      int bit = i ^ 4;
      if (cw[bit / 8] & (1 << (bit % 8)))
        key->stream[i] = BS_VAL8(ff);
      else
        key->stream[i] = BS_VAL8(00);
    }

  dvbcsa_key_schedule_block(cw, kk);

  for (i = 0; i < DVBCSA_KEYSBUFF_SIZE; i++)
    memset(&key->block[i], kk[i], sizeof(key->block[i]));
}
'''
@r('src/dvbcsa_bs_key.c')
def BK2(s):
    return rep(s,'''    key->stream[i] = (ck >> (i^4)) & 1 ? BS_VAL8(ff) : BS_VAL8(00);''','''    {
      int bit = i ^ 4;
      if (cw[bit / 8] & (1 << (bit % 8)))
        key->stream[i] = BS_VAL8(ff);
      else
        key->stream[i] = BS_VAL8(00);
    }''')
@r('src/dvbcsa_bs_key.c')
def BK3(s):
    a=s.index('#if BS_BATCH_SIZE == 32'); b=s.rindex('    }')
    return s[:a]+'      memset(&key->block[i], kk[i], sizeof(key->block[i]));\n'+s[b:]
@r('src/dvbcsa_bs_transpose_block.c')
def T1(s):
    s=func(s,'void dvbcsa_bs_block_transpose_in','''void dvbcsa_bs_block_transpose_in(dvbcsa_bs_word_t *out,
                const struct dvbcsa_bs_pkt_buf *pkt_buf,
                unsigned int offset)
{
  dvbcsa_u32_aliasing_t *lo = (dvbcsa_u32_aliasing_t *)out, *hi = lo + BS_BATCH_SIZE;
  int i;

  for (i = 0; i < pkt_buf->n_packets; i++)
    {
      const dvbcsa_bs_block8_t *b = &pkt_buf->data[i * BS_PKT_BLOCKS8 + offset / 8];
      *lo++ = b->u32[0];
      *hi++ = b->u32[1];
    }
  dvbcsa_bs_matrix_transpose_block(out);
}
''')
    return func(s,'void dvbcsa_bs_block_transpose_out_and_xor','''static inline dvbcsa_bs_block8_t slot(const dvbcsa_bs_word_t *in, int i)
{
  const dvbcsa_u32_aliasing_t *ri = (const dvbcsa_u32_aliasing_t *)in;
  dvbcsa_bs_block8_t b;

  b.u32[0] = ri[i];
  b.u32[1] = ri[i + BS_BATCH_SIZE];
  return b;
}

void dvbcsa_bs_block_transpose_out_and_xor(dvbcsa_bs_word_t *in,
                struct dvbcsa_bs_pkt_buf *pkt_buf,
                unsigned int offset, int encrypt)
{
  int i;

  dvbcsa_bs_matrix_transpose_block(in);

  for (i = pkt_buf->n_packets - 1; i >= 0; i--)
    {
      dvbcsa_bs_block8_t *block = pkt_buf->data + i * BS_PKT_BLOCKS8 + offset / 8;
      dvbcsa_bs_block8_t b = slot(in, i);

      if (pkt_buf->len8[i] <= offset)
        continue;
      if (offset > 0)
        {
          if (encrypt)
            block[-1].u64 ^= b.u64;
          else
            block[-1].u64 = block[-1].u64 ^ block->u64;
        }
      *block = b;
    }
}
''')
@r('src/dvbcsa_bs_transpose_stream.c')
def T2(s):
    s=func(s,'void dvbcsa_bs_stream_transpose_in','''void dvbcsa_bs_stream_transpose_in(const struct dvbcsa_bs_pkt_buf *pkt_buf,
                                   dvbcsa_bs_word_t *row)
{
  int i = pkt_buf->n_packets;

  while (i-- > 0)
    memcpy((uint8_t *)row + 8 * i, &pkt_buf->data[i * BS_PKT_BLOCKS8], 8);

  dvbcsa_bs_matrix_transpose_64x(row);
}
''')
    return func(s,'void dvbcsa_bs_stream_transpose_out','''void dvbcsa_bs_stream_transpose_out(struct dvbcsa_bs_pkt_buf *pkt_buf,
                                   unsigned int index, dvbcsa_bs_word_t *row)
{
  const dvbcsa_u64_aliasing_t *p = (const dvbcsa_u64_aliasing_t *)row;
  int i;

  dvbcsa_bs_matrix_transpose_64x(row);

  for (i = 0; i < pkt_buf->n_packets; i++)
    {
      dvbcsa_bs_block8_t *block = pkt_buf->data + index / 8 + i * BS_PKT_BLOCKS8;
      block->u64 = block->u64 ^ p[i];
    }
}
''')
@r('src/dvbcsa_bs_stream.c')
def N1(s):
    a=s.index('  for (b = 0; b < 4; b++)'); b=s.index('  /* Stream INIT */')
    s=s[:a]+'''  for (b = 3; b >= 0; b--)
    for (i = 7; i >= 0; i--)
      {
        const dvbcsa_bs_word_t *k = key->stream + b + i * 4;
        regs.B[32 + i][b] = k[32];
        regs.A[32 + i][b] = k[0];
      }
  for (i = 8; i < 10; i++)
    for (b = 0; b < 4; b++)
      regs.A[32 + i][b] = regs.B[32 + i][b] = BS_VAL8(00);
  for (b = 0; b < 4; b++)
    regs.F[b] = regs.E[b] = regs.D[b] = regs.Z[b] = regs.Y[b] = regs.X[b] = BS_VAL8(00);
  regs.r = regs.q = regs.p = BS_VAL8(00);

'''+s[b:]
    return rep(s,'''  for (h = 8; h < maxlen; h += 8)
    {''','''  h = 0;
  while ((h += 8) < maxlen)
    {''')
@r('src/dvbcsa_pv.h')
def P1(s):
    a=s.index('DVBCSA_INLINE static inline void\ndvbcsa_xor_64'); b=s.rindex('#endif')
    return s[:a]+'''static inline void
dvbcsa_xor_64 (uint8_t *b, const uint8_t *a)
{
  int i;
  for (i = 0; i < 8; i++)
    b[i] ^= a[i];
}

static inline uint32_t
dvbcsa_load_le32(const uint8_t *p)
{
  uint32_t r = 0;
  int i;
  for (i = 3; i >= 0; i--)
    r = r << 8 | p[i];
  return r;
}

static inline uint64_t
dvbcsa_load_le64(const uint8_t *p)
{
  return dvbcsa_load_le32(p) | (uint64_t)dvbcsa_load_le32(p + 4) << 32;
}

static inline void
dvbcsa_store_le64(uint8_t *p, const uint64_t w)
{
  int i;
  for (i = 0; i < 8; i++)
    p[i] = w >> (8 * i);
}

'''+s[b:]
@r('src/dvbcsa_stream.c')
def S3(s):
    s=rep(s,'  return TSTP(pqzyx) ? ((x << 1) | ((x >> 3) & 1)) & 0xf : x;','''  uint8_t v[2];

  v[0] = x;
  v[1] = ((x << 1) | ((x >> 3) & 1)) & 0xf;
  return v[(pqzyx >> 12) & 1];''')
    a=s.index('      csa_stream_round(&A, &B, &pqzyx, &cfed);\n      data[i] ^= csa_stream_out[GETD(cfed) & 0xf] & 0xc0;'); b=s.rindex('    }\n}')
    return s[:a]+'''      uint8_t ks = 0, sh;

      for (sh = 6; sh < 8; sh -= 2)
        {
          csa_stream_round(&A, &B, &pqzyx, &cfed);
          ks |= csa_stream_out[cfed & 0xf] & (3 << sh);
        }
      data[i] ^= ks;
'''+s[b:]
@r('src/dvbcsa_stream.c')
def S4(s):
    return rep(s,'  return TSTP(pqzyx) ? ((x << 1) | ((x >> 3) & 1)) & 0xf : x;','''  uint8_t v;

  switch (TSTP(pqzyx))
    {
    case 0:
      v = x;
      break;
    default:
      v = (x << 1) & 0xf;
      if (x & 8)
        v |= 1;
    }
  return v;''')
@r('src/dvbcsa_key.c')
def K3(s):
    return func(s,'static inline uint64_t dvbcsa_key_permute_block','''static uint64_t dvbcsa_key_permute_block(uint64_t k)
{
  uint64_t n = 0;
  int b;

  for (b = 0; b < 64; b++)
    if ((k >> b) & 1)
      n ^= kperm[b / 8][1 << (b % 8)];
  return n;
}
''')
@r('src/dvbcsa_bs_key.c')
def BK4(s):
    return rep(s,'''  for (i = 0; i < DVBCSA_CWBITS_SIZE; i++)
    key->stream[i] = (ck >> (i^4)) & 1 ? BS_VAL8(ff) : BS_VAL8(00);''','''  const dvbcsa_bs_word_t v[2] = { BS_VAL8(00), BS_VAL8(ff) };

  for (i = 0; i < DVBCSA_CWBITS_SIZE; i++, ck = i % 8 ? ck : ck >> 8)
    {
      unsigned int bit = ck >> ((i & 7) ^ 4) & 1;
      key->stream[i] = v[bit];
    }''')
@r('src/dvbcsa_bs_algo.c')
def G4(s):
    s=func(s,'struct dvbcsa_bs_key_s * dvbcsa_bs_key_alloc','''struct dvbcsa_bs_key_s * dvbcsa_bs_key_alloc(void)
{
  const size_t size = sizeof (struct dvbcsa_bs_key_s);
  size_t align = sizeof(dvbcsa_bs_word_t);
  void *p = NULL;

#if defined(HAVE_MM_MALLOC)
  p = _mm_malloc(size, align);
#else
  if (align < sizeof(void *))
    align = sizeof(void *);
  if (posix_memalign(&p, align, size) != 0)
    return NULL;
#endif
  if (p != NULL)
    memset(p, 0, size);
  return p;
}
''')
    s=rep(s,'''#ifdef HAVE_MM_MALLOC
  _mm_free(key);''','''  if (key == NULL)
    return;
#ifdef HAVE_MM_MALLOC
  _mm_free(key);''')
    return func(s,'static void dvbcsa_pkt_buf_load','''static void dvbcsa_pkt_buf_load(struct dvbcsa_bs_pkt_buf *pkt_buf,
                                const struct dvbcsa_bs_batch_s *pcks,
                                unsigned int maxlen)
{
  pkt_buf->maxlen = maxlen;
  pkt_buf->n_packets = 0;

  for (;;)
    {
      struct dvbcsa_bs_batch_s pkt;

      pkt.data = pcks[pkt_buf->n_packets].data;
      if (!pkt.data)
        return;
      pkt.len = pcks[pkt_buf->n_packets].len;
      if (pkt.len > maxlen)
        pkt.len = maxlen;
      pkt_buf->len8[pkt_buf->n_packets] = pkt.len >> 3 << 3;
      memcpy(pkt_buf->data + pkt_buf->n_packets * BS_PKT_BLOCKS8, pkt.data, pkt.len);
      ++pkt_buf->n_packets;
    }
}
''')
@r('src/dvbcsa_algo.c')
def A3(s):
    s=func(s,'struct dvbcsa_key_s * dvbcsa_key_alloc','''struct dvbcsa_key_s * dvbcsa_key_alloc(void)
{
  struct dvbcsa_key_s *key = calloc(1, sizeof(*key));

  if (!key)
    return NULL;
  return key;
}
''')
    s=func(s,'void dvbcsa_key_free','''void dvbcsa_key_free(struct dvbcsa_key_s *key)
{
  if (key)
    {
      memset(key, 0, sizeof(*key));
      free(key);
    }
}
''')
    return s
@r('src/dvbcsa_algo.c')
def A4(s):
    return func(s,'void dvbcsa_decrypt','''static void dec_rest(const struct dvbcsa_key_s *key, uint8_t *b, unsigned int n)
{
  dvbcsa_block_decrypt(key->sch, b, b);
  if (n <= 1)
    return;
  dvbcsa_xor_64(b, b + 8);
  dec_rest(key, b + 8, n - 1);
}

void dvbcsa_decrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int len)
{
  if (len < 8)
    return;
  dvbcsa_stream_xor(key->cws, data, data + 8, len - 8);
  dec_rest(key, data, len / 8);
}
''')
@r('src/dvbcsa_bs_block.c')
def H3(s):
    a=s.index('''  r += 8 * 56;

  /* loop over kk[55]..kk[0] */'''); b=s.index('DVBCSA_INLINE static inline void\ndvbcsa_bs_block_decrypt_block')
    body=s[a:b]
    body=body.replace('for (i = 55; i >= 0; i--)','for (i = 0; i < 56; i++)').replace('block[i]','block[55 - i]').replace('      r -= 8;   /* virtual shift of registers */','      r = base + 8 * (55 - i);').replace('  r += 8 * 56;\n','  dvbcsa_bs_word_t *const base = r;\n').replace('dvbcsa_bs_word_t *r6_N = r + 8 * 6;','dvbcsa_bs_word_t *r6_N = base + 8 * (62 - i);')
    return s[:a]+body+s[b:]
@r('src/dvbcsa_bs_stream.c')
def N2(s):
    a=s.index('  for (b = 0; b < 4; b++)\n    {\n      for (i = 0; i < 8; i++)'); b=s.index('  /* Stream INIT */')
    return s[:a]+'''  for (i = 0; i < 8; i++)
    {
      memcpy(regs.A[32 + i], key->stream + i * 4, sizeof(regs.A[0]));
      memcpy(regs.B[32 + i], key->stream + 32 + i * 4, sizeof(regs.B[0]));
    }
  memset(regs.A[40], 0, 2 * sizeof(regs.A[0]));
  memset(regs.B[40], 0, 2 * sizeof(regs.B[0]));
  memset(regs.X, 0, sizeof(regs.X));
  memset(regs.Y, 0, sizeof(regs.Y));
  memset(regs.Z, 0, sizeof(regs.Z));
  memset(regs.D, 0, sizeof(regs.D));
  memset(regs.E, 0, sizeof(regs.E));
  memset(regs.F, 0, sizeof(regs.F));
  memset(&regs.p, 0, sizeof(regs.p));
  regs.q = regs.p;
  regs.r = regs.p;
  b = 0;
  (void)b;

'''+s[b:]
@r('src/dvbcsa_bs_stream_kernel.inc')
def E1(s):
    a=s.index('    for (i = 0; i < 10; i++)\n        for (b = 0; b < 4; b++)\n            regs->A[32'); 
    s=s[:a]+'''    memcpy(regs->A + 32, regs->A, 10 * sizeof(regs->A[0]));
    memcpy(&regs->B[32], &regs->B[0], 10 * sizeof(regs->B[0]));
}
'''
    # reorder the last two functions of the round
    x='''          dvbcsa_bs_stream_sbox1(A[0][2], A[5][1], A[6][3], A[8][0], A[3][0], &regs->X[0], &regs->Z[2]);
'''
    y='''          dvbcsa_bs_stream_sbox7(A[2][0], A[6][1], A[7][2], A[7][3], A[1][2], &regs->p, &regs->q);
'''
    s=s.replace(x,'',1).replace(y,x+y,1) if False else s.replace(x,'@@',1).replace(y,x,1).replace('@@',y,1)
    return rep(s,'''          for (b = 0; b < 4; b++)
            {
              B[-1][b]''','''          for (b = 3; b >= 0; --b)
            {
              B[-1][b]''')
@r('src/dvbcsa_bs_transpose_stream.c')
def T3(s):
    a=s.index('  for (j = 0; j < 64; j += 8)\n    {'); b=s.index('#endif\n}\n\nvoid dvbcsa_bs_stream_transpose_in')
    return s[:a]+'''  {
    int k;

    for (j = 0; j < 64; j++)
      if (!(j & 1))
        BS_SWAP1(row[j], row[j + 1]);
    for (j = 0; j < 64; j++)
      if (!(j & 2))
        BS_SWAP2(row[j], row[j + 2]);
    for (j = 0; j < 64; j += 8)
      for (k = j; k < j + 4; k++)
        BS_SWAP4(row[k], row[k + 4]);
    for (j = 0; j < 64; j += 16)
      for (k = j; k < j + 8; k++)
        BS_SWAP8(row[k], row[k + 8]);
    for (j = 0; j < 64; j++)
      if ((j & 16) == 0)
        BS_SWAP16(row[j], row[j | 16]);
    for (j = 0; j < 32; j++)
      BS_SWAP32(row[j], row[j + 32]);
  }

'''+s[b:]
@r('src/dvbcsa_bs_transpose_block.c')
def T4(s):
    s=s.replace('block[-1].u64 ^= b.u64;','block[-1].u64 = b.u64 ^ block[-1].u64;')
    return func(s,'DVBCSA_INLINE static inline void \ndvbcsa_bs_matrix_transpose_block','''static void
dvbcsa_bs_matrix_transpose_block(dvbcsa_bs_word_t *row)
{
  int i;

  for (i = 0; i < 64; i += 16)
    {
      int k;
      for (k = i; k < i + 8; k++)
        BS_SWAP8(row[k], row[k + 8]);
    }
  for (i = 0; i < 64; i++)
    if ((i / 16) % 2 == 0)
      BS_SWAP16(row[i], row[i + 16]);
}
''')
@r('src/dvbcsa_bs_algo.c')
def V1(s):
    s=rep(s,'''  dvbcsa_pkt_buf_load(&pbuf, pcks, maxlen);
''','''  if (!pcks->data)
    return;
  if (__builtin_expect(maxlen < 8, 0))
    return;

  dvbcsa_pkt_buf_load(&pbuf, pcks, maxlen);
''',0)
    return s
@r('src/dvbcsa_stream.c')
def V2(s):
    a=s.index('  for(i = 0; i < len; i++)      /* 4 round')
    b=s.rindex('}')
    s=s[:a]+'''  while (len >= 8)
    {
      uint64_t v;

      memcpy(&v, data, sizeof(v));
      v ^= csa_stream_octets(&A, &B, &pqzyx, &cfed, 8);
      memcpy(data, &v, sizeof(v));
      data += 8;
      len -= 8;
    }
  if (len)
    {
      union { uint64_t w; uint8_t b[8]; } u;

      u.w = csa_stream_octets(&A, &B, &pqzyx, &cfed, len);
      do
        {
          --len;
          data[len] ^= u.b[len];
        }
      while (len != 0);
    }
'''+s[b:]
    return rep(s,'void dvbcsa_stream_xor','''static uint64_t csa_stream_octets(uint64_t *A, uint64_t *B, uint32_t *pqzyx, uint32_t *cfed, unsigned int n)
{
  union { uint64_t w; uint8_t b[8]; } u = { 0 };
  unsigned int k, q;

  for (k = 0; k < n; ++k)
    for (q = 0; q < 4; ++q)
      {
        unsigned int d;

        csa_stream_round(A, B, pqzyx, cfed);
        d = GETD(*cfed) & 0xf;
        /* the two output bits: parities of the halves of the nibble */
        u.b[k] = u.b[k] << 2 | __builtin_parity(d & 12) << 1 | (__builtin_popcount(d & 3) & 1);
      }
  return u.w;
}

void dvbcsa_stream_xor''')
@r('src/dvbcsa_block.c')
def V3(s):
    a=s.index('  while (i--)\n'); b=s.index('  memcpy(out, W, sizeof(W));')
    return s[:a]+'''  {
    unsigned int h = 0;         /* where register 0 is */
#define REG(n) W[(h + (n)) & 7]
    for (; i != 0; i--)
      {
        const uint8_t f = dvbcsa_block_sbox[key[i - 1] ^ REG(6)];
        const uint8_t l = REG(7) ^ f;

        REG(1) ^= l;
        REG(2) ^= l;
        REG(3) ^= l;
        REG(5) ^= csa_block_perm[f];
        REG(7) = l;
        h = (h + 7) & 7;
      }
#undef REG
    if (h)
      {
        dvbcsa_block_t t;

        for (i = 0; i < 8; i++)
          t[i] = W[(h + i) % 8];
        memcpy(W, t, 8);
      }
  }

'''+s[b:]
@r('src/dvbcsa_algo.c')
def V4(s):
    s=func(s,'void dvbcsa_decrypt','''struct chain { struct dvbcsa_key_s key; dvbcsa_block_t prev; };

void dvbcsa_decrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int len)
{
  struct chain c;
  unsigned int n = len / 8, k = 0;
  volatile uint8_t *w = (volatile uint8_t *)&c;

  if (__builtin_expect(!n, 0))
    goto out;

  c.key = *key;
  dvbcsa_stream_xor(c.key.cws, data, data + 8, n * 8 - 8 + len % 8);

  do
    {
      dvbcsa_block_decrypt(c.key.sch, data + 8 * k, c.prev);
      if (k + 1 < n)
        dvbcsa_xor_64(c.prev, data + 8 * k + 8);
      memcpy(data + 8 * k, c.prev, 8);
    }
  while (++k < n);

  for (k = 0; k < sizeof(c); k++)
    w[k] = 0;
out:
  return;
}
''')
    return s
@r('src/dvbcsa_key.c')
def V5(s):
    s=func(s,'static inline uint64_t dvbcsa_key_permute_block','''static uint64_t dvbcsa_key_permute_block(uint64_t k)
{
  const uint64_t *t = &kperm[7][0];
  uint64_t n = t[k >> 56];
  int s;

  for (s = 48; s >= 0; s -= 8)
    n |= kperm[s / 8][(uint8_t)(k >> s)];
  return n;
}
''')
    a=s.index('  uint64_t k[7];'); b=s.rindex('}')
    return s[:a]+'''  uint64_t k = dvbcsa_load_le64(cw);
  int i = 7;

  do
    {
      i--;
      dvbcsa_store_le64(kk + 8 * i, k ^ 0x0101010101010101ULL * (unsigned int)i);
      if (i)
        k = dvbcsa_key_permute_block(k);
    }
  while (i > 0);
'''+s[b:]
@r('src/dvbcsa_bs_block.c')
def V6(s):
    s=rep(s,'DVBCSA_INLINE static inline void\ndvbcsa_bs_block_encrypt_block','''static void (*const transposer)(dvbcsa_bs_word_t *, const struct dvbcsa_bs_pkt_buf *, unsigned int) = dvbcsa_bs_block_transpose_in;

DVBCSA_INLINE static inline void
dvbcsa_bs_block_encrypt_block''')
    return rep(s,'  dvbcsa_bs_block_transpose_in(r, pkt_buf, offset);','  transposer(r, pkt_buf, offset);')
@r('src/dvbcsa_bs_stream.c')
def V7(s):
    return rep(s,'''  for (h = 8; h < maxlen; h += 8)
    {
      dvbcsa_bs_stream_cipher_kernel(&regs);''','''  for (h = maxlen / 8, b = 1; h > 1; h--, b++)
    {
      if (b > 23)
        __builtin_unreachable();
      dvbcsa_bs_stream_cipher_kernel(&regs);''').replace('dvbcsa_bs_stream_transpose_out(pkt_buf, h, regs.sb);','dvbcsa_bs_stream_transpose_out(pkt_buf, b << 3, regs.sb);')
@r('src/dvbcsa_bs_key.c')
def V8(s):
    a=s.index('#if BS_BATCH_SIZE == 32'); b=s.rindex('    }')
    s=s[:a]+'''      uint8_t *p = (uint8_t *)(key->block + i), *const e = p + sizeof(key->block[0]);

      while (p != e)
        *p++ = kk[i];
'''+s[b:]
    b=s.rindex('}')
    return s[:b]+'''  {
    volatile uint8_t *v = kk;

    for (i = 0; i < DVBCSA_KEYSBUFF_SIZE; i++)
      v[i] = 0;
  }
}
'''
@r('src/dvbcsa_bs_transpose_block.c')
def V9(s):
    return rep(s,'''  for (i = 0; i < pkt_buf->n_packets; i++, pd += BS_PKT_BLOCKS8)''','''  for (i = 0; i < BS_BATCH_SIZE && i < pkt_buf->n_packets; i++, pd += BS_PKT_BLOCKS8)''') if 'i++, pd += BS_PKT_BLOCKS8' in s else s
TREES={'t7':'V1 V2 V3 V4 V5 V6 V7 V8'.split(),'t4':'S3 K3 BK4 G4 A3 H3 N2 E1 T3 T4'.split(),'t5':'S4 A4'.split(),'t6':['BK2','B3','S4'],'t1':'A1 B1 K1 S1 G1 H1 BK1 T1 T2 N1 P1'.split(),'t2':'A2 B2 K2 S2 G2 H2 B3'.split(),'t3':['G3','A1','S2','T1']}
if __name__=='__main__':
    for t in sys.argv[1:] or TREES:
        names=TREES.get(t,[t]); d='/tmp/ref/'+t
        subprocess.call(['rm','-rf',d]); subprocess.check_call(['cp','-a',SRC,d])
        for n in names:
            for f,g in R[n]:
                p=os.path.join(d,f); s=g(open(p).read()); open(p,'w').write(s)
        print(t,subprocess.run(['git','-C',d,'diff','--stat'],stdout=subprocess.PIPE,text=True).stdout.splitlines()[-1])
