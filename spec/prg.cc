// AES-128 in counter mode.  The instructions are opaque; their composition is not.
#include "bits_prelude.h"
#if __has_include(<tpx_names.h>)
#include <tpx_names.h>  // members /repo has renamed (sa/program.py)
#endif
namespace spec {
using scl::PRG;
u8 spec_byte128(__m128i v, int j);          // byte j of a block, in memory order
__m128i spec_block(const u8* p);            // the block stored at p

inline __m128i enc(const __m128i* k, __m128i m) {
  m = _mm_xor_si128(k[0], m);
  for (int r = 1; r < 10; ++r) m = _mm_aesenc_si128(m, k[r]);
  return _mm_aesenclast_si128(m, k[10]);
}

// one step of the key schedule of FIPS 197
#define NEXTKEY(K, RCON) expand(K, _mm_aeskeygenassist_si128(K, RCON))
inline __m128i expand(__m128i k, __m128i g) {
  __m128i r = k;
  for (int i = 0; i < 3; ++i) r = _mm_xor_si128(r, _mm_slli_si128(r, 4));
  return _mm_xor_si128(_mm_shuffle_epi32(g, 0xFF), r);
}
inline void schedule(__m128i* w, const u8* seed) {
  w[0] = spec_block(seed);
  w[1] = NEXTKEY(w[0], 0x01);
  w[2] = NEXTKEY(w[1], 0x02);
  w[3] = NEXTKEY(w[2], 0x04);
  w[4] = NEXTKEY(w[3], 0x08);
  w[5] = NEXTKEY(w[4], 0x10);
  w[6] = NEXTKEY(w[5], 0x20);
  w[7] = NEXTKEY(w[6], 0x40);
  w[8] = NEXTKEY(w[7], 0x80);
  w[9] = NEXTKEY(w[8], 0x1B);
  w[10] = NEXTKEY(w[9], 0x36);
}
void PG__Init(PRG& self) { schedule(self.mState, self.mSeed); }
void PG__Reset(PRG& self) {
  schedule(self.mState, self.mSeed);
  self.mCounter = 0;
}
void PG__ctor(PRG& self) {
  for (int i = 0; i < 16; ++i) self.mSeed[i] = 0;
  self.mCounter = 0;
  schedule(self.mState, self.mSeed);
}
void PG__ctor__seed(PRG& self, const u8* seed) {
  for (int i = 0; i < 16; ++i) self.mSeed[i] = seed[i];
  self.mCounter = 0;
  schedule(self.mState, self.mSeed);
}
void PG__Next(PRG& self, u8* dest, N n) {
  for (N i = 0; i < n; ++i)
    dest[i] = spec_byte128(enc(self.mState, _mm_set_epi64x(0x0123456789ABCDEF, self.mCounter + i / 16)), i % 16);
  self.mCounter += (n + 15) / 16;
}
void PG__Next__v(PRG& self, std::vector<u8>& dest) {
  N n = dest.size();
  for (N i = 0; i < n; ++i)
    dest[i] = spec_byte128(enc(self.mState, _mm_set_epi64x(0x0123456789ABCDEF, self.mCounter + i / 16)), i % 16);
  self.mCounter += (n + 15) / 16;
}
void PG__Next__vn(PRG& self, std::vector<u8>& dest, N n) {
  if (n > dest.size()) throw std::invalid_argument("size");
  for (N i = 0; i < n; ++i)
    dest[i] = spec_byte128(enc(self.mState, _mm_set_epi64x(0x0123456789ABCDEF, self.mCounter + i / 16)), i % 16);
  self.mCounter += (n + 15) / 16;
}
std::vector<u8> PG__Next__n(PRG& self, N n) {
  std::vector<u8> r(n);
  for (N i = 0; i < n; ++i)
    r[i] = spec_byte128(enc(self.mState, _mm_set_epi64x(0x0123456789ABCDEF, self.mCounter + i / 16)), i % 16);
  self.mCounter += (n + 15) / 16;
  return r;
}
N PG__BlockSize() { return 16; }
N PG__SeedSize() { return 16; }
long PG__Counter(const PRG& self) { return self.mCounter; }
}  // namespace spec
