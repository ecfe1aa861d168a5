// SHA-3 (FIPS 202): the permutation by its definition, the sponge byte by byte.
#include "bits_prelude.h"
#include "scl/hash.h"
#if __has_include(<tpx_names.h>)
#include <tpx_names.h>  // members /repo has renamed (sa/program.py)
#endif
namespace spec {
// round constants: rc(t) of the linear feedback shift register of FIPS 202, 3.2.5
static const u64 RC[24] = {0x0000000000000001ULL, 0x0000000000008082ULL, 0x800000000000808aULL, 0x8000000080008000ULL, 0x000000000000808bULL, 0x0000000080000001ULL, 0x8000000080008081ULL, 0x8000000000008009ULL, 0x000000000000008aULL, 0x0000000000000088ULL, 0x0000000080008009ULL, 0x000000008000000aULL, 0x000000008000808bULL, 0x800000000000008bULL, 0x8000000000008089ULL, 0x8000000000008003ULL, 0x8000000000008002ULL, 0x8000000000000080ULL, 0x000000000000800aULL, 0x800000008000000aULL, 0x8000000080008081ULL, 0x8000000000008080ULL, 0x0000000080000001ULL, 0x8000000080008008ULL};
inline u64 rot(u64 x, unsigned n) { return n % 64 == 0 ? x : (x << (n % 64)) | (x >> (64 - n % 64)); }

void SHA__Keccakf(u64* a) {
  for (int round = 0; round < 24; ++round) {
    // theta
    u64 c[5];
    for (int x = 0; x < 5; ++x) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
    for (int x = 0; x < 5; ++x)
      for (int y = 0; y < 5; ++y) a[x + 5 * y] ^= c[(x + 4) % 5] ^ rot(c[(x + 1) % 5], 1);
    // rho and pi
    u64 b[25];
    b[0] = a[0];
    int x = 1, y = 0;
    for (int t = 0; t < 24; ++t) {
      // lane (x, y) turns by (t + 1)(t + 2) / 2 and moves to (y, 2x + 3y)
      int y2 = (2 * x + 3 * y) % 5;
      b[y + 5 * y2] = rot(a[x + 5 * y], (t + 1) * (t + 2) / 2);
      x = y;
      y = y2;
    }
    // chi
    for (int y3 = 0; y3 < 5; ++y3)
      for (int x3 = 0; x3 < 5; ++x3) a[x3 + 5 * y3] = b[x3 + 5 * y3] ^ (~b[(x3 + 1) % 5 + 5 * y3] & b[(x3 + 2) % 5 + 5 * y3]);
    a[0] ^= RC[round];
  }
}

using H256_ = scl::details::Hash<256>;
H256_& HA__Update(H256_& self, const u8* bytes, N nbytes) {
  spec_assume(self.mByteIndex < 8);
  spec_assume(self.mSaved < (u64)1 << (8 * self.mByteIndex));
  spec_assume(self.mWordIndex < 17);
  spec_assume(nbytes <= 40);
  for (N i = 0; i < nbytes; ++i) {
    self.mSaved |= (u64)bytes[i] << (8 * self.mByteIndex);
    self.mByteIndex++;
    if (self.mByteIndex == 8) {
      self.mState[self.mWordIndex] ^= self.mSaved;
      self.mSaved = 0;
      self.mByteIndex = 0;
      self.mWordIndex++;
      if (self.mWordIndex == 17) {
        scl::details::Keccakf(self.mState);
        self.mWordIndex = 0;
      }
    }
  }
  return self;
}
void HA__ctor(H256_& self) {
  for (int i = 0; i < 25; ++i) self.mState[i] = 0;
  self.mSaved = 0;
  self.mByteIndex = 0;
  self.mWordIndex = 0;
}
std::array<u8, 32> HA__Finalize(H256_& self) {
  spec_assume(self.mByteIndex < 8);
  spec_assume(self.mSaved < (u64)1 << (8 * self.mByteIndex));
  spec_assume(self.mWordIndex < 17);
  self.mState[self.mWordIndex] ^= self.mSaved ^ ((u64)6 << (8 * self.mByteIndex));
  self.mState[16] ^= (u64)1 << 63;
  scl::details::Keccakf(self.mState);
  std::array<u8, 32> d;
  for (N i = 0; i < 32; ++i) d[i] = self.mState[i / 8] >> (8 * (i % 8));
  return d;
}

using H384_ = scl::details::Hash<384>;
H384_& HB__Update(H384_& self, const u8* bytes, N nbytes) {
  spec_assume(self.mByteIndex < 8);
  spec_assume(self.mSaved < (u64)1 << (8 * self.mByteIndex));
  spec_assume(self.mWordIndex < 13);
  spec_assume(nbytes <= 40);
  for (N i = 0; i < nbytes; ++i) {
    self.mSaved |= (u64)bytes[i] << (8 * self.mByteIndex);
    self.mByteIndex++;
    if (self.mByteIndex == 8) {
      self.mState[self.mWordIndex] ^= self.mSaved;
      self.mSaved = 0;
      self.mByteIndex = 0;
      self.mWordIndex++;
      if (self.mWordIndex == 13) {
        scl::details::Keccakf(self.mState);
        self.mWordIndex = 0;
      }
    }
  }
  return self;
}
void HB__ctor(H384_& self) {
  for (int i = 0; i < 25; ++i) self.mState[i] = 0;
  self.mSaved = 0;
  self.mByteIndex = 0;
  self.mWordIndex = 0;
}
std::array<u8, 48> HB__Finalize(H384_& self) {
  spec_assume(self.mByteIndex < 8);
  spec_assume(self.mSaved < (u64)1 << (8 * self.mByteIndex));
  spec_assume(self.mWordIndex < 13);
  self.mState[self.mWordIndex] ^= self.mSaved ^ ((u64)6 << (8 * self.mByteIndex));
  self.mState[12] ^= (u64)1 << 63;
  scl::details::Keccakf(self.mState);
  std::array<u8, 48> d;
  for (N i = 0; i < 48; ++i) d[i] = self.mState[i / 8] >> (8 * (i % 8));
  return d;
}

using H512_ = scl::details::Hash<512>;
H512_& HC__Update(H512_& self, const u8* bytes, N nbytes) {
  spec_assume(self.mByteIndex < 8);
  spec_assume(self.mSaved < (u64)1 << (8 * self.mByteIndex));
  spec_assume(self.mWordIndex < 9);
  spec_assume(nbytes <= 40);
  for (N i = 0; i < nbytes; ++i) {
    self.mSaved |= (u64)bytes[i] << (8 * self.mByteIndex);
    self.mByteIndex++;
    if (self.mByteIndex == 8) {
      self.mState[self.mWordIndex] ^= self.mSaved;
      self.mSaved = 0;
      self.mByteIndex = 0;
      self.mWordIndex++;
      if (self.mWordIndex == 9) {
        scl::details::Keccakf(self.mState);
        self.mWordIndex = 0;
      }
    }
  }
  return self;
}
void HC__ctor(H512_& self) {
  for (int i = 0; i < 25; ++i) self.mState[i] = 0;
  self.mSaved = 0;
  self.mByteIndex = 0;
  self.mWordIndex = 0;
}
std::array<u8, 64> HC__Finalize(H512_& self) {
  spec_assume(self.mByteIndex < 8);
  spec_assume(self.mSaved < (u64)1 << (8 * self.mByteIndex));
  spec_assume(self.mWordIndex < 9);
  self.mState[self.mWordIndex] ^= self.mSaved ^ ((u64)6 << (8 * self.mByteIndex));
  self.mState[8] ^= (u64)1 << 63;
  scl::details::Keccakf(self.mState);
  std::array<u8, 64> d;
  for (N i = 0; i < 64; ++i) d[i] = self.mState[i / 8] >> (8 * (i % 8));
  return d;
}
}  // namespace spec
