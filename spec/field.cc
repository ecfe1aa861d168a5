// Representation of field elements: canonical residues modulo the prime.
#include "bits_prelude.h"
#if __has_include(<tpx_names.h>)
#include <tpx_names.h>  // members /repo has renamed (sa/program.py)
#endif
namespace spec {
static const u64 P61 = (u64(1) << 61) - 1;
static const u128 P127 = (u128(1) << 127) - 1;

void F61__Add(u64& t, const u64& v) { t = ((u128)t + v) % P61; }
void F61__Subtract(u64& t, const u64& v) { t = ((u128)t + P61 - v) % P61; }
void F61__Negate(u64& t) { t = (P61 - t) % P61; }
void F61__Multiply(u64& t, const u64& v) { t = spec_mulmod(t, v, P61); }
void F61__Invert(u64& t) {
  if (t == 0) throw std::logic_error("zero");
  t = spec_modinv(t, P61);
}
bool F61__Equal(const u64& a, const u64& b) { return a == b; }
u64 F61__FromInt(int v) { return ((u128)P61 * 4 + v) % P61; }
void F61__FromBytes(u64& dest, const u8* src) {
  u64 r = 0;
  for (int i = 0; i < 8; ++i) r |= (u64)src[i] << (8 * i);
  dest = r % P61;
}
void F61__ToBytes(u8* dest, const u64& src) {
  for (int i = 0; i < 8; ++i) dest[i] = src >> (8 * i);
}

void F127__Add(u128& t, const u128& v) { t = t >= P127 - v ? t - (P127 - v) : t + v; }
void F127__Subtract(u128& t, const u128& v) { t = t >= v ? t - v : t + (P127 - v); }
void F127__Negate(u128& t) { t = (P127 - t) % P127; }
void F127__Multiply(u128& t, const u128& v) { t = spec_mulmod(t, v, P127); }
void F127__Invert(u128& t) {
  if (t == 0) throw std::logic_error("zero");
  t = spec_modinv(t, P127);
}
bool F127__Equal(const u128& a, const u128& b) { return a == b; }
u128 F127__FromInt(int v) { return v < 0 ? P127 - (u128)(-(long)v) : (u128)v; }
void F127__FromBytes(u128& dest, const u8* src) {
  u128 r = 0;
  for (int i = 0; i < 16; ++i) r |= (u128)src[i] << (8 * i);
  dest = r % P127;
}
void F127__ToBytes(u8* dest, const u128& src) {
  for (int i = 0; i < 16; ++i) dest[i] = src >> (8 * i);
}
}  // namespace spec
