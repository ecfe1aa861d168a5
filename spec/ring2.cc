// The ring of integers modulo 2^K for further widths: the functions that depend
// on K.  (Generated from one pattern; see spec/ring.cc for the others.)
#include "bits_prelude.h"
#if __has_include(<tpx_names.h>)
#include <tpx_names.h>  // members /repo has renamed (sa/program.py)
#endif
namespace spec {

// ---- K = 1
typedef scl::Z2k<1> Z1_;
Z1_& ZD__op_addeq(Z1_& self, const Z1_& o) { self.mValue = self.mValue + o.mValue; return self; }
Z1_& ZD__op_subeq(Z1_& self, const Z1_& o) { self.mValue = self.mValue - o.mValue; return self; }
Z1_& ZD__op_muleq(Z1_& self, const Z1_& o) { self.mValue = self.mValue * o.mValue; return self; }
Z1_& ZD__op_diveq(Z1_& self, const Z1_& o) {
  if (o.mValue % 2 == 0) throw std::invalid_argument("even");
  self.mValue = self.mValue * (u64)spec_inv2k(o.mValue, 1);
  return self;
}
Z1_& ZD__Invert(Z1_& self) {
  if (self.mValue % 2 == 0) throw std::invalid_argument("even");
  self.mValue = spec_inv2k(self.mValue, 1);
  return self;
}
Z1_ ZD__Inverse(const Z1_& self) {
  if (self.mValue % 2 == 0) throw std::invalid_argument("even");
  Z1_ r;
  r.mValue = spec_inv2k(self.mValue, 1);
  return r;
}
bool ZD__Equal(const Z1_& self, const Z1_& o) { return self.mValue % ((u64)1 << 1) == o.mValue % ((u64)1 << 1); }
Z1_ ZD__Read(const u8* src) {
  u64 v = 0;
  for (int i = 0; i < 1; ++i) v |= (u64)src[i] << (8 * i);
  Z1_ r;
  r.mValue = v % ((u64)1 << 1);
  return r;
}
void ZD__Write(const Z1_& self, u8* dest) {
  u64 v = self.mValue % ((u64)1 << 1);
  for (int i = 0; i < 1; ++i) dest[i] = v >> (8 * i);
}
Z1_ ZD__Random(scl::PRG& prg) {
  u8 b[1];
  prg.Next(b, 1);
  return ZD__Read(b);
}
N ZD__ByteSize() { return 1; }
N ZD__BitSize() { return 1; }


// ---- K = 8
typedef scl::Z2k<8> Z8_;
Z8_& ZE__op_addeq(Z8_& self, const Z8_& o) { self.mValue = self.mValue + o.mValue; return self; }
Z8_& ZE__op_subeq(Z8_& self, const Z8_& o) { self.mValue = self.mValue - o.mValue; return self; }
Z8_& ZE__op_muleq(Z8_& self, const Z8_& o) { self.mValue = self.mValue * o.mValue; return self; }
Z8_& ZE__op_diveq(Z8_& self, const Z8_& o) {
  if (o.mValue % 2 == 0) throw std::invalid_argument("even");
  self.mValue = self.mValue * (u64)spec_inv2k(o.mValue, 8);
  return self;
}
Z8_& ZE__Invert(Z8_& self) {
  if (self.mValue % 2 == 0) throw std::invalid_argument("even");
  self.mValue = spec_inv2k(self.mValue, 8);
  return self;
}
Z8_ ZE__Inverse(const Z8_& self) {
  if (self.mValue % 2 == 0) throw std::invalid_argument("even");
  Z8_ r;
  r.mValue = spec_inv2k(self.mValue, 8);
  return r;
}
bool ZE__Equal(const Z8_& self, const Z8_& o) { return self.mValue % ((u64)1 << 8) == o.mValue % ((u64)1 << 8); }
Z8_ ZE__Read(const u8* src) {
  u64 v = 0;
  for (int i = 0; i < 1; ++i) v |= (u64)src[i] << (8 * i);
  Z8_ r;
  r.mValue = v % ((u64)1 << 8);
  return r;
}
void ZE__Write(const Z8_& self, u8* dest) {
  u64 v = self.mValue % ((u64)1 << 8);
  for (int i = 0; i < 1; ++i) dest[i] = v >> (8 * i);
}
Z8_ ZE__Random(scl::PRG& prg) {
  u8 b[1];
  prg.Next(b, 1);
  return ZE__Read(b);
}
N ZE__ByteSize() { return 1; }
N ZE__BitSize() { return 8; }


// ---- K = 44
typedef scl::Z2k<44> Z44_;
Z44_& ZF__op_addeq(Z44_& self, const Z44_& o) { self.mValue = self.mValue + o.mValue; return self; }
Z44_& ZF__op_subeq(Z44_& self, const Z44_& o) { self.mValue = self.mValue - o.mValue; return self; }
Z44_& ZF__op_muleq(Z44_& self, const Z44_& o) { self.mValue = self.mValue * o.mValue; return self; }
Z44_& ZF__op_diveq(Z44_& self, const Z44_& o) {
  if (o.mValue % 2 == 0) throw std::invalid_argument("even");
  self.mValue = self.mValue * (u64)spec_inv2k(o.mValue, 44);
  return self;
}
Z44_& ZF__Invert(Z44_& self) {
  if (self.mValue % 2 == 0) throw std::invalid_argument("even");
  self.mValue = spec_inv2k(self.mValue, 44);
  return self;
}
Z44_ ZF__Inverse(const Z44_& self) {
  if (self.mValue % 2 == 0) throw std::invalid_argument("even");
  Z44_ r;
  r.mValue = spec_inv2k(self.mValue, 44);
  return r;
}
bool ZF__Equal(const Z44_& self, const Z44_& o) { return self.mValue % ((u64)1 << 44) == o.mValue % ((u64)1 << 44); }
Z44_ ZF__Read(const u8* src) {
  u64 v = 0;
  for (int i = 0; i < 6; ++i) v |= (u64)src[i] << (8 * i);
  Z44_ r;
  r.mValue = v % ((u64)1 << 44);
  return r;
}
void ZF__Write(const Z44_& self, u8* dest) {
  u64 v = self.mValue % ((u64)1 << 44);
  for (int i = 0; i < 6; ++i) dest[i] = v >> (8 * i);
}
Z44_ ZF__Random(scl::PRG& prg) {
  u8 b[6];
  prg.Next(b, 6);
  return ZF__Read(b);
}
N ZF__ByteSize() { return 6; }
N ZF__BitSize() { return 44; }


// ---- K = 64
typedef scl::Z2k<64> Z64_;
Z64_& ZG__op_addeq(Z64_& self, const Z64_& o) { self.mValue = self.mValue + o.mValue; return self; }
Z64_& ZG__op_subeq(Z64_& self, const Z64_& o) { self.mValue = self.mValue - o.mValue; return self; }
Z64_& ZG__op_muleq(Z64_& self, const Z64_& o) { self.mValue = self.mValue * o.mValue; return self; }
Z64_& ZG__op_diveq(Z64_& self, const Z64_& o) {
  if (o.mValue % 2 == 0) throw std::invalid_argument("even");
  self.mValue = self.mValue * (u64)spec_inv2k(o.mValue, 64);
  return self;
}
Z64_& ZG__Invert(Z64_& self) {
  if (self.mValue % 2 == 0) throw std::invalid_argument("even");
  self.mValue = spec_inv2k(self.mValue, 64);
  return self;
}
Z64_ ZG__Inverse(const Z64_& self) {
  if (self.mValue % 2 == 0) throw std::invalid_argument("even");
  Z64_ r;
  r.mValue = spec_inv2k(self.mValue, 64);
  return r;
}
bool ZG__Equal(const Z64_& self, const Z64_& o) { return self.mValue == o.mValue; }
Z64_ ZG__Read(const u8* src) {
  u64 v = 0;
  for (int i = 0; i < 8; ++i) v |= (u64)src[i] << (8 * i);
  Z64_ r;
  r.mValue = v;
  return r;
}
void ZG__Write(const Z64_& self, u8* dest) {
  u64 v = self.mValue;
  for (int i = 0; i < 8; ++i) dest[i] = v >> (8 * i);
}
Z64_ ZG__Random(scl::PRG& prg) {
  u8 b[8];
  prg.Next(b, 8);
  return ZG__Read(b);
}
N ZG__ByteSize() { return 8; }
N ZG__BitSize() { return 64; }


// ---- K = 90
typedef scl::Z2k<90> Z90_;
Z90_& ZH__op_addeq(Z90_& self, const Z90_& o) { self.mValue = self.mValue + o.mValue; return self; }
Z90_& ZH__op_subeq(Z90_& self, const Z90_& o) { self.mValue = self.mValue - o.mValue; return self; }
Z90_& ZH__op_muleq(Z90_& self, const Z90_& o) { self.mValue = self.mValue * o.mValue; return self; }
Z90_& ZH__op_diveq(Z90_& self, const Z90_& o) {
  if (o.mValue % 2 == 0) throw std::invalid_argument("even");
  self.mValue = self.mValue * (u128)spec_inv2k(o.mValue, 90);
  return self;
}
Z90_& ZH__Invert(Z90_& self) {
  if (self.mValue % 2 == 0) throw std::invalid_argument("even");
  self.mValue = spec_inv2k(self.mValue, 90);
  return self;
}
Z90_ ZH__Inverse(const Z90_& self) {
  if (self.mValue % 2 == 0) throw std::invalid_argument("even");
  Z90_ r;
  r.mValue = spec_inv2k(self.mValue, 90);
  return r;
}
bool ZH__Equal(const Z90_& self, const Z90_& o) { return self.mValue % ((u128)1 << 90) == o.mValue % ((u128)1 << 90); }
Z90_ ZH__Read(const u8* src) {
  u128 v = 0;
  for (int i = 0; i < 12; ++i) v |= (u128)src[i] << (8 * i);
  Z90_ r;
  r.mValue = v % ((u128)1 << 90);
  return r;
}
void ZH__Write(const Z90_& self, u8* dest) {
  u128 v = self.mValue % ((u128)1 << 90);
  for (int i = 0; i < 12; ++i) dest[i] = v >> (8 * i);
}
Z90_ ZH__Random(scl::PRG& prg) {
  u8 b[12];
  prg.Next(b, 12);
  return ZH__Read(b);
}
N ZH__ByteSize() { return 12; }
N ZH__BitSize() { return 90; }


// ---- K = 128
typedef scl::Z2k<128> Z128_;
Z128_& ZI__op_addeq(Z128_& self, const Z128_& o) { self.mValue = self.mValue + o.mValue; return self; }
Z128_& ZI__op_subeq(Z128_& self, const Z128_& o) { self.mValue = self.mValue - o.mValue; return self; }
Z128_& ZI__op_muleq(Z128_& self, const Z128_& o) { self.mValue = self.mValue * o.mValue; return self; }
Z128_& ZI__op_diveq(Z128_& self, const Z128_& o) {
  if (o.mValue % 2 == 0) throw std::invalid_argument("even");
  self.mValue = self.mValue * (u128)spec_inv2k(o.mValue, 128);
  return self;
}
Z128_& ZI__Invert(Z128_& self) {
  if (self.mValue % 2 == 0) throw std::invalid_argument("even");
  self.mValue = spec_inv2k(self.mValue, 128);
  return self;
}
Z128_ ZI__Inverse(const Z128_& self) {
  if (self.mValue % 2 == 0) throw std::invalid_argument("even");
  Z128_ r;
  r.mValue = spec_inv2k(self.mValue, 128);
  return r;
}
bool ZI__Equal(const Z128_& self, const Z128_& o) { return self.mValue == o.mValue; }
Z128_ ZI__Read(const u8* src) {
  u128 v = 0;
  for (int i = 0; i < 16; ++i) v |= (u128)src[i] << (8 * i);
  Z128_ r;
  r.mValue = v;
  return r;
}
void ZI__Write(const Z128_& self, u8* dest) {
  u128 v = self.mValue;
  for (int i = 0; i < 16; ++i) dest[i] = v >> (8 * i);
}
Z128_ ZI__Random(scl::PRG& prg) {
  u8 b[16];
  prg.Next(b, 16);
  return ZI__Read(b);
}
N ZI__ByteSize() { return 16; }
N ZI__BitSize() { return 128; }


// ---- operands that alias (see tool/inst.cc)
static const u64 P61 = (u64(1) << 61) - 1;
static const u128 P127 = (u128(1) << 127) - 1;
typedef scl::FF<127> F127_;
typedef scl::Z2k<62> Z62_;
typedef scl::Z2k<123> Z123_;
void AB__AddOwn__FA(F& x) { x.mValue = ((u128)x.mValue + x.mValue) % P61; }
void AB__AddOwn__FB(F127_& x) { x.mValue = x.mValue >= P127 - x.mValue ? x.mValue - (P127 - x.mValue) : x.mValue + x.mValue; }
void AB__AddOwn__ZB(Z62_& x) { x.mValue = 2 * x.mValue; }
void AB__AddOwn__ZC(Z123_& x) { x.mValue = 2 * x.mValue; }
void AB__SubtractOwn__FA(F& x) { x.mValue = 0; }
void AB__SubtractOwn__FB(F127_& x) { x.mValue = 0; }
void AB__SubtractOwn__ZB(Z62_& x) { x.mValue = 0; }
void AB__SubtractOwn__ZC(Z123_& x) { x.mValue = 0; }
void AB__MultiplyOwn__FA(F& x) { x.mValue = spec_mulmod(x.mValue, x.mValue, P61); }
void AB__MultiplyOwn__FB(F127_& x) { x.mValue = spec_mulmod(x.mValue, x.mValue, P127); }
void AB__MultiplyOwn__ZB(Z62_& x) { x.mValue = x.mValue * x.mValue; }
void AB__MultiplyOwn__ZC(Z123_& x) { x.mValue = x.mValue * x.mValue; }
void AB__DivideOwn__FA(F& x) {
  if (x.mValue == 0) throw std::logic_error("zero");
  x.mValue = 1;
}
void AB__DivideOwn__FB(F127_& x) {
  if (x.mValue == 0) throw std::logic_error("zero");
  x.mValue = 1;
}
void AB__DivideOwn__ZB(Z62_& x) {
  if (x.mValue % 2 == 0) throw std::invalid_argument("even");
  x.mValue = 1;
}
void AB__DivideOwn__ZC(Z123_& x) {
  if (x.mValue % 2 == 0) throw std::invalid_argument("even");
  x.mValue = 1;
}
}  // namespace spec
