// Ring element classes: FF (canonical residues) and Z2k (residues modulo 2^K,
// compared modulo 2^K).
#include "bits_prelude.h"
#if __has_include(<tpx_names.h>)
#include <tpx_names.h>  // members /repo has renamed (sa/program.py)
#endif
namespace spec {
static const u64 p61 = (u64(1) << 61) - 1;
static const u128 p127 = (u128(1) << 127) - 1;
typedef scl::FF<127> F127_;
typedef scl::Z2k<32> Z32_;
typedef scl::Z2k<62> Z62_;
typedef scl::Z2k<123> Z123_;

inline u64 add61(u64 a, u64 b) { return ((u128)a + b) % p61; }
inline u64 sub61(u64 a, u64 b) { return ((u128)a + p61 - b) % p61; }
inline u128 add127(u128 a, u128 b) { return a >= p127 - b ? a - (p127 - b) : a + b; }
inline u128 sub127(u128 a, u128 b) { return a >= b ? a - b : a + (p127 - b); }

// ---- F
F& FA__op_addeq(F& self, const F& o) { self.mValue = add61(self.mValue, o.mValue); return self; }
F& FA__op_subeq(F& self, const F& o) { self.mValue = sub61(self.mValue, o.mValue); return self; }
F& FA__op_muleq(F& self, const F& o) { self.mValue = spec_mulmod(self.mValue, o.mValue, p61); return self; }
F& FA__op_diveq(F& self, const F& o) {
  if (o.mValue == 0) throw std::logic_error("zero");
  self.mValue = spec_mulmod(self.mValue, spec_modinv(o.mValue, p61), p61);
  return self;
}
F& FA__Negate(F& self) { self.mValue = sub61(0, self.mValue); return self; }
F FA__Negated(F& self) { F r; r.mValue = sub61(0, self.mValue); return r; }
F& FA__Invert(F& self) {
  if (self.mValue == 0) throw std::logic_error("zero");
  self.mValue = spec_modinv(self.mValue, p61);
  return self;
}
F FA__Inverse(const F& self) {
  if (self.mValue == 0) throw std::logic_error("zero");
  F r;
  r.mValue = spec_modinv(self.mValue, p61);
  return r;
}
bool FA__Equal(const F& self, const F& o) { return self.mValue == o.mValue; }
F FA__Read(const u8* src) {
  u64 v = 0;
  for (int i = 0; i < 8; ++i) v |= (u64)src[i] << (8 * i);
  F r;
  r.mValue = v % p61;
  return r;
}
void FA__Write(const F& self, u8* dest) {
  for (int i = 0; i < 8; ++i) dest[i] = self.mValue >> (8 * i);
}
F FA__Random(scl::PRG& prg) {
  u8 b[8];
  prg.Next(b, 8);
  return FA__Read(b);
}
N FA__ByteSize() { return 8; }
N FA__BitSize() { return 61; }
F RING__op_add__FA(const F& a, const F& b) { F r; r.mValue = add61(a.mValue, b.mValue); return r; }
F RING__op_sub__FA(const F& a, const F& b) { F r; r.mValue = sub61(a.mValue, b.mValue); return r; }
F RING__op_sub__FAn(const F& a) { F r; r.mValue = sub61(0, a.mValue); return r; }
F RING__op_mul__FA(const F& a, const F& b) { F r; r.mValue = spec_mulmod(a.mValue, b.mValue, p61); return r; }
F RING__op_div__FA(const F& a, const F& b) {
  if (b.mValue == 0) throw std::logic_error("zero");
  F r;
  r.mValue = spec_mulmod(a.mValue, spec_modinv(b.mValue, p61), p61);
  return r;
}
bool RING__op_eq__FA(const F& a, const F& b) { return a.mValue == b.mValue; }
bool RING__op_ne__FA(const F& a, const F& b) { return a.mValue != b.mValue; }

// ---- F127_
F127_& FB__op_addeq(F127_& self, const F127_& o) { self.mValue = add127(self.mValue, o.mValue); return self; }
F127_& FB__op_subeq(F127_& self, const F127_& o) { self.mValue = sub127(self.mValue, o.mValue); return self; }
F127_& FB__op_muleq(F127_& self, const F127_& o) { self.mValue = spec_mulmod(self.mValue, o.mValue, p127); return self; }
F127_& FB__op_diveq(F127_& self, const F127_& o) {
  if (o.mValue == 0) throw std::logic_error("zero");
  self.mValue = spec_mulmod(self.mValue, spec_modinv(o.mValue, p127), p127);
  return self;
}
F127_& FB__Negate(F127_& self) { self.mValue = sub127(0, self.mValue); return self; }
F127_ FB__Negated(F127_& self) { F127_ r; r.mValue = sub127(0, self.mValue); return r; }
F127_& FB__Invert(F127_& self) {
  if (self.mValue == 0) throw std::logic_error("zero");
  self.mValue = spec_modinv(self.mValue, p127);
  return self;
}
F127_ FB__Inverse(const F127_& self) {
  if (self.mValue == 0) throw std::logic_error("zero");
  F127_ r;
  r.mValue = spec_modinv(self.mValue, p127);
  return r;
}
bool FB__Equal(const F127_& self, const F127_& o) { return self.mValue == o.mValue; }
F127_ FB__Read(const u8* src) {
  u128 v = 0;
  for (int i = 0; i < 16; ++i) v |= (u128)src[i] << (8 * i);
  F127_ r;
  r.mValue = v % p127;
  return r;
}
void FB__Write(const F127_& self, u8* dest) {
  for (int i = 0; i < 16; ++i) dest[i] = self.mValue >> (8 * i);
}
F127_ FB__Random(scl::PRG& prg) {
  u8 b[16];
  prg.Next(b, 16);
  return FB__Read(b);
}
N FB__ByteSize() { return 16; }
N FB__BitSize() { return 127; }
F127_ RING__op_add__FB(const F127_& a, const F127_& b) { F127_ r; r.mValue = add127(a.mValue, b.mValue); return r; }
F127_ RING__op_sub__FB(const F127_& a, const F127_& b) { F127_ r; r.mValue = sub127(a.mValue, b.mValue); return r; }
F127_ RING__op_sub__FBn(const F127_& a) { F127_ r; r.mValue = sub127(0, a.mValue); return r; }
F127_ RING__op_mul__FB(const F127_& a, const F127_& b) { F127_ r; r.mValue = spec_mulmod(a.mValue, b.mValue, p127); return r; }
F127_ RING__op_div__FB(const F127_& a, const F127_& b) {
  if (b.mValue == 0) throw std::logic_error("zero");
  F127_ r;
  r.mValue = spec_mulmod(a.mValue, spec_modinv(b.mValue, p127), p127);
  return r;
}
bool RING__op_eq__FB(const F127_& a, const F127_& b) { return a.mValue == b.mValue; }
bool RING__op_ne__FB(const F127_& a, const F127_& b) { return a.mValue != b.mValue; }

// ---- Z32_
Z32_& ZA__op_addeq(Z32_& self, const Z32_& o) { self.mValue = self.mValue + o.mValue; return self; }
Z32_& ZA__op_subeq(Z32_& self, const Z32_& o) { self.mValue = self.mValue - o.mValue; return self; }
Z32_& ZA__op_muleq(Z32_& self, const Z32_& o) { self.mValue = self.mValue * o.mValue; return self; }
Z32_& ZA__op_diveq(Z32_& self, const Z32_& o) {
  if (o.mValue % 2 == 0) throw std::invalid_argument("even");
  self.mValue = spec_mulmod(self.mValue, spec_modinv(o.mValue, ((u64)1 << 32)), ((u64)1 << 32));
  return self;
}
Z32_& ZA__Negate(Z32_& self) { self.mValue = 0 - self.mValue; return self; }
Z32_ ZA__Negated(const Z32_& self) { Z32_ r; r.mValue = 0 - self.mValue; return r; }
Z32_& ZA__Invert(Z32_& self) {
  if (self.mValue % 2 == 0) throw std::invalid_argument("even");
  self.mValue = spec_modinv(self.mValue, ((u64)1 << 32));
  return self;
}
Z32_ ZA__Inverse(const Z32_& self) {
  if (self.mValue % 2 == 0) throw std::invalid_argument("even");
  Z32_ r;
  r.mValue = spec_modinv(self.mValue, ((u64)1 << 32));
  return r;
}
bool ZA__Equal(const Z32_& self, const Z32_& o) { return self.mValue % ((u64)1 << 32) == o.mValue % ((u64)1 << 32); }
unsigned ZA__Lsb(const Z32_& self) { return self.mValue % 2; }
Z32_ ZA__Read(const u8* src) {
  u64 v = 0;
  for (int i = 0; i < 4; ++i) v |= (u64)src[i] << (8 * i);
  Z32_ r;
  r.mValue = v;
  return r;
}
void ZA__Write(const Z32_& self, u8* dest) {
  u64 v = self.mValue % ((u64)1 << 32);
  for (int i = 0; i < 4; ++i) dest[i] = v >> (8 * i);
}
Z32_ ZA__Random(scl::PRG& prg) {
  u8 b[4];
  prg.Next(b, 4);
  return ZA__Read(b);
}
N ZA__ByteSize() { return 4; }
N ZA__BitSize() { return 32; }
Z32_ RING__op_add__ZA(const Z32_& a, const Z32_& b) { Z32_ r; r.mValue = a.mValue + b.mValue; return r; }
Z32_ RING__op_sub__ZA(const Z32_& a, const Z32_& b) { Z32_ r; r.mValue = a.mValue - b.mValue; return r; }
Z32_ RING__op_sub__ZAn(const Z32_& a) { Z32_ r; r.mValue = 0 - a.mValue; return r; }
Z32_ RING__op_mul__ZA(const Z32_& a, const Z32_& b) { Z32_ r; r.mValue = a.mValue * b.mValue; return r; }
Z32_ RING__op_div__ZA(const Z32_& a, const Z32_& b) {
  if (b.mValue % 2 == 0) throw std::invalid_argument("even");
  Z32_ r;
  r.mValue = spec_mulmod(a.mValue, spec_modinv(b.mValue, ((u64)1 << 32)), ((u64)1 << 32));
  return r;
}
bool RING__op_eq__ZA(const Z32_& a, const Z32_& b) { return a.mValue % ((u64)1 << 32) == b.mValue % ((u64)1 << 32); }
bool RING__op_ne__ZA(const Z32_& a, const Z32_& b) { return a.mValue % ((u64)1 << 32) != b.mValue % ((u64)1 << 32); }

// ---- Z62_
Z62_& ZB__op_addeq(Z62_& self, const Z62_& o) { self.mValue = self.mValue + o.mValue; return self; }
Z62_& ZB__op_subeq(Z62_& self, const Z62_& o) { self.mValue = self.mValue - o.mValue; return self; }
Z62_& ZB__op_muleq(Z62_& self, const Z62_& o) { self.mValue = self.mValue * o.mValue; return self; }
Z62_& ZB__op_diveq(Z62_& self, const Z62_& o) {
  if (o.mValue % 2 == 0) throw std::invalid_argument("even");
  self.mValue = spec_mulmod(self.mValue, spec_modinv(o.mValue, ((u64)1 << 62)), ((u64)1 << 62));
  return self;
}
Z62_& ZB__Negate(Z62_& self) { self.mValue = 0 - self.mValue; return self; }
Z62_ ZB__Negated(const Z62_& self) { Z62_ r; r.mValue = 0 - self.mValue; return r; }
Z62_& ZB__Invert(Z62_& self) {
  if (self.mValue % 2 == 0) throw std::invalid_argument("even");
  self.mValue = spec_modinv(self.mValue, ((u64)1 << 62));
  return self;
}
Z62_ ZB__Inverse(const Z62_& self) {
  if (self.mValue % 2 == 0) throw std::invalid_argument("even");
  Z62_ r;
  r.mValue = spec_modinv(self.mValue, ((u64)1 << 62));
  return r;
}
bool ZB__Equal(const Z62_& self, const Z62_& o) { return self.mValue % ((u64)1 << 62) == o.mValue % ((u64)1 << 62); }
unsigned ZB__Lsb(const Z62_& self) { return self.mValue % 2; }
Z62_ ZB__Read(const u8* src) {
  u64 v = 0;
  for (int i = 0; i < 8; ++i) v |= (u64)src[i] << (8 * i);
  Z62_ r;
  r.mValue = v;
  return r;
}
void ZB__Write(const Z62_& self, u8* dest) {
  u64 v = self.mValue % ((u64)1 << 62);
  for (int i = 0; i < 8; ++i) dest[i] = v >> (8 * i);
}
Z62_ ZB__Random(scl::PRG& prg) {
  u8 b[8];
  prg.Next(b, 8);
  return ZB__Read(b);
}
N ZB__ByteSize() { return 8; }
N ZB__BitSize() { return 62; }
Z62_ RING__op_add__ZB(const Z62_& a, const Z62_& b) { Z62_ r; r.mValue = a.mValue + b.mValue; return r; }
Z62_ RING__op_sub__ZB(const Z62_& a, const Z62_& b) { Z62_ r; r.mValue = a.mValue - b.mValue; return r; }
Z62_ RING__op_sub__ZBn(const Z62_& a) { Z62_ r; r.mValue = 0 - a.mValue; return r; }
Z62_ RING__op_mul__ZB(const Z62_& a, const Z62_& b) { Z62_ r; r.mValue = a.mValue * b.mValue; return r; }
Z62_ RING__op_div__ZB(const Z62_& a, const Z62_& b) {
  if (b.mValue % 2 == 0) throw std::invalid_argument("even");
  Z62_ r;
  r.mValue = spec_mulmod(a.mValue, spec_modinv(b.mValue, ((u64)1 << 62)), ((u64)1 << 62));
  return r;
}
bool RING__op_eq__ZB(const Z62_& a, const Z62_& b) { return a.mValue % ((u64)1 << 62) == b.mValue % ((u64)1 << 62); }
bool RING__op_ne__ZB(const Z62_& a, const Z62_& b) { return a.mValue % ((u64)1 << 62) != b.mValue % ((u64)1 << 62); }

// ---- Z123_
Z123_& ZC__op_addeq(Z123_& self, const Z123_& o) { self.mValue = self.mValue + o.mValue; return self; }
Z123_& ZC__op_subeq(Z123_& self, const Z123_& o) { self.mValue = self.mValue - o.mValue; return self; }
Z123_& ZC__op_muleq(Z123_& self, const Z123_& o) { self.mValue = self.mValue * o.mValue; return self; }
Z123_& ZC__op_diveq(Z123_& self, const Z123_& o) {
  if (o.mValue % 2 == 0) throw std::invalid_argument("even");
  self.mValue = spec_mulmod(self.mValue, spec_modinv(o.mValue, ((u128)1 << 123)), ((u128)1 << 123));
  return self;
}
Z123_& ZC__Negate(Z123_& self) { self.mValue = 0 - self.mValue; return self; }
Z123_ ZC__Negated(const Z123_& self) { Z123_ r; r.mValue = 0 - self.mValue; return r; }
Z123_& ZC__Invert(Z123_& self) {
  if (self.mValue % 2 == 0) throw std::invalid_argument("even");
  self.mValue = spec_modinv(self.mValue, ((u128)1 << 123));
  return self;
}
Z123_ ZC__Inverse(const Z123_& self) {
  if (self.mValue % 2 == 0) throw std::invalid_argument("even");
  Z123_ r;
  r.mValue = spec_modinv(self.mValue, ((u128)1 << 123));
  return r;
}
bool ZC__Equal(const Z123_& self, const Z123_& o) { return self.mValue % ((u128)1 << 123) == o.mValue % ((u128)1 << 123); }
unsigned ZC__Lsb(const Z123_& self) { return self.mValue % 2; }
Z123_ ZC__Read(const u8* src) {
  u128 v = 0;
  for (int i = 0; i < 16; ++i) v |= (u128)src[i] << (8 * i);
  Z123_ r;
  r.mValue = v;
  return r;
}
void ZC__Write(const Z123_& self, u8* dest) {
  u128 v = self.mValue % ((u128)1 << 123);
  for (int i = 0; i < 16; ++i) dest[i] = v >> (8 * i);
}
Z123_ ZC__Random(scl::PRG& prg) {
  u8 b[16];
  prg.Next(b, 16);
  return ZC__Read(b);
}
N ZC__ByteSize() { return 16; }
N ZC__BitSize() { return 123; }
Z123_ RING__op_add__ZC(const Z123_& a, const Z123_& b) { Z123_ r; r.mValue = a.mValue + b.mValue; return r; }
Z123_ RING__op_sub__ZC(const Z123_& a, const Z123_& b) { Z123_ r; r.mValue = a.mValue - b.mValue; return r; }
Z123_ RING__op_sub__ZCn(const Z123_& a) { Z123_ r; r.mValue = 0 - a.mValue; return r; }
Z123_ RING__op_mul__ZC(const Z123_& a, const Z123_& b) { Z123_ r; r.mValue = a.mValue * b.mValue; return r; }
Z123_ RING__op_div__ZC(const Z123_& a, const Z123_& b) {
  if (b.mValue % 2 == 0) throw std::invalid_argument("even");
  Z123_ r;
  r.mValue = spec_mulmod(a.mValue, spec_modinv(b.mValue, ((u128)1 << 123)), ((u128)1 << 123));
  return r;
}
bool RING__op_eq__ZC(const Z123_& a, const Z123_& b) { return a.mValue % ((u128)1 << 123) == b.mValue % ((u128)1 << 123); }
bool RING__op_ne__ZC(const Z123_& a, const Z123_& b) { return a.mValue % ((u128)1 << 123) != b.mValue % ((u128)1 << 123); }

inline unsigned hexdigit(char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  throw std::invalid_argument("digit");
}
// ---- numbers in strings: big-endian digits, u64
void STR__FromStringBinary__u64(u64& t, const std::string& s) {
  u64 v = 0;
  for (N i = 0; i < s.size(); ++i) {
    if (s[i] != '0' && s[i] != '1') throw std::invalid_argument("digit");
    v = v * 2 + (s[i] - '0');
  }
  t = v;
}
void STR__FromStringDecimal__u64(u64& t, const std::string& s) {
  u64 v = 0;
  for (N i = 0; i < s.size(); ++i) {
    if (s[i] < '0' || s[i] > '9') throw std::invalid_argument("digit");
    v = v * 10 + (s[i] - '0');
  }
  t = v;
}
void STR__FromStringHex__u64(u64& t, const std::string& s) {
  if (s.size() % 2 != 0) throw std::invalid_argument("length");
  u64 v = 0;
  for (N i = 0; i < s.size(); ++i) v = v * 16 + hexdigit(s[i]);
  t = v;
}

// ---- numbers in strings: big-endian digits, u128
void STR__FromStringBinary__u128(u128& t, const std::string& s) {
  u128 v = 0;
  for (N i = 0; i < s.size(); ++i) {
    if (s[i] != '0' && s[i] != '1') throw std::invalid_argument("digit");
    v = v * 2 + (s[i] - '0');
  }
  t = v;
}
void STR__FromStringDecimal__u128(u128& t, const std::string& s) {
  u128 v = 0;
  for (N i = 0; i < s.size(); ++i) {
    if (s[i] < '0' || s[i] > '9') throw std::invalid_argument("digit");
    v = v * 10 + (s[i] - '0');
  }
  t = v;
}
void STR__FromStringHex__u128(u128& t, const std::string& s) {
  if (s.size() % 2 != 0) throw std::invalid_argument("length");
  u128 v = 0;
  for (N i = 0; i < s.size(); ++i) v = v * 16 + hexdigit(s[i]);
  t = v;
}
unsigned STR__FromBase64(const char c) {
  if (c >= 'A' && c <= 'Z') return c - 'A';
  if (c >= 'a' && c <= 'z') return c - 'a' + 26;
  if (c >= '0' && c <= '9') return c - '0' + 52;
  if (c == '+') return 62;
  if (c == '/') return 63;
  throw std::invalid_argument("digit");
}
// base64: groups of four characters are three bytes; the last group may end in
// one or two '=' and then is two bytes or one
void STR__FromStringBase64__u64(u64& t, const std::string& s) {
  N n = s.size();
  if (n % 4 != 0) throw std::invalid_argument("length");
  u64 v = 0;
  for (N i = 0; i < n; i += 4) {
    bool last = i + 4 == n;
    bool p3 = last && s[i + 3] == '=';
    if (p3 && (s[i] == '=' || s[i + 1] == '=')) throw std::invalid_argument("padding");
    bool p2 = p3 && s[i + 2] == '=';
    unsigned a = scl::details::FromBase64(s[i]);
    unsigned b = scl::details::FromBase64(s[i + 1]);
    unsigned c = p2 ? 0 : scl::details::FromBase64(s[i + 2]);
    unsigned d = p3 ? 0 : scl::details::FromBase64(s[i + 3]);
    v = v * 256 + (a * 4 + b / 16);
    if (!p2) v = v * 256 + (b % 16 * 16 + c / 4);
    if (!p3) v = v * 256 + (c % 4 * 64 + d);
  }
  t = v;
}
void STR__FromStringBase64__u128(u128& t, const std::string& s) {
  N n = s.size();
  if (n % 4 != 0) throw std::invalid_argument("length");
  u128 v = 0;
  for (N i = 0; i < n; i += 4) {
    bool last = i + 4 == n;
    bool p3 = last && s[i + 3] == '=';
    if (p3 && (s[i] == '=' || s[i + 1] == '=')) throw std::invalid_argument("padding");
    bool p2 = p3 && s[i + 2] == '=';
    unsigned a = scl::details::FromBase64(s[i]);
    unsigned b = scl::details::FromBase64(s[i + 1]);
    unsigned c = p2 ? 0 : scl::details::FromBase64(s[i + 2]);
    unsigned d = p3 ? 0 : scl::details::FromBase64(s[i + 3]);
    v = v * 256 + (a * 4 + b / 16);
    if (!p2) v = v * 256 + (b % 16 * 16 + c / 4);
    if (!p3) v = v * 256 + (c % 4 * 64 + d);
  }
  t = v;
}
}  // namespace spec
