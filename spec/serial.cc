// Vectors and matrices as bytes: elements in order (row-major), ByteSize bytes each.
#include "bits_prelude.h"
#if __has_include(<tpx_names.h>)
#include <tpx_names.h>  // members /repo has renamed (sa/program.py)
#endif
namespace spec {
V VB__Read(N n, const u8* src) {
  V r(n);
  for (N i = 0; i < n; ++i) r[i] = F::Read(src + 8 * i);
  return r;
}
void VB__Write(const V& self, u8* dest) {
  for (N i = 0; i < self.Size(); ++i) self.mValues[i].Write(dest + 8 * i);
}
N VB__ByteSize(const V& self) { return 8 * self.mValues.size(); }
V VB__Random(N n, scl::PRG& prg) {
  V r(n);
  for (N i = 0; i < n; ++i) r[i] = F::Random(prg);
  return r;
}
M MB__Read(N n, N m, const u8* src) {
  spec_assume(n > 0);
  spec_assume(m > 0);
  M r(n, m);
  for (N i = 0; i < n * m; ++i) r.mValues[i] = F::Read(src + 8 * i);
  return r;
}
void MB__Write(const M& self, u8* dest) {
  for (N i = 0; i < self.mValues.size(); ++i) self.mValues[i].Write(dest + 8 * i);
}
N MB__ByteSize(const M& self) {
  spec_assume(self.mValues.size() == self.mRows * self.mCols);
  return 8 * self.mRows * self.mCols;
}
M MB__Random(N n, N m, scl::PRG& prg) {
  spec_assume(n > 0);
  spec_assume(m > 0);
  std::vector<u8> b(8 * n * m);
  prg.Next(b.data(), 8 * n * m);
  M r(n, m);
  for (N i = 0; i < n * m; ++i) r.mValues[i] = F::Read(b.data() + 8 * i);
  return r;
}

using scl::Channel;
void CH__Send__u(Channel& self, const unsigned& x) { self.Send((const u8*)&x, 4); }
void CH__Send__F(Channel& self, const F& x) { self.Send((const u8*)&x, 8); }
void CH__Send__iv(Channel& self, const std::vector<int>& v) { self.Send((const u8*)v.data(), 4 * v.size()); }
void CH__Recv__u(Channel& self, unsigned& x) { self.Recv((u8*)&x, 4); }
void CH__Recv__F(Channel& self, F& x) { self.Recv((u8*)&x, 8); }
void CH__Recv__iv(Channel& self, std::vector<int>& v) { self.Recv((u8*)v.data(), 4 * v.size()); }

void CH__Send__V(Channel& self, const V& v) {
  const std::uint32_t n = v.Size();
  self.Send((const u8*)&n, 4);
  std::vector<u8> b(8 * v.Size());
  for (N i = 0; i < v.Size(); ++i) v.mValues[i].Write(b.data() + 8 * i);
  self.Send(b.data(), 8 * v.Size());
}
void CH__Send__M(Channel& self, const M& m) {
  spec_assume(m.mValues.size() == m.mRows * m.mCols);
  const std::uint32_t r = m.mRows, c = m.mCols;
  self.Send((const u8*)&r, 4);
  self.Send((const u8*)&c, 4);
  std::vector<u8> b(8 * m.mValues.size());
  for (N i = 0; i < m.mValues.size(); ++i) m.mValues[i].Write(b.data() + 8 * i);
  self.Send(b.data(), 8 * m.mValues.size());
}
void CH__Recv__V(Channel& self, V& v) {
  std::uint32_t n;
  self.Recv((u8*)&n, 4);
  if (n > (1 << 25)) throw std::logic_error("size");
  std::vector<u8> b(8 * (N)n);
  self.Recv(b.data(), 8 * (N)n);
  v = V(n);
  for (N i = 0; i < n; ++i) v.mValues[i] = F::Read(b.data() + 8 * i);
}
void CH__Recv__M(Channel& self, M& m) {
  std::uint32_t r, c;
  self.Recv((u8*)&r, 4);
  self.Recv((u8*)&c, 4);
  N n = (N)r * (N)c;
  if (n > (1 << 25)) throw std::logic_error("size");
  std::vector<u8> b(8 * n);
  self.Recv(b.data(), 8 * n);
  m.mRows = r;
  m.mCols = c;
  m.mValues = std::vector<F>(n);
  for (N i = 0; i < n; ++i) m.mValues[i] = F::Read(b.data() + 8 * i);
}
}  // namespace spec
