// Vectors and matrices as bytes over rings whose elements take another number of
// bytes on the wire than in memory, and over the large field.  (Generated from
// spec/serial.cc.)
#include "bits_prelude.h"
#if __has_include(<tpx_names.h>)
#include <tpx_names.h>  // members /repo has renamed (sa/program.py)
#endif
namespace spec {
using scl::Channel;

// ---- scl::Z2k<44>, 6 bytes
typedef scl::Z2k<44> FG_;
typedef scl::Vec<FG_> VG_;
typedef scl::Mat<FG_> MG_;
VG_ VG__Read(N n, const u8* src) {
  VG_ r(n);
  for (N i = 0; i < n; ++i) r[i] = FG_::Read(src + 6 * i);
  return r;
}
void VG__Write(const VG_& self, u8* dest) {
  for (N i = 0; i < self.Size(); ++i) self.mValues[i].Write(dest + 6 * i);
}
N VG__ByteSize(const VG_& self) { return 6 * self.mValues.size(); }
VG_ VG__Random(N n, scl::PRG& prg) {
  VG_ r(n);
  for (N i = 0; i < n; ++i) r[i] = FG_::Random(prg);
  return r;
}
MG_ MG__Read(N n, N m, const u8* src) {
  spec_assume(n > 0);
  spec_assume(m > 0);
  MG_ r(n, m);
  for (N i = 0; i < n * m; ++i) r.mValues[i] = FG_::Read(src + 6 * i);
  return r;
}
void MG__Write(const MG_& self, u8* dest) {
  for (N i = 0; i < self.mValues.size(); ++i) self.mValues[i].Write(dest + 6 * i);
}
N MG__ByteSize(const MG_& self) {
  spec_assume(self.mValues.size() == self.mRows * self.mCols);
  return 6 * self.mRows * self.mCols;
}
MG_ MG__Random(N n, N m, scl::PRG& prg) {
  spec_assume(n > 0);
  spec_assume(m > 0);
  std::vector<u8> b(6 * n * m);
  prg.Next(b.data(), 6 * n * m);
  MG_ r(n, m);
  for (N i = 0; i < n * m; ++i) r.mValues[i] = FG_::Read(b.data() + 6 * i);
  return r;
}

void CH__Send__VG(Channel& self, const VG_& v) {
  const std::uint32_t n = v.Size();
  self.Send((const u8*)&n, 4);
  std::vector<u8> b(6 * v.Size());
  for (N i = 0; i < v.Size(); ++i) v.mValues[i].Write(b.data() + 6 * i);
  self.Send(b.data(), 6 * v.Size());
}
void CH__Send__MG(Channel& self, const MG_& m) {
  spec_assume(m.mValues.size() == m.mRows * m.mCols);
  const std::uint32_t r = m.mRows, c = m.mCols;
  self.Send((const u8*)&r, 4);
  self.Send((const u8*)&c, 4);
  std::vector<u8> b(6 * m.mValues.size());
  for (N i = 0; i < m.mValues.size(); ++i) m.mValues[i].Write(b.data() + 6 * i);
  self.Send(b.data(), 6 * m.mValues.size());
}
void CH__Recv__VG(Channel& self, VG_& v) {
  std::uint32_t n;
  self.Recv((u8*)&n, 4);
  if (n > (1 << 25)) throw std::logic_error("size");
  std::vector<u8> b(6 * (N)n);
  self.Recv(b.data(), 6 * (N)n);
  v = VG_(n);
  for (N i = 0; i < n; ++i) v.mValues[i] = FG_::Read(b.data() + 6 * i);
}
void CH__Recv__MG(Channel& self, MG_& m) {
  std::uint32_t r, c;
  self.Recv((u8*)&r, 4);
  self.Recv((u8*)&c, 4);
  N n = (N)r * (N)c;
  if (n > (1 << 25)) throw std::logic_error("size");
  std::vector<u8> b(6 * n);
  self.Recv(b.data(), 6 * n);
  m.mRows = r;
  m.mCols = c;
  m.mValues = std::vector<FG_>(n);
  for (N i = 0; i < n; ++i) m.mValues[i] = FG_::Read(b.data() + 6 * i);
}

// ---- scl::FF<127>, 16 bytes
typedef scl::FF<127> FH_;
typedef scl::Vec<FH_> VH_;
typedef scl::Mat<FH_> MH_;
VH_ VH__Read(N n, const u8* src) {
  VH_ r(n);
  for (N i = 0; i < n; ++i) r[i] = FH_::Read(src + 16 * i);
  return r;
}
void VH__Write(const VH_& self, u8* dest) {
  for (N i = 0; i < self.Size(); ++i) self.mValues[i].Write(dest + 16 * i);
}
N VH__ByteSize(const VH_& self) { return 16 * self.mValues.size(); }
VH_ VH__Random(N n, scl::PRG& prg) {
  VH_ r(n);
  for (N i = 0; i < n; ++i) r[i] = FH_::Random(prg);
  return r;
}
MH_ MH__Read(N n, N m, const u8* src) {
  spec_assume(n > 0);
  spec_assume(m > 0);
  MH_ r(n, m);
  for (N i = 0; i < n * m; ++i) r.mValues[i] = FH_::Read(src + 16 * i);
  return r;
}
void MH__Write(const MH_& self, u8* dest) {
  for (N i = 0; i < self.mValues.size(); ++i) self.mValues[i].Write(dest + 16 * i);
}
N MH__ByteSize(const MH_& self) {
  spec_assume(self.mValues.size() == self.mRows * self.mCols);
  return 16 * self.mRows * self.mCols;
}
MH_ MH__Random(N n, N m, scl::PRG& prg) {
  spec_assume(n > 0);
  spec_assume(m > 0);
  std::vector<u8> b(16 * n * m);
  prg.Next(b.data(), 16 * n * m);
  MH_ r(n, m);
  for (N i = 0; i < n * m; ++i) r.mValues[i] = FH_::Read(b.data() + 16 * i);
  return r;
}

void CH__Send__VH(Channel& self, const VH_& v) {
  const std::uint32_t n = v.Size();
  self.Send((const u8*)&n, 4);
  std::vector<u8> b(16 * v.Size());
  for (N i = 0; i < v.Size(); ++i) v.mValues[i].Write(b.data() + 16 * i);
  self.Send(b.data(), 16 * v.Size());
}
void CH__Send__MH(Channel& self, const MH_& m) {
  spec_assume(m.mValues.size() == m.mRows * m.mCols);
  const std::uint32_t r = m.mRows, c = m.mCols;
  self.Send((const u8*)&r, 4);
  self.Send((const u8*)&c, 4);
  std::vector<u8> b(16 * m.mValues.size());
  for (N i = 0; i < m.mValues.size(); ++i) m.mValues[i].Write(b.data() + 16 * i);
  self.Send(b.data(), 16 * m.mValues.size());
}
void CH__Recv__VH(Channel& self, VH_& v) {
  std::uint32_t n;
  self.Recv((u8*)&n, 4);
  if (n > (1 << 25)) throw std::logic_error("size");
  std::vector<u8> b(16 * (N)n);
  self.Recv(b.data(), 16 * (N)n);
  v = VH_(n);
  for (N i = 0; i < n; ++i) v.mValues[i] = FH_::Read(b.data() + 16 * i);
}
void CH__Recv__MH(Channel& self, MH_& m) {
  std::uint32_t r, c;
  self.Recv((u8*)&r, 4);
  self.Recv((u8*)&c, 4);
  N n = (N)r * (N)c;
  if (n > (1 << 25)) throw std::logic_error("size");
  std::vector<u8> b(16 * n);
  self.Recv(b.data(), 16 * n);
  m.mRows = r;
  m.mCols = c;
  m.mValues = std::vector<FH_>(n);
  for (N i = 0; i < n; ++i) m.mValues[i] = FH_::Read(b.data() + 16 * i);
}

// ---- scl::Z2k<1>, 1 bytes
typedef scl::Z2k<1> FI_;
typedef scl::Vec<FI_> VI_;
typedef scl::Mat<FI_> MI_;
VI_ VI__Read(N n, const u8* src) {
  VI_ r(n);
  for (N i = 0; i < n; ++i) r[i] = FI_::Read(src + 1 * i);
  return r;
}
void VI__Write(const VI_& self, u8* dest) {
  for (N i = 0; i < self.Size(); ++i) self.mValues[i].Write(dest + 1 * i);
}
N VI__ByteSize(const VI_& self) { return 1 * self.mValues.size(); }
VI_ VI__Random(N n, scl::PRG& prg) {
  VI_ r(n);
  for (N i = 0; i < n; ++i) r[i] = FI_::Random(prg);
  return r;
}
MI_ MI__Read(N n, N m, const u8* src) {
  spec_assume(n > 0);
  spec_assume(m > 0);
  MI_ r(n, m);
  for (N i = 0; i < n * m; ++i) r.mValues[i] = FI_::Read(src + 1 * i);
  return r;
}
void MI__Write(const MI_& self, u8* dest) {
  for (N i = 0; i < self.mValues.size(); ++i) self.mValues[i].Write(dest + 1 * i);
}
N MI__ByteSize(const MI_& self) {
  spec_assume(self.mValues.size() == self.mRows * self.mCols);
  return 1 * self.mRows * self.mCols;
}
MI_ MI__Random(N n, N m, scl::PRG& prg) {
  spec_assume(n > 0);
  spec_assume(m > 0);
  std::vector<u8> b(1 * n * m);
  prg.Next(b.data(), 1 * n * m);
  MI_ r(n, m);
  for (N i = 0; i < n * m; ++i) r.mValues[i] = FI_::Read(b.data() + 1 * i);
  return r;
}

void CH__Send__VI(Channel& self, const VI_& v) {
  const std::uint32_t n = v.Size();
  self.Send((const u8*)&n, 4);
  std::vector<u8> b(1 * v.Size());
  for (N i = 0; i < v.Size(); ++i) v.mValues[i].Write(b.data() + 1 * i);
  self.Send(b.data(), 1 * v.Size());
}
void CH__Send__MI(Channel& self, const MI_& m) {
  spec_assume(m.mValues.size() == m.mRows * m.mCols);
  const std::uint32_t r = m.mRows, c = m.mCols;
  self.Send((const u8*)&r, 4);
  self.Send((const u8*)&c, 4);
  std::vector<u8> b(1 * m.mValues.size());
  for (N i = 0; i < m.mValues.size(); ++i) m.mValues[i].Write(b.data() + 1 * i);
  self.Send(b.data(), 1 * m.mValues.size());
}
void CH__Recv__VI(Channel& self, VI_& v) {
  std::uint32_t n;
  self.Recv((u8*)&n, 4);
  if (n > (1 << 25)) throw std::logic_error("size");
  std::vector<u8> b(1 * (N)n);
  self.Recv(b.data(), 1 * (N)n);
  v = VI_(n);
  for (N i = 0; i < n; ++i) v.mValues[i] = FI_::Read(b.data() + 1 * i);
}
void CH__Recv__MI(Channel& self, MI_& m) {
  std::uint32_t r, c;
  self.Recv((u8*)&r, 4);
  self.Recv((u8*)&c, 4);
  N n = (N)r * (N)c;
  if (n > (1 << 25)) throw std::logic_error("size");
  std::vector<u8> b(1 * n);
  self.Recv(b.data(), 1 * n);
  m.mRows = r;
  m.mCols = c;
  m.mValues = std::vector<FI_>(n);
  for (N i = 0; i < n; ++i) m.mValues[i] = FI_::Read(b.data() + 1 * i);
}
}  // namespace spec
