// Vectors, matrices, polynomials and linear algebra.
#include "scl_prelude.h"
#include <array>
#if __has_include(<tpx_names.h>)
#include <tpx_names.h>  // members /repo has renamed (sa/program.py)
#endif
namespace spec {

// ---------------------------------------------------------------- vectors
void VEC__ctor(V& self, N n) { self.mValues = std::vector<F>(n); }
void VEC__ctor__v(V& self, const std::vector<F>& values) { self.mValues = values; }
N VEC__Size(const V& self) { return self.mValues.size(); }
void VEC__Emplace(V& self, F value) { self.mValues.push_back(value); }
V VEC__Add(const V& self, const V& o) {
  if (o.mValues.size() != self.mValues.size()) throw std::invalid_argument("size");
  std::vector<F> r;
  for (N i = 0; i < o.mValues.size(); ++i) r.push_back(self.mValues[i] + o.mValues[i]);
  return V(r);
}
V VEC__Subtract(const V& self, const V& o) {
  if (o.mValues.size() != self.mValues.size()) throw std::invalid_argument("size");
  std::vector<F> r;
  for (N i = 0; i < o.mValues.size(); ++i) r.push_back(self.mValues[i] - o.mValues[i]);
  return V(r);
}
V VEC__MultiplyEntryWise(const V& self, const V& o) {
  if (o.mValues.size() != self.mValues.size()) throw std::invalid_argument("size");
  std::vector<F> r;
  for (N i = 0; i < o.mValues.size(); ++i) r.push_back(self.mValues[i] * o.mValues[i]);
  return V(r);
}
V& VEC__AddInPlace(V& self, const V& o) {
  if (o.mValues.size() != self.mValues.size()) throw std::invalid_argument("size");
  std::vector<F> r;
  for (N i = 0; i < o.mValues.size(); ++i) r.push_back(self.mValues[i] + o.mValues[i]);
  self.mValues = r;
  return self;
}
V& VEC__SubtractInPlace(V& self, const V& o) {
  if (o.mValues.size() != self.mValues.size()) throw std::invalid_argument("size");
  std::vector<F> r;
  for (N i = 0; i < o.mValues.size(); ++i) r.push_back(self.mValues[i] - o.mValues[i]);
  self.mValues = r;
  return self;
}
V& VEC__MultiplyEntryWiseInPlace(V& self, const V& o) {
  if (o.mValues.size() != self.mValues.size()) throw std::invalid_argument("size");
  std::vector<F> r;
  for (N i = 0; i < o.mValues.size(); ++i) r.push_back(self.mValues[i] * o.mValues[i]);
  self.mValues = r;
  return self;
}
F VEC__Dot(const V& self, const V& o) {
  if (o.mValues.size() != self.mValues.size()) throw std::invalid_argument("size");
  F s(0);
  for (N i = 0; i < o.mValues.size(); ++i) s = s + self.mValues[i] * o.mValues[i];
  return s;
}
F VEC__Sum(const V& self) {
  F s(0);
  for (N i = 0; i < self.mValues.size(); ++i) s = s + self.mValues[i];
  return s;
}
V VEC__ScalarMultiply(const V& self, const F& c) {
  std::vector<F> r;
  for (N i = 0; i < self.mValues.size(); ++i) r.push_back(self.mValues[i] * c);
  return V(r);
}
V& VEC__ScalarMultiplyInPlace(V& self, const F& c) {
  std::vector<F> r;
  for (N i = 0; i < self.mValues.size(); ++i) r.push_back(self.mValues[i] * c);
  self.mValues = r;
  return self;
}
bool VEC__Equals(const V& self, const V& o) {
  if (self.mValues.size() != o.mValues.size()) return false;
  for (N i = 0; i < self.mValues.size(); ++i) if (self.mValues[i] != o.mValues[i]) return false;
  return true;
}
M VEC__ToRowMatrix(const V& self) {
  M m;
  m.mRows = 1;
  m.mCols = self.mValues.size();
  m.mValues = self.mValues;
  return m;
}
M VEC__ToColumnMatrix(const V& self) {
  M m;
  m.mRows = self.mValues.size();
  m.mCols = 1;
  m.mValues = self.mValues;
  return m;
}
V VEC__Random(N n, scl::PRG& prg) {
  std::vector<F> r;
  for (N i = 0; i < n; ++i) r.push_back(F::Random(prg));
  return V(r);
}

// ---------------------------------------------------------------- matrices
void MAT__ctor__0(M& self) { self.mRows = 0; self.mCols = 0; }
void MAT__ctor(M& self, N n, N m) {
  if (n == 0 || m == 0) throw std::invalid_argument("dim");
  self.mRows = n;
  self.mCols = m;
  self.mValues = std::vector<F>(n * m);
}
void MAT__ctor__n(M& self, N n) {
  if (n == 0) throw std::invalid_argument("dim");
  self.mRows = n;
  self.mCols = n;
  self.mValues = std::vector<F>(n * n);
}
N MAT__Rows(const M& self) { return self.mRows; }
N MAT__Cols(const M& self) { return self.mCols; }
M MAT__FromVector(N n, N m, const std::vector<F>& v) {
  if (v.size() != n * m) throw std::invalid_argument("dim");
  M r;
  r.mRows = n;
  r.mCols = m;
  r.mValues = v;
  return r;
}
F MAT__op_call(const M& self, N i, N j) { return self.mValues[i * self.mCols + j]; }
void inv(const M& a) { spec_assume(a.mValues.size() == a.mRows * a.mCols); }
M MAT__Add(const M& self, const M& o) {
  inv(self); inv(o);
  if (self.mRows != o.mRows || self.mCols != o.mCols) throw std::invalid_argument("dim");
  M r;
  r.mRows = self.mRows;
  r.mCols = self.mCols;
  for (N i = 0; i < self.mValues.size(); ++i) r.mValues.push_back(self.mValues[i] + o.mValues[i]);
  return r;
}
M MAT__Subtract(const M& self, const M& o) {
  inv(self); inv(o);
  if (self.mRows != o.mRows || self.mCols != o.mCols) throw std::invalid_argument("dim");
  M r;
  r.mRows = self.mRows;
  r.mCols = self.mCols;
  for (N i = 0; i < self.mValues.size(); ++i) r.mValues.push_back(self.mValues[i] - o.mValues[i]);
  return r;
}
M MAT__MultiplyEntryWise(const M& self, const M& o) {
  inv(self); inv(o);
  if (self.mRows != o.mRows || self.mCols != o.mCols) throw std::invalid_argument("dim");
  M r;
  r.mRows = self.mRows;
  r.mCols = self.mCols;
  for (N i = 0; i < self.mValues.size(); ++i) r.mValues.push_back(self.mValues[i] * o.mValues[i]);
  return r;
}
M& MAT__AddInPlace(M& self, const M& o) {
  inv(self); inv(o);
  if (self.mRows != o.mRows || self.mCols != o.mCols) throw std::invalid_argument("dim");
  std::vector<F> r;
  for (N i = 0; i < self.mValues.size(); ++i) r.push_back(self.mValues[i] + o.mValues[i]);
  self.mValues = r;
  return self;
}
M& MAT__SubtractInPlace(M& self, const M& o) {
  inv(self); inv(o);
  if (self.mRows != o.mRows || self.mCols != o.mCols) throw std::invalid_argument("dim");
  std::vector<F> r;
  for (N i = 0; i < self.mValues.size(); ++i) r.push_back(self.mValues[i] - o.mValues[i]);
  self.mValues = r;
  return self;
}
M& MAT__MultiplyEntryWiseInPlace(M& self, const M& o) {
  inv(self); inv(o);
  if (self.mRows != o.mRows || self.mCols != o.mCols) throw std::invalid_argument("dim");
  std::vector<F> r;
  for (N i = 0; i < self.mValues.size(); ++i) r.push_back(self.mValues[i] * o.mValues[i]);
  self.mValues = r;
  return self;
}
M MAT__ScalarMultiply(const M& self, const F& c) {
  M r;
  r.mRows = self.mRows;
  r.mCols = self.mCols;
  for (N i = 0; i < self.mValues.size(); ++i) r.mValues.push_back(self.mValues[i] * c);
  return r;
}
M& MAT__ScalarMultiplyInPlace(M& self, const F& c) {
  std::vector<F> r;
  for (N i = 0; i < self.mValues.size(); ++i) r.push_back(self.mValues[i] * c);
  self.mValues = r;
  return self;
}
M MAT__Multiply(const M& self, const M& o) {
  inv(self); inv(o);
  spec_assume(self.mRows > 0); spec_assume(self.mCols > 0); spec_assume(o.mCols > 0);
  if (self.mCols != o.mRows) throw std::invalid_argument("dim");
  M r;
  r.mRows = self.mRows;
  r.mCols = o.mCols;
  for (N i = 0; i < self.mRows; ++i)
    for (N j = 0; j < o.mCols; ++j) {
      F s(0);
      for (N k = 0; k < self.mCols; ++k) s = s + self.mValues[i * self.mCols + k] * o.mValues[k * o.mCols + j];
      r.mValues.push_back(s);
    }
  return r;
}
M MAT__Transpose(const M& self) {
  inv(self);
  spec_assume(self.mRows > 0); spec_assume(self.mCols > 0);
  M r;
  r.mRows = self.mCols;
  r.mCols = self.mRows;
  for (N i = 0; i < self.mCols; ++i)
    for (N j = 0; j < self.mRows; ++j) r.mValues.push_back(self.mValues[j * self.mCols + i]);
  return r;
}
M MAT__Identity(N n) {
  if (n == 0) throw std::invalid_argument("dim");
  M r;
  r.mRows = n;
  r.mCols = n;
  for (N i = 0; i < n; ++i)
    for (N j = 0; j < n; ++j) r.mValues.push_back(i == j ? F(1) : F(0));
  return r;
}
bool MAT__IsSquare(const M& self) { return self.mRows == self.mCols; }
bool MAT__IsIdentity(const M& self) {
  inv(self);
  spec_assume(self.mRows > 0);
  if (self.mRows != self.mCols) return false;
  for (N i = 0; i < self.mRows; ++i)
    for (N j = 0; j < self.mCols; ++j)
      if (self.mValues[i * self.mCols + j] != (i == j ? F(1) : F(0))) return false;
  return true;
}
M& MAT__Resize(M& self, N rows, N cols) {
  if (rows * cols != self.mRows * self.mCols) throw std::invalid_argument("dim");
  self.mRows = rows;
  self.mCols = cols;
  return self;
}
bool MAT__Equals(const M& self, const M& o) {
  inv(self); inv(o);
  if (self.mRows != o.mRows || self.mCols != o.mCols) return false;
  for (N i = 0; i < self.mValues.size(); ++i) if (self.mValues[i] != o.mValues[i]) return false;
  return true;
}

// ---------------------------------------------------------------- polynomials
// coefficient i belongs to x^i; trailing zero coefficients are dropped
void POLY__ctor__0(Poly& self) { self.mCoefficients = V(std::vector<F>(1, F(0))); }
void POLY__ctor__c(Poly& self, const F& c) { self.mCoefficients = V(std::vector<F>(1, c)); }
F POLY__Evaluate(const Poly& self, const F& x) {
  spec_assume(self.mCoefficients.Size() > 0);
  N n = self.mCoefficients.Size();
  F y = self.mCoefficients[n - 1];
  for (N i = 1; i < n; ++i) y = self.mCoefficients[n - 1 - i] + y * x;
  return y;
}
N POLY__Degree(const Poly& self) { return self.mCoefficients.Size() - 1; }
F POLY__ConstantTerm(const Poly& self) { return self.mCoefficients[0]; }
F POLY__LeadingTerm(const Poly& self) { return self.mCoefficients[self.mCoefficients.Size() - 1]; }
bool POLY__IsZero(const Poly& self) { return self.mCoefficients.Size() == 1 && self.mCoefficients[0] == F(0); }
Poly POLY__Create(const V& c) {
  N k = c.Size();
  while (k > 0 && c[k - 1] == F(0)) --k;
  Poly p;
  std::vector<F> r;
  if (k == 0) r.push_back(F(0));
  for (N i = 0; i < k; ++i) r.push_back(c[i]);
  p.mCoefficients = V(r);
  return p;
}
F coef(const Poly& p, N i) { return i < p.mCoefficients.Size() ? p.mCoefficients[i] : F(0); }
Poly POLY__Add(const Poly& self, const Poly& q) {
  spec_assume(self.mCoefficients.Size() > 0); spec_assume(q.mCoefficients.Size() > 0);
  N n = self.mCoefficients.Size() > q.mCoefficients.Size() ? self.mCoefficients.Size() : q.mCoefficients.Size();
  std::vector<F> r;
  for (N i = 0; i < n; ++i) r.push_back(coef(self, i) + coef(q, i));
  return POLY__Create(V(r));
}
Poly POLY__Subtract(const Poly& self, const Poly& q) {
  spec_assume(self.mCoefficients.Size() > 0); spec_assume(q.mCoefficients.Size() > 0);
  N n = self.mCoefficients.Size() > q.mCoefficients.Size() ? self.mCoefficients.Size() : q.mCoefficients.Size();
  std::vector<F> r;
  for (N i = 0; i < n; ++i) r.push_back(coef(self, i) - coef(q, i));
  return POLY__Create(V(r));
}
Poly POLY__Multiply(const Poly& self, const Poly& q) {
  spec_assume(self.mCoefficients.Size() > 0); spec_assume(q.mCoefficients.Size() > 0);
  std::vector<F> r;
  for (N k = 0; k < self.mCoefficients.Size() + q.mCoefficients.Size() - 1; ++k) {
    F s(0);
    for (N i = 0; i < self.mCoefficients.Size(); ++i)
      if (i <= k && k - i < q.mCoefficients.Size()) s = s + self.mCoefficients[i] * q.mCoefficients[k - i];
    r.push_back(s);
  }
  return POLY__Create(V(r));
}
// quotient and remainder of long division
std::array<Poly, 2> POLY__Divide(const Poly& self, const Poly& d) {
  spec_assume(self.mCoefficients.Size() > 0); spec_assume(d.mCoefficients.Size() > 0);
  spec_assume(self.mCoefficients.Size() == 1 || self.mCoefficients[self.mCoefficients.Size() - 1] != F(0));
  spec_assume(d.mCoefficients.Size() == 1 || d.mCoefficients[d.mCoefficients.Size() - 1] != F(0));
  N m = d.mCoefficients.Size();
  if (m == 1 && d.mCoefficients[0] == F(0)) throw std::invalid_argument("zero");
  std::vector<F> r, q;
  for (N i = 0; i < self.mCoefficients.Size(); ++i) r.push_back(self.mCoefficients[i]);
  N n = r.size() < m ? 1 : r.size() - m + 1;
  for (N i = 0; i < n; ++i) q.push_back(F(0));
  if (r.size() >= m)
    for (N i = 0; i < n; ++i) {
      N at = n - 1 - i;
      F f = r[at + m - 1] / d.mCoefficients[m - 1];
      q[at] = f;
      for (N j = 0; j < m; ++j) r[at + j] = r[at + j] - f * d.mCoefficients[j];
    }
  return {POLY__Create(V(q)), POLY__Create(V(r))};
}

// ---------------------------------------------------------------- linear algebra
void LA__SwapRows(M& a, N k, N h) {
  inv(a);
  spec_assume(k < a.mRows); spec_assume(h < a.mRows);
  std::vector<F> r;
  for (N i = 0; i < a.mRows; ++i)
    for (N j = 0; j < a.mCols; ++j) r.push_back(a.mValues[(i == k ? h : i == h ? k : i) * a.mCols + j]);
  a.mValues = r;
}
void LA__MultiplyRow(M& a, N row, const F& c) {
  inv(a);
  spec_assume(row < a.mRows);
  std::vector<F> r;
  for (N i = 0; i < a.mRows; ++i)
    for (N j = 0; j < a.mCols; ++j) r.push_back(i == row ? a.mValues[i * a.mCols + j] * c : a.mValues[i * a.mCols + j]);
  a.mValues = r;
}
void LA__AddRows(M& a, N dst, N op, const F& c) {
  inv(a);
  spec_assume(dst < a.mRows); spec_assume(op < a.mRows); spec_assume(dst != op);
  std::vector<F> r;
  for (N i = 0; i < a.mRows; ++i)
    for (N j = 0; j < a.mCols; ++j)
      r.push_back(i == dst ? a.mValues[i * a.mCols + j] + a.mValues[op * a.mCols + j] * c : a.mValues[i * a.mCols + j]);
  a.mValues = r;
}
M LA__CreateAugmentedMatrix(const M& a, const M& b) {
  spec_assume(a.mRows == b.mRows); spec_assume(a.mRows > 0); spec_assume(a.mCols > 0); spec_assume(b.mCols > 0);
  inv(a); inv(b);
  M r;
  r.mRows = a.mRows;
  r.mCols = a.mCols + b.mCols;
  for (N i = 0; i < a.mRows; ++i)
    for (N j = 0; j < a.mCols + b.mCols; ++j)
      r.mValues.push_back(j < a.mCols ? a.mValues[i * a.mCols + j] : b.mValues[i * b.mCols + (j - a.mCols)]);
  return r;
}
M LA__CreateAugmentedMatrix__v(const M& a, const V& b) {
  M c;
  c.mRows = b.Size();
  c.mCols = 1;
  c.mValues = b.mValues;
  return LA__CreateAugmentedMatrix(a, c);
}
// reduced row echelon form: unique for every matrix
void rref(std::vector<F>& v, N rows, N cols) {
  N done = 0;
  for (N c = 0; c < cols; ++c) {
    N p = done;
    while (p < rows && v[p * cols + c] == F(0)) ++p;
    if (p < rows) {
      // bring the pivot row up, scaled to a leading one, and clear the column
      std::vector<F> w;
      F lead = v[p * cols + c];
      for (N i = 0; i < rows; ++i)
        for (N j = 0; j < cols; ++j) {
          N from = i == done ? p : i == p ? done : i;
          w.push_back(i == done ? v[p * cols + j] / lead
                                : v[from * cols + j] - v[from * cols + c] / lead * v[p * cols + j]);
        }
      v = w;
      done = done + 1;
    }
  }
}
void LA__RowReduceInPlace(M& a) {
  spec_assume(a.mRows > 0); spec_assume(a.mCols > 0);
  inv(a);
  std::vector<F> v = a.mValues;
  rref(v, a.mRows, a.mCols);
  a.mValues = v;
}
// a square system is solved exactly when its matrix is regular
bool LA__SolveLinearSystem(V& x, const M& a, const V& b) {
  spec_assume(a.mRows > 0); spec_assume(a.mRows == a.mCols);
  inv(a);
  if (a.mRows != b.Size()) throw std::invalid_argument("dim");
  N n = a.mRows;
  std::vector<F> v;
  for (N i = 0; i < n; ++i)
    for (N j = 0; j < n + 1; ++j) v.push_back(j < n ? a.mValues[i * n + j] : b.mValues[i]);
  rref(v, n, n + 1);
  for (N i = 0; i < n; ++i) if (v[i * (n + 1) + i] != F(1)) return false;
  std::vector<F> r;
  for (N i = 0; i < n; ++i) r.push_back(v[i * (n + 1) + n]);
  x = V(r);
  return true;
}
}  // namespace spec
