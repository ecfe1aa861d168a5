// Secret sharing: packed sharing in evaluation form, Shamir, additive.
#include "scl_prelude.h"
#if __has_include(<tpx_names.h>)
#include <tpx_names.h>  // members /repo has renamed (sa/program.py)
#endif
namespace spec {

// ---------------------------------------------------------------- packed sharing
// the first points carry the secrets, all further points fresh random values
EvP PK__EvPolyFromSecretsAndPoints(const V& secrets, const V& points, scl::PRG& prg) {
  if (points.Size() < secrets.Size()) throw std::invalid_argument("too many secrets");
  std::vector<F> y;
  for (N i = 0; i < points.Size(); ++i) y.push_back(i < secrets.Size() ? secrets[i] : F::Random(prg));
  return EvP(points, V(y));
}
// secret i sits at point -i, random values at 1, 2, ...
EvP PK__EvPolyFromSecretsAndDegree(const V& secrets, N degree, scl::PRG& prg) {
  if (degree + 1 < secrets.Size()) throw std::invalid_argument("degree");
  std::vector<F> x;
  for (N i = 0; i < degree + 1; ++i) x.push_back(i < secrets.Size() ? F(0) - F(i) : F(i + 1 - secrets.Size()));
  return PK__EvPolyFromSecretsAndPoints(secrets, V(x), prg);
}
EvP PK__EvPolyFromSecretAndPointAndDegree(const F& secret, const F& point, N degree, scl::PRG& prg) {
  std::vector<F> x, y;
  for (N i = 0; i < degree + 1; ++i) {
    x.push_back(i == 0 ? point : F(i));
    y.push_back(i == 0 ? secret : F::Random(prg));
  }
  return EvP(V(x), V(y));
}
EvP PK__EvPolyFromSecretAndDegree(const F& secret, N degree, scl::PRG& prg) {
  return PK__EvPolyFromSecretAndPointAndDegree(secret, F(0), degree, prg);
}
// the unique interpolation through all points
F lagrange(const V& x, const V& y, N off, N k, const F& at) {
  F z(0);
  for (N j = 0; j < k; ++j) {
    F l(1);
    for (N m = 0; m < k; ++m) if (m != j) l = l * ((at - x[off + m]) / (x[off + j] - x[off + m]));
    z = z + y[off + j] * l;
  }
  return z;
}
F EVP__Evaluate__F(const EvP& self, const F& at) {
  spec_assume(self.mX.Size() == self.mY.Size()); spec_assume(self.mX.Size() > 0); return lagrange(self.mX, self.mY, 0, self.mY.Size(), at); }
V EVP__Evaluate__V(const EvP& self, const V& at) {
  spec_assume(self.mX.Size() == self.mY.Size()); spec_assume(self.mX.Size() > 0);
  std::vector<F> r;
  for (N i = 0; i < at.Size(); ++i) r.push_back(EVP__Evaluate__F(self, at[i]));
  return V(r);
}
// share i is the value at point i + 1
V PK__SharesFromEvPoly(const EvP& p, N n) {
  spec_assume(p.mX.Size() == p.mY.Size()); spec_assume(p.mX.Size() > 0);
  std::vector<F> r;
  for (N i = 0; i < n; ++i) r.push_back(EVP__Evaluate__F(p, F(i + 1)));
  return V(r);
}
EvP PK__EvPolyFromShares(const V& shares) {
  std::vector<F> x;
  for (N i = 0; i < shares.Size(); ++i) x.push_back(F(i + 1));
  return EvP(V(x), shares);
}
V PK__SecretsFromPointsAndShares(const V& at, const V& shares) {
  EvP p = PK__EvPolyFromShares(shares);
  return EVP__Evaluate__V(p, at);
}
V PK__SecretsFromSharesAndLength(const V& shares, N length) {
  EvP p = PK__EvPolyFromShares(shares);
  std::vector<F> r;
  for (N i = 0; i < length; ++i) r.push_back(EVP__Evaluate__F(p, F(0) - F(i)));
  return V(r);
}
F PK__SecretFromPointAndShares(const F& at, const V& shares) {
  EvP p = PK__EvPolyFromShares(shares);
  return EVP__Evaluate__F(p, at);
}
F PK__SecretFromShares(const V& shares) { return PK__SecretFromPointAndShares(F(0), shares); }

// ---------------------------------------------------------------- evaluation form
void EVP__ctor__0(EvP& self) {
  self.mX = V(std::vector<F>(1, F(0)));
  self.mY = V(std::vector<F>(1, F(0)));
}
void EVP__ctor__c(EvP& self, const F& c) {
  self.mX = V(std::vector<F>(1, F(0)));
  self.mY = V(std::vector<F>(1, c));
}
void EVP__ctor__xy(EvP& self, const V& x, const V& y) {
  if (x.Size() != y.Size() || y.Size() == 0) throw std::invalid_argument("points");
  self.mX = x;
  self.mY = y;
}
void EVP__ctor__sy(EvP& self, const F& s, const V& y) {
  if (y.Size() == 0) throw std::invalid_argument("points");
  std::vector<F> x;
  for (N i = 0; i < y.Size(); ++i) x.push_back(s + F(i));
  self.mX = V(x);
  self.mY = y;
}
void EVP__ctor__y(EvP& self, const V& y) {
  if (y.Size() == 0) throw std::invalid_argument("points");
  std::vector<F> x;
  for (N i = 0; i < y.Size(); ++i) x.push_back(F(i));
  self.mX = V(x);
  self.mY = y;
}
V EVP__GetX(const EvP& self) {
  spec_assume(self.mX.Size() == self.mY.Size()); spec_assume(self.mX.Size() > 0); return self.mX; }
V EVP__GetY(const EvP& self) {
  spec_assume(self.mX.Size() == self.mY.Size()); spec_assume(self.mX.Size() > 0); return self.mY; }
N EVP__Degree(const EvP& self) {
  spec_assume(self.mX.Size() == self.mY.Size()); spec_assume(self.mX.Size() > 0); return self.mY.Size() - 1; }
F EVP__GetFirstPoint(const EvP& self) {
  spec_assume(self.mX.Size() == self.mY.Size()); spec_assume(self.mX.Size() > 0); return self.mX[0]; }
bool EVP__IsZero(const EvP& self) {
  spec_assume(self.mX.Size() == self.mY.Size()); spec_assume(self.mX.Size() > 0); return self.mY.Size() == 1 && self.mY[0] == F(0); }
bool samepoints(const EvP& a, const EvP& b) {
  if (a.mX.Size() != b.mX.Size()) return false;
  for (N i = 0; i < a.mX.Size(); ++i) if (a.mX[i] != b.mX[i]) return false;
  return true;
}
EvP EVP__Add(const EvP& self, const EvP& q) {
  spec_assume(self.mX.Size() == self.mY.Size()); spec_assume(q.mX.Size() == q.mY.Size()); spec_assume(self.mX.Size() > 0);
  if (!samepoints(self, q)) throw std::invalid_argument("points");
  std::vector<F> y;
  for (N i = 0; i < self.mY.Size(); ++i) y.push_back(self.mY[i] + q.mY[i]);
  return EvP(self.mX, V(y));
}
EvP EVP__Subtract(const EvP& self, const EvP& q) {
  spec_assume(self.mX.Size() == self.mY.Size()); spec_assume(q.mX.Size() == q.mY.Size()); spec_assume(self.mX.Size() > 0);
  if (!samepoints(self, q)) throw std::invalid_argument("points");
  std::vector<F> y;
  for (N i = 0; i < self.mY.Size(); ++i) y.push_back(self.mY[i] - q.mY[i]);
  return EvP(self.mX, V(y));
}

// ---------------------------------------------------------------- Shamir
Poly SH__CreateShamirSharePolynomial(const F& secret, N t, scl::PRG& prg) {
  if (t == 0) throw std::invalid_argument("t");
  std::vector<F> c;
  for (N i = 0; i < t + 1; ++i) c.push_back(i == 0 ? secret : F::Random(prg));
  return Poly::Create(V(c));
}
V SCL__CreateShamirShares__p(const Poly& p, const V& alphas) {
  std::vector<F> r;
  for (N i = 0; i < alphas.Size(); ++i) r.push_back(p.Evaluate(alphas[i]));
  return V(r);
}
V SCL__CanonicalAlphas(N n) {
  std::vector<F> r;
  for (N i = 0; i < n; ++i) r.push_back(F((int)(i + 1)));
  return V(r);
}
V SCL__CreateShamirShares__s(const F& secret, N n, N t, scl::PRG& prg) {
  if (t == 0) throw std::invalid_argument("t");
  std::vector<F> c, r;
  for (N i = 0; i < t + 1; ++i) c.push_back(i == 0 ? secret : F::Random(prg));
  Poly p = Poly::Create(V(c));
  for (N i = 0; i < n; ++i) r.push_back(p.Evaluate(F((int)(i + 1))));
  return V(r);
}
F SH__InterpolateAt(const V& y, const V& x, N k, const F& at, N off) { return lagrange(x, y, off, k, at); }
F SCL__ReconstructShamirPassive__4(const V& shares, const V& alphas, const F& pos, N t) {
  if (shares.Size() <= t || alphas.Size() <= t) throw std::invalid_argument("few");
  return lagrange(alphas, shares, 0, t + 1, pos);
}
F SCL__ReconstructShamirPassive__2(const V& shares, N t) {
  if (shares.Size() <= t) throw std::invalid_argument("few");
  return lagrange(SCL__CanonicalAlphas(shares.Size()), shares, 0, t + 1, F(0));
}
F SCL__ReconstructShamir__4(const V& shares, const V& alphas, const F& pos, N t) {
  if (shares.Size() < 2 * t + 1 || alphas.Size() < 2 * t + 1) throw std::invalid_argument("few");
  // the t shares after the first t+1 must lie on the polynomial through those
  for (N j = t + 1; j < 2 * t + 1; ++j)
    if (shares[j] != lagrange(alphas, shares, 0, t + 1, alphas[j])) throw std::logic_error("error");
  return lagrange(alphas, shares, 0, t + 1, pos);
}
F SCL__ReconstructShamir__2(const V& shares, N t) {
  V alphas = SCL__CanonicalAlphas(shares.Size());
  return SCL__ReconstructShamir__4(shares, alphas, F(0), t);
}

// ---------------------------------------------------------------- additive
V SCL__CreateAdditiveShares(const F& secret, N n, scl::PRG& prg) {
  if (n == 0) throw std::invalid_argument("n");
  std::vector<F> s;
  F first = secret;
  for (N i = 0; i < n; ++i) s.push_back(i == 0 ? F(0) : F::Random(prg));
  for (N i = 1; i < n; ++i) first = first - s[i];
  s[0] = first;
  return V(s);
}
F SCL__ReconstructAdditive(const V& shares) {
  F r(0);
  for (N i = 0; i < shares.Size(); ++i) r = r + shares[i];
  return r;
}
}  // namespace spec
