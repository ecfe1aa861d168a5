// Error-correcting reconstruction: Berlekamp-Welch decoding.
#include "scl_prelude.h"
#include "scl/ss/shamir.h"
#if __has_include(<tpx_names.h>)
#include <tpx_names.h>  // members /repo has renamed (sa/program.py)
#endif
namespace spec {
typedef scl::Vec<F> V;
typedef scl::Mat<F> M;

// n = 3t+1 points: a locator E, monic of degree e, and Q of degree < n - e with
// Q(x_i) = y_i E(x_i); the largest e <= t for which they are determined
std::array<Poly, 2> SCL__ReconstructShamirRobust__3(const V& shares, const V& alphas, N t) {
  N n = 3 * t + 1;
  if (shares.Size() < n || alphas.Size() < n) throw std::invalid_argument("few");
  V x(n);
  N e = t;
  for (N k = 0; k < t + 1; ++k) {
    e = t - k;
    std::vector<F> a, b;
    for (N i = 0; i < n; ++i) {
      F y = shares[i];
      for (N j = 0; j < n; ++j) {
        F p(1);
        for (N m = 0; m < (j < e ? j : j - e); ++m) p = p * alphas[i];
        a.push_back(j < e ? y * p : F(0) - p);
      }
      F q(1);
      for (N m = 0; m < e; ++m) q = q * alphas[i];
      b.push_back(F(0) - y * q);
    }
    M am(n);
    am.mValues = a;
    V bv(b);
    if (scl::details::SolveLinearSystem(x, am, bv)) break;
  }
  std::vector<F> ce, cq;
  for (N i = 0; i < e + 1; ++i) ce.push_back(i < e ? x[i] : F(1));
  for (N i = e; i < n; ++i) cq.push_back(x[i]);
  Poly E = Poly::Create(V(ce));
  Poly Q = Poly::Create(V(cq));
  std::array<Poly, 2> qr = Q.Divide(E);
  if (!qr[1].IsZero()) throw std::logic_error("errors");
  return {qr[0], E};
}
F SCL__ReconstructShamirRobust__2(const V& shares, N t) {
  std::vector<F> at;
  for (N i = 0; i < shares.Size(); ++i) at.push_back(F((int)(i + 1)));
  return SCL__ReconstructShamirRobust__3(shares, V(at), t)[0].Evaluate(F(0));
}
}  // namespace spec
