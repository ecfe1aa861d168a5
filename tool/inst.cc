// Instantiates the library's templates so that their bodies are analysed in
// resolved form.  Nothing in this file is ever executed.
#include "scl.h"
#include "scl/networking.h"
#include "scl/p/simple.h"
#include "scl/net/shared_deque.h"
#include "scl/ss/packed.h"
#include "scl/ss/evpoly.h"
#include "scl/math/la.h"

using F61 = scl::FF<61>;
using F127 = scl::FF<127>;
using Z32 = scl::Z2k<32>;
using Z62 = scl::Z2k<62>;
using Z123 = scl::Z2k<123>;
using Z44 = scl::Z2k<44>;
using Z1 = scl::Z2k<1>;

template class scl::Vec<F61>;
template class scl::Mat<F61>;
template class scl::Vec<Z44>;
template class scl::Mat<Z44>;
template class scl::Vec<F127>;
template class scl::Mat<F127>;
template class scl::Vec<Z1>;
template class scl::Mat<Z1>;
template class scl::details::Polynomial<F61>;
template class scl::details::FF<61, scl::details::FieldSelector<61>::Field>;
template class scl::details::FF<127, scl::details::FieldSelector<127>::Field>;
template class scl::Z2k<32>;
template class scl::Z2k<62>;
template class scl::Z2k<123>;
template class scl::Z2k<1>;
template class scl::Z2k<8>;
template class scl::Z2k<44>;
template class scl::Z2k<64>;
template class scl::Z2k<90>;
template class scl::Z2k<128>;
template class scl::details::Hash<256>;
template class scl::details::Hash<384>;
template class scl::details::Hash<512>;
template class scl::details::SharedDeque<std::vector<unsigned char>>;

// EvPolynomial declares members without definitions, so it cannot be
// explicitly instantiated as a class: use its members.
template <typename R>
void UseRing(scl::PRG& prg, const std::string& s, unsigned char* p) {
  R a = R::Random(prg);
  R b = R::FromString(s);
  R c = R::FromString(s, scl::NumberBase::HEX);
  R d = R::Read(p);
  a += b; a -= c; a *= d; a /= b;
  (void)(a + b); (void)(a - b); (void)(a * b); (void)(a / b); (void)(-a);
  (void)(a == b); (void)(a != b);
  a.Negate(); (void)a.Negated(); a.Invert(); (void)a.Inverse(); (void)a.Equal(b);
  (void)a.ToString(); a.Write(p);
}

template <typename R>
void UseWire(scl::Channel& ch, std::size_t n) {
  scl::Vec<R> v(n);
  scl::Mat<R> m(2, 2);
  ch.Send(v); ch.Recv(v);
  ch.Send(m); ch.Recv(m);
}

void UseAll(scl::PRG& prg, const std::string& s, unsigned char* p, scl::Channel& ch) {
  UseRing<F61>(prg, s, p);
  UseRing<F127>(prg, s, p);
  UseRing<Z32>(prg, s, p);
  UseRing<Z62>(prg, s, p);
  UseRing<Z123>(prg, s, p);

  F61 x(1);
  std::size_t n = 5, t = 2;
  scl::Vec<F61> v(n), w(n);
  scl::Mat<F61> m(2, 2);
  (void)scl::Vec<F61>::Random(n, prg);

  // additive
  (void)scl::CreateAdditiveShares(x, n, prg);
  (void)scl::ReconstructAdditive(v);
  // shamir
  (void)scl::details::CreateShamirSharePolynomial(x, t, prg);
  (void)scl::CreateShamirShares(x, n, t, prg);
  (void)scl::CanonicalAlphas<F61>(n);
  (void)scl::ReconstructShamirPassive(v, w, x, t);
  (void)scl::ReconstructShamirPassive(v, t);
  (void)scl::ReconstructShamir(v, w, x, t);
  (void)scl::ReconstructShamir(v, t);
  (void)scl::ReconstructShamirRobust(v, w, t);
  (void)scl::ReconstructShamirRobust(v, t);
  // packed
  using namespace scl::details;
  (void)EvPolyFromSecretsAndPoints(v, w, prg);
  auto ep = EvPolyFromSecretsAndDegree(v, n, prg);
  (void)EvPolyFromSecretAndPointAndDegree(x, x, n, prg);
  (void)EvPolyFromSecretAndDegree(x, n, prg);
  (void)SharesFromEvPoly(ep, n);
  (void)EvPolyFromShares(v);
  (void)SecretsFromPointsAndShares(v, w);
  (void)SecretsFromSharesAndLength(v, n);
  (void)SecretFromPointAndShares(x, v);
  (void)SecretFromShares(v);
  // evpoly
  EvPolynomial<F61> e0, e1(x), e2(v, w), e3(x, v), e4(v);
  (void)e2.Evaluate(x); (void)e2.Evaluate(v); (void)e2.GetX(); (void)e2.GetY();
  (void)e2.Add(e3); (void)e2.Subtract(e3); (void)e2.IsZero(); (void)e2.Degree();
  (void)e2.GetFirstPoint(); e2[0] = x;
  const auto& ce = e2; (void)ce[0];
  // la
  (void)SolveLinearSystem(v, m, w);
  (void)CreateAugmentedMatrix(m, m);
  (void)HasSolution(m, false);
  (void)ExtractSolution(m);
  RowReduceInPlace(m);
  // channel
  ch.Send(v); ch.Recv(v);
  ch.Send(m); ch.Recv(m);
  ch.Send(x); ch.Recv(x);
  std::vector<int> iv;
  ch.Send(iv); ch.Recv(iv);
  UseWire<Z44>(ch, n);
  UseWire<F127>(ch, n);
  UseWire<Z1>(ch, n);
  unsigned u = 0; ch.Send(u); ch.Recv(u);
  // hash
  scl::Hash256 h; h.Update(p, n); (void)h.Finalize();
}

#include "alias.h"
