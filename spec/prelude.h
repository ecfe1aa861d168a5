// Reference model of the protocol layer.  Never executed: parsed by the same
// extractor as /repo and reduced to the same normal forms.
//
// spec function  C__M(C& self, args...)   specifies  tp::C::M(args...)
// spec_assume(c) restricts the comparison to states satisfying c.
#ifndef SPEC_PRELUDE_H
#define SPEC_PRELUDE_H
#include "tp/circuits.h"
#include "tp/dn07.h"

void spec_assume(bool);

namespace spec {
using tp::FF;
using tp::Vec;
using scl::details::EvPolyFromSecretAndDegree;
using scl::details::EvPolyFromSecretAndPointAndDegree;
using scl::details::EvPolyFromSecretsAndDegree;
using scl::details::SecretFromShares;
using scl::details::SecretFromPointAndShares;
using scl::details::SecretsFromSharesAndLength;
using scl::details::SharesFromEvPoly;
typedef std::size_t N;
typedef std::shared_ptr<scl::Network> Net;
typedef std::shared_ptr<tp::Gate> G;

// number of blocks of t+1 extracted sharings needed for `amount` sharings
inline N blocks(N amount, N t) { return (amount + t) / (t + 1); }
}  // namespace spec
#endif
