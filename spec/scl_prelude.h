// Reference model of the library.  Never executed (see prelude.h).
#ifndef SPEC_SCL_PRELUDE_H
#define SPEC_SCL_PRELUDE_H
#include "scl.h"
#include "scl/networking.h"
#include "scl/ss/packed.h"
#include "scl/ss/evpoly.h"
#include "scl/math/la.h"

void spec_assume(bool);

namespace spec {
typedef scl::FF<61> F;
typedef scl::Vec<F> V;
typedef scl::Mat<F> M;
typedef scl::details::EvPolynomial<F> EvP;
typedef scl::details::Polynomial<F> Poly;
typedef std::size_t N;
}  // namespace spec
#endif
