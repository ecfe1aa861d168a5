// Reference model at the level of machine words.  Never executed.
#ifndef SPEC_BITS_PRELUDE_H
#define SPEC_BITS_PRELUDE_H
#include "scl_prelude.h"
#include "scl/hash.h"
#include "scl/prg.h"
typedef std::uint64_t u64;
typedef __uint128_t u128;
typedef unsigned char u8;
u128 spec_mulmod(u128 a, u128 b, u128 m);   // a * b mod m over the integers
u128 spec_modinv(u128 a, u128 m);           // inverse of a mod m
u128 spec_inv2k(u128 a, unsigned k);       // inverse of a mod 2^k
#endif
