#include "crypto/setup.hpp"
#include "pke/exponential_elgamal.hpp"
#include "pke/twisted_exponential_elgamal.hpp"
#include "pke/elgamal.hpp"
#include "h.hpp"
static BigInt Qb(){ return BigInt(order); }
static BigInt rs(){ return GenRandomBigIntLessThan(order); }
static std::vector<BigInt> edge_scalars(){ return {BigInt(bn_1),BigInt(bn_2),Qb()-BigInt(bn_1),Qb()-BigInt(bn_2),rs(),rs()}; }
