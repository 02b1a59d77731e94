// UNDEF: ENABLE_X25519_ACCELERATION
#define P14B
#include "p14.inc"
