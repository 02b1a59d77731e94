// DEFINE: ECPOINT_COMPRESSED
#include "p03.inc"
