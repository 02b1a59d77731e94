// DEFINE: ECPOINT_COMPRESSED
#include "p16.inc"
