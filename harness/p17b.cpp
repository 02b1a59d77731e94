// DEFINE: ECPOINT_COMPRESSED
#include "p17.inc"
