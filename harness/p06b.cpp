// DEFINE: ECPOINT_COMPRESSED
#include "p06.inc"
