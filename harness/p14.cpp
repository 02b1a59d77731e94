#include "p14.inc"
