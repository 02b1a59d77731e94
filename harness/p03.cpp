#include "p03.inc"
