#include "p17.inc"
