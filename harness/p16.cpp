#include "p16.inc"
