#include "p06.inc"
