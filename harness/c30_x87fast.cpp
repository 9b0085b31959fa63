// the x87 variant that sets the precision of the type
#define FASTX87
#include "c30_x87.cpp"
