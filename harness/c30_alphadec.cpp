// Alpha with the vendor compiler: read_rnd and write_rnd
#define DECCXX
#include "c30_alpha.cpp"
