#define NFA
#include "C15.cc"
