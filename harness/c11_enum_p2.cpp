#define PART 2
#include "c11_enum.cpp"
