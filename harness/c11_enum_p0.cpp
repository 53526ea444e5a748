#define PART 0
#include "c11_enum.cpp"
