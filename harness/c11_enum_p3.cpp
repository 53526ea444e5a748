#define PART 3
#include "c11_enum.cpp"
