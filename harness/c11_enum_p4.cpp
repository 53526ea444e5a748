#define PART 4
#include "c11_enum.cpp"
