#define PART 5
#include "c11_enum.cpp"
