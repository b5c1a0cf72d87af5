#define P09 1
#include "p08_component.cpp"
