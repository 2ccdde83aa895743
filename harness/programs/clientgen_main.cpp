// The client generator as a function.
#define main clientgenMain
#include "ClientGenerator.cpp"
