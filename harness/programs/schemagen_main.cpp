// The service generator as a function.
#define main schemagenMain
#include "SchemaGenerator.cpp"
