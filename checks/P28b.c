#define HOOKED
#include "P09.c"
