/* Only so that the repository's queue.h and tree.h find theirs without its other system headers being taken for the system's. */
#include "compat/sys/_null.h"
