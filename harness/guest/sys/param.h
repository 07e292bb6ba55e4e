#include <endian.h>
#include <limits.h>
