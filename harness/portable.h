/* Force-included: makes the sources take the paths of a platform which is not
 * x86, while the code still runs natively. The system headers are included
 * first, so they still see the true platform. */
#include <assert.h>
#include <endian.h>
#include <limits.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#undef i386
#undef __i386
#undef __i386__
#undef __i486__
#undef __i586
#undef __i586__
#undef __i686
#undef __i686__
#undef __x86_64
#undef __x86_64__
#undef __amd64__
#undef __amd64
#undef __ia32__
