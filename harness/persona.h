/* Force-included: makes the sources take the paths of another compiler, while
 * clang compiles them for this machine. The system's headers come first, so
 * they still see the true compiler and platform.
 *   PERSONA_MSC=<_MSC_VER>   Visual C++; with
 *   PERSONA_ARCH=1..4        for x64, x86, ARM64, ARM
 *   PERSONA_E2K=<__iset__>   LCC for Elbrus
 *   PERSONA_OLD              GCC of that version, .4
 *   PERSONA_NONE             neither, an unknown compiler */
#include <assert.h>
#include <endian.h>
#include <limits.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#if defined(__x86_64__) || defined(__i386__)
#include <x86intrin.h>
#endif
#undef __has_builtin
#define __has_builtin(x) 0
#undef __has_attribute
#define __has_attribute(x) 0
#undef __has_feature
#define __has_feature(x) 0
#undef __has_extension
#define __has_extension(x) 0
#undef __has_warning
#define __has_warning(x) 0
#undef __clang__
#undef __GNUC__
#undef __GNUC_MINOR__
#if defined(PERSONA_MSC)
#define _MSC_VER PERSONA_MSC
#define _MSC_FULL_VER (PERSONA_MSC * 100000 + 99999)
#define _INTEGRAL_MAX_BITS 64
#elif defined(PERSONA_E2K)
#define __iset__ PERSONA_E2K
#define __e2k__ 1
#ifdef PERSONA_LCC
#define __LCC__ PERSONA_LCC
#else
#define __LCC__ 125
#endif
#define __LCC_MINOR__ 9
#define __GNUC__ 7
#define __GNUC_MINOR__ 3
#elif defined(PERSONA_OLD)
#define __GNUC__ PERSONA_OLD
#define __GNUC_MINOR__ 4
#endif
#if defined(PERSONA_NO128) || defined(PERSONA_MSC)
#undef __SIZEOF_INT128__
#endif
#if !defined(PERSONA_ARCH) || PERSONA_ARCH > 2
#undef i386
#undef __i386
#undef __i386__
#undef __i486__
#undef __i586
#undef __i586__
#undef __i686
#undef __i686__
#undef __x86_64
#undef __x86_64__
#undef __amd64__
#undef __amd64
#undef __ia32__
#endif
#if PERSONA_ARCH == 1
#define _M_X64 100
#define _M_AMD64 100
#elif PERSONA_ARCH == 2
#define _M_IX86 600
#elif PERSONA_ARCH == 3
#define _M_ARM64 1
#elif PERSONA_ARCH == 4
#define _M_ARM 7
#endif
#undef __BYTE_ORDER__
#undef __ORDER_LITTLE_ENDIAN__
#undef __ORDER_BIG_ENDIAN__
#undef __LITTLE_ENDIAN__
#undef __ELF__
