/* compiled with the library's defines; the small part of glue.c for drv_start:
 * no function other than t1ha0 is referenced */
#include "t1ha.h"
#include "glue.h"
#if T1HA0_RUNTIME_SELECT
const int g_runtime_select = 1;
#else
const int g_runtime_select = 0;
#endif
#if T1HA0_AESNI_AVAILABLE
const int g_aes_available = 1;
#else
const int g_aes_available = 0;
#endif
#ifndef T1HA1_DISABLED
const int g_t1_present = 1;
#else
const int g_t1_present = 0;
#endif
#ifndef T1HA2_DISABLED
const int g_t2_present = 1;
#else
const int g_t2_present = 0;
#endif
g_target g_targets[G_MAX];
void g_setup(void) {}
#ifndef NO_T1HA0
uint64_t start_call(const void *p, size_t n, uint64_t s) {
  return t1ha0(p, n, s);
}
#endif
