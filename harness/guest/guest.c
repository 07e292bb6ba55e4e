/* Runs inside of the interpreted machine (drv_mips.c): one entry with a
 * mailbox, so that only this structure has to be known on both sides. */
#include "../glue.h"
#include <string.h>
typedef struct {
  uint64_t op, id, data, len, seed, seed2, ctx, hi, result, aux;
} box;
#define P(x) ((void *)(uintptr_t)(x))
static const union {
  uint32_t w;
  uint8_t b[4];
} order = {1};
void guest_main(box *b) {
  switch (b->op) {
  case 0:
    b->result = g_call(b->id, P(b->data), b->len, b->seed, b->seed2,
                       P(b->hi));
    break;
  case 1:
    g_init(P(b->ctx), b->seed, b->seed2);
    break;
  case 2:
    g_update(P(b->ctx), P(b->data), b->len);
    break;
  case 3:
    b->result = g_final(P(b->ctx), P(b->hi));
    break;
  case 4: {
    int rc = 0;
    b->aux = g_selfcheck("all_enabled", &rc);
    b->result = rc;
    break;
  }
  case 5: {
    uint64_t m = 0;
    g_setup();
    for (int i = 0; i < G_MAX; i++)
      m |= (uint64_t)g_targets[i].present << i;
    b->result = m;
    b->aux = sizeof(void *) | order.b[3] << 8;
    b->len = g_ctx_size;
    b->seed = g_ctx_align;
    break;
  }
  default:
    __builtin_trap();
  }
}
