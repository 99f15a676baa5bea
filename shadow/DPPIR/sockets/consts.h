// Shadows the repository's header only to shrink the buffers, so that full and partly filled
// buffers are reached within the bounds. Everything else comes from the real header.
#include_next "DPPIR/sockets/consts.h"
#ifdef SX_BUFFER_SIZE
#undef BUFFER_SIZE
#define BUFFER_SIZE SX_BUFFER_SIZE
#endif
#ifdef SX_POLL_RATE
#undef POLL_RATE
#define POLL_RATE SX_POLL_RATE
#endif
