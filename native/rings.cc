// Instances of the containers in /repo/utils under contract (P08).  Nothing of
// their code is repeated here: every function below is one call.
#include <new>
#include "indicators.h"
#include "utils/ringbuf.hh"
#include "utils/buffer.h"

#define INST(N) \
extern "C" TI_REAL ring##N##_cur(ringbuf<N> const &b) { return b; } \
extern "C" TI_REAL ring##N##_get(ringbuf<N> const &b, int i) { return b[i]; } \
extern "C" void ring##N##_step(ringbuf<N> &b) { step(b); } \
extern "C" void ring##N##_put(ringbuf<N> &b, TI_REAL x) { b = x; } \
extern "C" void ring##N##_push(ringbuf<N> &b, TI_REAL x) { step(b); b = x; } \
extern "C" TI_REAL *ring##N##_max(ringbuf<N> &b, int n) { return b.find_max(n); } \
extern "C" TI_REAL *ring##N##_min(ringbuf<N> &b, int n) { return b.find_min(n); } \
extern "C" TI_REAL *ring##N##_begin(ringbuf<N> &b) { return b.phbegin(); } \
extern "C" TI_REAL *ring##N##_end(ringbuf<N> &b) { return b.phend(); } \
extern "C" int ring##N##_age(ringbuf<N> &b, TI_REAL *p) { return b.iterator_to_age(p); }
#define FIXED(N) INST(N) \
extern "C" TI_REAL *ring##N##_at(ringbuf<N> &b, int i) { return &b[i]; } \
extern "C" void ring##N##_new(void *p) { new (p) ringbuf<N>(); }
FIXED(1)
FIXED(2)
FIXED(3)
FIXED(4)
FIXED(5)
FIXED(7)
FIXED(13)
INST(0)
extern "C" void ring0_new(void *p, int m) { new (p) ringbuf<0>(m); }
extern "C" void ring0_resize(ringbuf<0> &b, int m) { b.resize(m); }
extern "C" void ring0_free(ringbuf<0> &b) { b.~ringbuf<0>(); }

extern "C" void tibuf_push(ti_buffer *b, TI_REAL x) { ti_buffer_push(b, x); }
extern "C" void tibuf_qpush(ti_buffer *b, TI_REAL x) { ti_buffer_qpush(b, x); }
extern "C" TI_REAL tibuf_get(ti_buffer *b, int k) { return ti_buffer_get(b, k); }
extern "C" ti_buffer *tibuf_new(int n) { return ti_buffer_new(n); }
extern "C" void tibuf_free(ti_buffer *b) { ti_buffer_free(b); }
