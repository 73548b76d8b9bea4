/* Wire protocol between a simulated process (shim.c) and the simulator (sim/src/world.rs). */
#ifndef SIM_PROTO_H
#define SIM_PROTO_H
#include <stdint.h>
enum {
  OP_HELLO = 1, OP_OPEN = 2, OP_READ = 3, OP_WRITE = 4, OP_POLL = 5, OP_PIPE = 6, OP_SPAWN = 7,
  OP_WAIT = 8, OP_RENAME = 9, OP_UNLINK = 10, OP_TRUNC = 11, OP_SYNC = 12, OP_SLEEP = 13,
  OP_THREAD = 14, OP_JOIN = 15, OP_BYE = 16, OP_CLOSE = 17, OP_MKDIR = 18, OP_LINK = 19,
};
enum { CLS_NONE = 0, CLS_SRC = 1, CLS_OUT = 2, CLS_PIPE = 3, CLS_STDIO = 4 };
enum { ACT_PASS = 0, ACT_ERR = 1, ACT_SHORT = 2, ACT_KILL = 3, ACT_EXIT = 4, ACT_ZERO = 5 };
#define REQ_BLOCKED 0x100u
struct sim_req {
  uint32_t op;      /* OP_*, | REQ_BLOCKED when the attempt would have blocked */
  uint32_t cls;     /* CLS_* of the descriptor */
  int32_t pid, tid;
  int64_t arg;      /* byte count, open flags, ... */
  int64_t prev_ret; /* result of the previous operation of this thread */
  int32_t prev_err;
  uint32_t pad;
  char path[216];
};
struct sim_rep { uint32_t act; int32_t err; int64_t n; };
struct sim_hello_rep { uint64_t seed; int64_t alloc_fail; int64_t clock; char conf[232]; };
#endif
