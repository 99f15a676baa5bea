// Environment model: sockets between simulated processes, random sources, sealed boxes, clocks.
#ifndef VERIF_ENV_H_
#define VERIF_ENV_H_
#include "sx.h"

#define ENV_MAXPROC 20
#define ENV_MAXCONN 40
#define ENV_MAXLIST 24
#define ENV_MAXFD 40
#define ENV_LOGCAP 16384
#define ENV_MAXSTREAM 8
#define ENV_STREAMLEN 96
#define ENV_MAXDRAW 2048
#define ENV_MAXEV 8192
#define ENV_FD0 3
#define ENV_MAXRL 4096

struct Dir {            // one direction of a connection: everything ever written is kept
  uint32_t wlen, rpos;  // bytes written / bytes consumed
  uint32_t vis;         // bytes the reader may see (delivery model)
  int cut;              // >= 0: after that many bytes the reader sees end-of-stream / an error
  int cut_err;          // 0: end-of-stream, 1: read error
  int closed;           // writer is gone
  uint8_t* data;
};
struct Conn {
  int pid[2];  // 0: connecting side, 1: accepting side
  int port;
  int accepted;
  Dir d[2];  // d[0]: written by the connecting side, d[1]: by the accepting side
};
struct Listener { int pid; uint32_t ip; int port; int open; };
struct FdEnt { int kind; int conn; int side; int lst; int failing; };  // 0 free, 1 fresh socket, 2 bound, 3 listener, 4 connection
struct Event { int pid; int kind; int conn; int side; uint32_t off, len; };  // kind 1 send, 2 recv
struct Stream { uint32_t seed; int n; int sym; uint32_t v[ENV_STREAMLEN]; };
struct Draw { int pid; uint32_t bound; uint32_t val; };

struct FileEnt { char name[64]; uint8_t* data; uint32_t len, cap; };
struct RandRec { int pid; int v; };
struct World {
  int nproc, ndone;
  int done[ENV_MAXPROC], blocked[ENV_MAXPROC];
  uint32_t ip[ENV_MAXPROC];
  int nconn, nlist, nev, maxev, ndraw, nstream, ncb;
  Conn conn[ENV_MAXCONN];
  Listener lst[ENV_MAXLIST];
  FdEnt fd[ENV_MAXPROC][ENV_MAXFD];
  Stream* stream[ENV_MAXSTREAM];
  Draw* draw;
  Event* ev;
  // budgets for symbolic scheduling / fragmentation choices
  int frag_reads, frag_writes, poll_choices, accept_choices, sched_choices;
  // deviations from the default schedule: at any point, at most dev in total; kinds: 1 short reads,
  // 2 short writes, 4 a sibling's data is not seen yet by poll, 8 another process goes first, 16 order of accepts,
  // 32 a connection ends for its reader, 64 a send fails
  int dev, dev_kinds;
  int dev_sizes;       // short reads and writes of every size, not only telling ones
  int max_read, max_write;  // > 0: no read / write moves more
  int run_ahead;       // others run until they block before a reader looks at its input
  int keys;            // key pairs made
  int eof_reads;
  int sleeps;
  int rand_default;    // what rand() yields for streams that are not symbolic: 0 zero, 1 mixed, 2 max
  int track_events;
  int cut_conn, cut_dir, cut_at, cut_err;  // this direction of this connection ends after cut_at bytes
  int broken, broken_pid;  // a connection ended early or a send failed; who noticed (0: nobody yet)
  int rand_log;        // record rand() values
  int nrl, maxrl;
  uint32_t logcap, maxdraw;
  int nfile;
  FileEnt file[8];
  RandRec* rl;
};
extern World* W;
void env_init();
const uint8_t* env_file_get(const char* name, uint32_t* len);  // null: no such file
void env_file_put(const char* name, const void* data, uint32_t len);
void env_big_events(uint32_t n);
void env_big_rand(uint32_t n);
void env_big(uint32_t bytes, uint32_t draws);  // room for long runs
void env_set_ip(const char* ip);      // address of the calling process
void env_spawn(void (*fn)(void*), void* arg);
void env_finish();                     // end of a spawned process: never returns
void env_join();                       // wait until every spawned process finished
void env_yield_all();                  // let the others run until they block
void env_wake();                       // something changed that others may wait for
void env_symbolic_seed(uint32_t seed); // rand() values after srand(seed) are symbolic
void env_close_all();                  // close all connections of the calling process

// Hooks a harness may set before spawning.
extern uint32_t (*env_uniform_cb)(uint32_t bound);
extern int (*env_rand_cb)(void);
extern int (*env_unseeded_cb)(int i);  // i-th rand() of a process that never called srand()
extern void (*env_randbuf_cb)(uint8_t* buf, size_t n);

// direct connection between this harness process and code under test
int env_socketpair(int other_pid, int* my_fd, int* other_fd);
#endif
