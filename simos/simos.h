/* Layout of the memory shared between the simulator and a simulated process. */
#ifndef SIMOS_H
#define SIMOS_H
#include <stdint.h>

#define SIM_MAGIC 0x53494d4f53303156ull
#define MAX_OPS 2048
#define MAX_FILES 8
#define MAX_FOPS 128
#define MAX_TRACE 32768
#define STDIN_CAP (1u << 20)
#define STDOUT_CAP (8u << 20)
#define STDERR_CAP (1u << 18)

/* operation kinds */
enum { OP_XFER = 0 /* transfer at most arg bytes */, OP_ERR = 1 /* fail once with errno arg */, OP_ZERO = 2 /* return 0 */ , OP_CRASH = 3 /* die before the call */, OP_CRASH_AFTER = 4 /* transfer at most arg bytes, then die */ };

struct op { uint32_t kind, arg; };

struct stream {
  uint32_t n_ops;        /* scripted operations */
  uint32_t pos;          /* how many were consumed */
  uint32_t chunk;        /* afterwards: at most this many bytes per call (0: no limit) */
  uint32_t fail_errno;   /* sticky error once fail_at bytes were transferred (0: none) */
  uint64_t fail_at;
  uint64_t moved;        /* bytes transferred */
  uint32_t calls, faults;
  uint32_t open_errno;   /* files only */
  uint32_t opened;
};

struct trace { uint8_t what; uint8_t stream; uint16_t err; uint32_t req; int64_t res; };

struct sim {
  uint64_t magic;
  uint64_t rand_seed;
  uint64_t clock_ns, clock_step;
  uint64_t heap_shift;
  uint64_t alloc_fail_at;    /* 0: never; n: the n-th allocation after start fails */
  uint64_t alloc_fail_size;  /* only allocations of at least this size count */
  uint64_t alloc_budget;     /* number of allocations before the run is stopped */
  uint64_t bytes_budget;     /* allocated bytes before the run is stopped */
  uint64_t call_budget;      /* simulated calls before the run is stopped */
  uint64_t crash_call;       /* 0: never; n: die before the n-th simulated call */
  uint64_t cpu_seconds;
  uint64_t pid;
  char prefix[256];          /* scratch directory of the simulated files */
  /* results */
  uint64_t started, finished;
  uint64_t allocs, alloc_bytes, calls, rand_calls, clock_calls, alloc_failed;
  uint64_t over_budget, crashed, write_opens, other_mutations, n_files;
  uint64_t n_trace, trace_lost;
  uint64_t stdin_len, stdout_len, stderr_len;
  struct stream s_in, s_out, s_err, s_file[MAX_FILES];
  struct op o_in[MAX_OPS], o_out[MAX_OPS], o_err[MAX_OPS], o_file[MAX_FILES][MAX_FOPS];
  char mutated[256];
  struct trace tr[MAX_TRACE];
  uint8_t stdin_data[STDIN_CAP];
  uint8_t stdout_data[STDOUT_CAP];
  uint8_t stderr_data[STDERR_CAP];
};
#endif
