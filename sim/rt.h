// Simulation runtime: the seam between the lttoolbox tools and the world.
// One simulated process = one forked child of the harness in which stdin,
// stdout, stderr, every file, operator new and (in the thread build) every
// thread is owned by the simulator.  Everything the child does to the world is
// appended to a shared-memory log; the log *is* the recorded history.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <set>

using Bytes = std::string;
using Disk = std::map<std::string, Bytes>;

// ---- what happens in one simulated process --------------------------------
struct Chunk {            // one delivery on stdin
  uint64_t n = 0;         // bytes
  int after_replies = -1; // client sends it only after this many NULs came back (-1: unconditional)
};

enum FaultOp : int { F_OPEN = 'o', F_READ = 'r', F_WRITE = 'w', F_CLOSE = 'c', F_CRASH = 'x', F_NEW = 'n', F_SEEK = 's' };

struct Fault {
  std::string file;       // "<in>", "<out>", "<err>" or a disk file
  int op = F_READ;
  uint64_t pos = 0;       // byte position in that stream (ordinal for new)
  int err = 5;            // errno
  bool sticky = true;     // keeps failing afterwards
};

struct SchedSpec {        // thread build only
  bool on = false;
  uint64_t seed = 0;      // chooses at switch points when `switches` is exhausted/not explicit
  bool explicit_sw = false;
  std::vector<std::pair<uint64_t,int>> switches; // (step, thread) explicit preemptions
  uint64_t period = 200;  // mean accesses between preemptions (seeded)
  int strategy = 0;       // 0 random walk, 1 pct-like priorities, 2 run-to-completion in seeded order
  bool race_check = true;
  int fail_create = -1;   // the k-th thread creation fails with EAGAIN
};

struct ProcSpec {
  std::string tool;                // key of registered main, or "api:<name>"
  std::vector<std::string> args;
  std::vector<std::pair<std::string,std::string>> env;
  Bytes input;
  std::vector<Chunk> chunks;       // empty: everything at once
  std::vector<int> file_read_sizes;// cycle of short-read sizes for disk files; empty: as asked
  int ibuf = 4096, obuf = 4096;    // stdio buffer sizes of stdin/stdout
  std::vector<Fault> faults;
  uint64_t step_budget = 60000000; // basic-block budget: a run above it does not terminate
  uint64_t out_budget = 16u << 20;
  // allocator
  int alloc_mode = 0;              // 0 plain, 1 junk fill + seeded slot order
  uint64_t alloc_seed = 0;
  bool mem_probe = false;          // record live heap at every stdin wait
  SchedSpec sched;
  // for api workloads
  std::vector<std::string> api_args;
};

enum RecType : uint8_t {
  R_OUT = 1, R_ERR, R_OPENR, R_OPENW, R_FWRITE, R_CLOSE, R_RENAME, R_UNLINK,
  R_SREAD,   // a: bytes requested  b: bytes returned (stdin)
  R_SEOF,    // stdin read returned EOF
  R_FAULT, R_HANG, R_DEADLOCK, R_RUNAWAY, R_MEM, R_NOTE, R_RACE, R_MISUSE, R_CRASH, R_API
};

struct Rec { uint8_t type; uint32_t a, b; Bytes data; };

struct ProcResult {
  bool exited = false; int code = 0; int sig = 0;
  bool hang = false, deadlock = false, runaway = false, crashed = false, race = false, misuse = false;
  bool infra = false;              // our own limits (log full, cpu limit): no verdict
  Bytes out, err;
  Disk disk;                       // disk afterwards
  std::set<std::string> opened_w;  // files opened for writing
  std::map<std::string, Bytes> partial_at_crash;
  std::vector<Rec> log;
  std::map<std::string,int> fired; // fault kinds that actually fired
  std::vector<uint64_t> mem;       // live bytes at each probe
  std::vector<Bytes> notes, api;
  std::string race_text;
  uint64_t steps = 0, allocs = 0, switches = 0, threads = 0, accesses = 0, syncs = 0;
  uint64_t loghash = 0, covhash = 0;
  std::string status() const;
  bool ok() const { return exited && code == 0; }
};

// harness side
void rt_init();                                        // once, before any fork
void rt_register_tool(const std::string& name, int (*mainfn)(int, char**));
bool rt_has_tool(const std::string& name);
ProcResult rt_run(const ProcSpec& spec, const Disk& disk);
extern int (*rt_api_hook)(const ProcSpec&);            // runs inside the child for "api:" tools
uint64_t rt_cov_edges_total();
const std::vector<uint8_t>& rt_cov_accum();            // edges ever hit by this worker
void rt_cov_absorb(const uint8_t* p, size_t n);

// child side (callable from api workloads)
void rt_note(const std::string& s);                    // history record
void rt_api_result(const std::string& s);
uint64_t rt_live_bytes();
bool rt_in_child();
extern "C" void rt_log(uint8_t type, uint32_t a, uint32_t b, const void* data, size_t n);
FILE* rt_sim_fopen(const char* path, const char* mode);
// thread build
void sched_child_begin(const SchedSpec& s);
void sched_child_end();
bool sched_active();
