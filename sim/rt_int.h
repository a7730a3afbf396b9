#pragma once
#include "rt.h"
struct Counters { volatile uint64_t *switches, *threads, *accesses, *syncs; };
Counters rt_counters();
[[noreturn]] void rt_die(uint8_t rec, const char* why, int code);
extern bool g_child;
void rt_fresh_shared();
void tsan_heap_new(void* p, size_t n);
void tsan_heap_free(void* p, size_t n);

struct PipeSpec {
  std::vector<ProcSpec> stages;
  Bytes input;
  std::vector<Chunk> chunks;
  int pipe_cap = 64;
  uint64_t seed = 0;
  int kill_stage = -1; uint64_t kill_at = 0;   // kill after that many scheduling events
  uint64_t max_events = 400000;
};
struct PipeResult {
  Bytes out; std::vector<ProcResult> res; bool stuck = false, killed = false; std::string blocked, trace; uint64_t events = 0, epipes = 0;
};
PipeResult rt_pipeline(const PipeSpec& ps, const Disk& disk);
