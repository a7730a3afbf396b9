#pragma once
#include "core.h"

struct Form { std::string surf, lex; };
// how a stream for a given tool/mode looks
enum StreamKind { SK_ANALYSIS, SK_LEX, SK_BIL, SK_POST, SK_TM, SK_MERGE, SK_UNMERGE, SK_PARADIGM, SK_SAO };

struct GenDict {
  std::string kind;                 // mono, bi, post, tmx, acx, icx, rcx
  std::vector<std::pair<std::string,bool>> lines; // xml line, fixed?
  std::vector<Form> forms;          // surface/lexical pairs (as the analyser sees them)
  std::vector<std::string> letters;
  std::vector<std::string> tags;
  int nsections = 1;
};
struct GenOpt {
  bool compounds = false, weights = false, regex = false, multiword = true, nonbmp = false, sections = true, cases = true, restrict_dir = true, big = false;
  int entries = 8;
  bool flagged = false;
};
GenOpt gen_opt(Rng& r);
GenDict gen_mono(Rng& r, const GenOpt& o);
GenDict gen_bi(Rng& r, const GenOpt& o, const GenDict* mono);
GenDict gen_post(Rng& r, const GenOpt& o);
GenDict gen_tmx(Rng& r, const GenOpt& o);
std::string gen_block(Rng& r, StreamKind k, const GenDict& d, int size, const std::vector<std::string>& flags);
std::string gen_word(Rng& r, const std::vector<std::string>& letters, int minl, int maxl);
void put_dict(Scenario& s, const std::string& fname, const GenDict& d);

// a server case: a dictionary, a tool in a mode, a kind of stream
struct ServerCase { Scenario s; GenDict d; StreamKind kind; std::vector<std::string> flags; std::string tool; };
// adds file/compile/tool lines to s; null_flush adds -z
ServerCase gen_server(Rng& r, const std::string& prop, bool null_flush, int only = -1);

// execution helpers
struct Prepared { bool ok = false; Disk disk; std::string why; };
Prepared prepare(const Scenario& s, RunCtx& c);    // runs the `compile` lines
ProcSpec tool_spec(const Scenario& s);             // from the `tool` line (+env, bufs)
std::vector<Chunk> read_chunks(const Scenario& s);
std::vector<Fault> read_faults(const Scenario& s, const char* key = "fault");
std::vector<std::string> split_nul(const Bytes& b); // frames ended by NUL + tail (always last)
