#pragma once
#include "rt.h"
#include "rt_int.h"
#include <functional>
#include <algorithm>
#include <cstring>
#include <csignal>

// ---- deterministic randomness ----------------------------------------------
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) { next(); }
  uint64_t next() { uint64_t z=(s+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
  bool chance(int num, int den) { return below(den) < (uint64_t)num; }
  template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  Rng fork() { return Rng(next()); }
};
uint64_t hash_str(const std::string& s, uint64_t h = 0xcbf29ce484222325ull);
uint64_t mix(uint64_t a, uint64_t b);

// ---- scenario: a fully explicit, replayable description of one simulated run --
struct Line {
  std::string key;
  std::vector<std::string> t;
  bool fixed = false;         // the minimiser may not drop it
  long num(size_t i, long d = 0) const { return i < t.size() ? atol(t[i].c_str()) : d; }
  const std::string& str(size_t i) const { static const std::string e; return i < t.size() ? t[i] : e; }
};
struct Scenario {
  std::string prop;
  std::vector<Line> l;
  void add(const std::string& k, std::vector<std::string> t, bool fixed = false) { l.push_back({k, std::move(t), fixed}); }
  std::vector<const Line*> all(const std::string& k) const { std::vector<const Line*> r; for (auto& x : l) if (x.key == k) r.push_back(&x); return r; }
  const Line* one(const std::string& k) const { for (auto& x : l) if (x.key == k) return &x; return nullptr; }
  long num(const std::string& k, long d) const { auto* x = one(k); return x ? x->num(0, d) : d; }
  std::string str(const std::string& k, const std::string& d = "") const { auto* x = one(k); return x ? x->str(0) : d; }
  std::string text() const;
  static bool parse(const std::string& text, Scenario& out);
};
std::string esc(const std::string& s);
std::string unesc(const std::string& s);
std::string show(const Bytes& b, size_t max = 300);   // printable form
std::string S(long n);

// ---- verdicts ---------------------------------------------------------------
struct Stats {
  uint64_t procs = 0, steps = 0, blocks = 0, bytes_in = 0, bytes_out = 0, events = 0;
  std::map<std::string, uint64_t> fired;     // fault kind -> times it actually fired
  std::map<std::string, uint64_t> probes;    // rare condition -> times hit
  void merge(const Stats& o);
};
struct Verdict {
  bool violation = false; bool infra = false; bool vacuous = false;
  std::string cls;      // violation class: what kind of thing broke (stable under minimisation)
  std::string detail;
  uint64_t hist = 0;    // hash of all recorded histories of the run
  uint64_t sig = 0;     // state/interleaving signature
  std::vector<std::pair<std::string,std::string>> sw; // the schedule that was run, as explicit (step, thread) switches
};
struct RunCtx {          // executes simulated processes and accumulates the history
  Stats st; uint64_t hist = 0xcbf29ce484222325ull, sig = 0; bool infra = false; std::string infra_why;
  ProcResult run(const ProcSpec& s, const Disk& d);
  PipeResult pipe(const PipeSpec& s, const Disk& d);
  void fire(const ProcResult& r);
};
struct Property {
  std::string id;
  std::string title;
  std::function<Scenario(Rng&, bool thorough)> gen;
  std::function<Verdict(const Scenario&, RunCtx&)> run;
  uint64_t quick_runs = 1000, thorough_runs = 50000;
  std::string rule;                         // evidence text: how cases are made, what is non-trivial
  std::vector<std::string> real, stub, assumptions;
  std::string level = "exploration";
};
std::vector<Property>& registry();
struct Reg { Reg(Property p) { registry().push_back(std::move(p)); } };

inline Verdict viol(const std::string& cls, const std::string& detail) { Verdict v; v.violation = true; v.cls = cls; v.detail = detail; return v; }
