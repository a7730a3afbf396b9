// Library workload with several threads, each owning its own processor objects.
#include "rt.h"
#include <lttoolbox/fst_processor.h>
#include <lttoolbox/file_utils.h>
#include <lttoolbox/input_file.h>
#include <lttoolbox/ustring.h>
#include <lttoolbox/transducer.h>
#include <sstream>
#include <thread>
#include <cstdio>
#include <cstdlib>
#include <unicode/ustdio.h>

std::string api_one_op(FSTProcessor& f, const std::string& op, const std::string& word);
void api_set_flags(FSTProcessor& f, const std::string& fl);
struct Job { std::string file, mode, flags; std::vector<std::string> items; std::vector<std::string> res; };

static void work(Job& j)
{
  try {
    if (j.mode == "min" || j.mode == "ser") { // transducer work: load, minimise or pass through serialisation, store
      Alphabet al; std::set<UChar32> letters; std::map<UString, Transducer> tr;
      FILE* in = fopen(j.file.c_str(), "rb"); if (!in) { j.res.push_back("no file"); return; } readTransducerSet(in, letters, al, tr); fclose(in);
      for (auto& it : tr) { if (j.mode == "min") { Transducer u = it.second; u.unionWith(al, it.second); u.minimize(); it.second = u; } else { std::stringstream ss; it.second.serialise(ss); Transducer t; t.deserialise(ss); it.second = t; } }
      FILE* out = fopen(j.items[0].c_str(), "wb"); if (!out) { j.res.push_back("no output"); return; } writeTransducerSet(out, letters, al, tr); j.res.push_back(fclose(out) ? "close error" : "stored"); return;
    }
    FSTProcessor f; 
    if (j.mode != "merge" && j.mode != "unmerge") { FILE* in = fopen(j.file.c_str(), "rb"); if (!in) { j.res.push_back("no file"); return; } f.load(in); fclose(in); }
    api_set_flags(f, j.flags);
    if (j.mode == "ana") f.initAnalysis(); else if (j.mode == "dec") f.initDecomposition(); else if (j.mode == "gen") f.initGeneration(); else if (j.mode == "bil") f.initBiltrans(); else if (j.mode == "tm") f.initTMAnalysis(); else if (j.mode == "post" || j.mode == "inter") f.initPostgeneration(); else if (j.mode == "trl") f.initTransliteration();
    if (j.mode != "merge" && j.mode != "unmerge" && !f.valid()) { j.res.push_back("invalid"); return; }
    for (size_t i = 0; i + 1 < j.items.size(); i += 2) {
      if (j.items[i] != "text") { j.res.push_back(api_one_op(f, j.items[i], j.items[i+1])); continue; }
      std::string text = j.items[i+1]; if (text.empty()) text = " ";
      InputFile in; if (!in.open_in_memory((char*)text.c_str())) { j.res.push_back("open_in_memory failed"); continue; }
      char* mem = nullptr; size_t n = 0; FILE* mf = open_memstream(&mem, &n); UFILE* uf = u_finit(mf, "C.UTF-8", "UTF-8");
      if (j.mode == "ana" || j.mode == "dec") f.analysis(in, uf); else if (j.mode == "gen") f.generation(in, uf, j.flags.find('d') != std::string::npos ? gm_all : gm_unknown); else if (j.mode == "bil") f.bilingual(in, uf); else if (j.mode == "post") f.postgeneration(in, uf); else if (j.mode == "inter") f.intergeneration(in, uf); else if (j.mode == "trl") f.transliteration(in, uf); else if (j.mode == "tm") f.tm_analysis(in, uf, tm_punct); else if (j.mode == "merge") f.quoteMerge(in, uf); else f.quoteUnmerge(in, uf);
      u_fflush(uf); u_fclose(uf); fclose(mf);
      j.res.push_back(std::string(mem, n)); free(mem);
    }
  } catch (const std::exception& e) { j.res.push_back(std::string("exception: ") + e.what()); }
}
// threads (seq|par) { "T" FILE MODE FLAGS (OP WORD)... }
int api_threads(const std::vector<std::string>& a)
{
  std::vector<Job> jobs; bool par = a[0] == "par";
  for (size_t i = 1; i < a.size(); ) {
    if (a[i] != "T" || i + 3 >= a.size()) return 5;
    Job j; j.file = a[i+1]; j.mode = a[i+2]; j.flags = a[i+3]; i += 4;
    while (i + 1 < a.size() && a[i] != "T") { j.items.push_back(a[i]); j.items.push_back(a[i+1]); i += 2; }
    jobs.push_back(j);
  }
  if (par) { std::vector<std::thread> t; for (auto& j : jobs) t.emplace_back([&j]() { work(j); }); for (auto& x : t) x.join(); }
  else for (auto& j : jobs) work(j);
  for (size_t k = 0; k < jobs.size(); k++) for (auto& r : jobs[k].res) rt_api_result(std::to_string(k) + ":" + r);
  return 0;
}
