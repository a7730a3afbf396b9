// Library workloads: programs that use lttoolbox as a library (as apertium, lsx-comp,
// the python bindings and APY do) and run inside a simulated process.
#include "rt.h"
#include <lttoolbox/fst_processor.h>
#include <lttoolbox/file_utils.h>
#include <lttoolbox/compression.h>
#include <lttoolbox/input_file.h>
#include <lttoolbox/ustring.h>
#include <lttoolbox/serialiser.h>
#include <lttoolbox/deserialiser.h>
#include <sstream>
#include <cstdio>
#include <cstring>
#include <thread>
#include <memory>

static std::string u8(UStringView s) { std::string r; for (size_t i = 0; i < s.size();) { UChar32 c; int32_t j = (int32_t)i; U16_NEXT(s.data(), j, (int32_t)s.size(), c); i = j; char b[5]; int n = 0; if (c < 0x80) b[n++] = c; else if (c < 0x800) { b[n++] = 0xC0|(c>>6); b[n++] = 0x80|(c&63); } else if (c < 0x10000) { b[n++] = 0xE0|(c>>12); b[n++] = 0x80|((c>>6)&63); b[n++] = 0x80|(c&63); } else { b[n++] = 0xF0|(c>>18); b[n++] = 0x80|((c>>12)&63); b[n++] = 0x80|((c>>6)&63); b[n++] = 0x80|(c&63); } r.append(b, n); } return r; }

void api_set_flags(FSTProcessor& f, const std::string& fl)
{
  for (char c : fl) switch (c) {
    case 'c': f.setCaseSensitiveMode(true); break;
    case 'w': f.setDictionaryCaseMode(true); break;
    case 'W': f.setDisplayWeightsMode(true); break;
    case 'o': f.setBiltransSurfaceForms(true); break;
    case '1': f.setMaxAnalysesValue(1); break;
    case 'L': f.setMaxWeightClassesValue(1); break;
    default: break;
  }
}
static void load(FSTProcessor& f, const std::string& file) { FILE* in = fopen(file.c_str(), "rb"); if (!in) { fprintf(stderr, "no %s\n", file.c_str()); exit(7); } f.load(in); fclose(in); }

// lookup FILE MODE FLAGS (OP WORD)...
std::string api_one_op(FSTProcessor& f, const std::string& op, const std::string& word)
{
  UString w = to_ustring(word.c_str());
  if (op == "bil") return u8(f.biltrans(w, true));
  if (op == "biln") return u8(f.biltrans(w, false));
  if (op == "full") return u8(f.biltransfull(w, true));
  if (op == "fulln") return u8(f.biltransfull(w, false));
  if (op == "queue") { auto p = f.biltransWithQueue(w, true); return u8(p.first) + "|" + std::to_string(p.second); }
  if (op == "queuen") { auto p = f.biltransWithQueue(w, false); return u8(p.first) + "|" + std::to_string(p.second); }
  if (op == "noq") return u8(f.biltransWithoutQueue(w, true));
  if (op == "noqn") return u8(f.biltransWithoutQueue(w, false));
  if (op == "look") { std::vector<UString> r; bool b = f.lookup(w, r); std::string o = b ? "+" : "-"; for (auto& x : r) o += " {" + u8(x) + "}"; return o; }
  return "?";
}
static int api_lookup(const std::vector<std::string>& a)
{
  FSTProcessor f; load(f, a[0]); api_set_flags(f, a[2]);
  if (a[1] == "bil") f.initBiltrans(); else if (a[1] == "gen") f.initGeneration(); else f.initAnalysis();
  if (!f.valid()) return 6;
  for (size_t i = 3; i + 1 < a.size(); i += 2) rt_api_result(api_one_op(f, a[i], a[i+1]));
  return 0;
}
// resave IN OUT: load a transducer set and store it again
static int api_resave(const std::vector<std::string>& a)
{
  Alphabet al; std::set<UChar32> letters; std::map<UString, Transducer> tr;
  FILE* in = fopen(a[0].c_str(), "rb"); if (!in) return 7; readTransducerSet(in, letters, al, tr); fclose(in);
  FILE* out = fopen(a[1].c_str(), "wb"); if (!out) return 7; writeTransducerSet(out, letters, al, tr); if (fclose(out)) return 8;
  return 0;
}
// serialise IN OUT: load, pass alphabet and transducers through the stream serialisation of the library, store
static int api_serialise(const std::vector<std::string>& a)
{
  Alphabet al; std::set<UChar32> letters; std::map<UString, Transducer> tr;
  FILE* in = fopen(a[0].c_str(), "rb"); if (!in) return 7; readTransducerSet(in, letters, al, tr); fclose(in);
  Alphabet al2; { std::stringstream ss; al.serialise(ss); al2.deserialise(ss); }
  std::map<UString, Transducer> tr2;
  for (auto& it : tr) { std::stringstream ss; it.second.serialise(ss); tr2[it.first].deserialise(ss); }
  // the copy must also work as an alphabet: every symbol and pair resolves to the same code
  int bad = 0;
  if (al.size() != al2.size()) bad = 1;
  for (int i = 1; i <= al.size() && !bad; i++) { UString s, t; al.getSymbol(s, -i); al2.getSymbol(t, -i); if (s != t) bad = 2; else if (al2(s) != -i) bad = 3; else if (!al2.isSymbolDefined(s)) bad = 4; }
  rt_api_result("bad=" + std::to_string(bad));
  // every pair used by a transition keeps its code when asked for again
  for (auto& it : tr) for (auto& st : it.second.getTransitions()) for (auto& e : st.second) { auto p = al.decode(e.first); if (al2(p.first, p.second) != e.first) { rt_api_result("pair-code-differs"); goto done; } }
done:
  FILE* out = fopen(a[1].c_str(), "wb"); if (!out) return 7; writeTransducerSet(out, letters, al2, tr2); if (fclose(out)) return 8;
  return 0;
}
// numbers FILE V...: every value written with the primitives is read back
static int api_numbers(const std::vector<std::string>& a)
{
  FILE* out = fopen(a[0].c_str(), "wb"); if (!out) return 7; std::stringstream ss;
  for (size_t i = 1; i < a.size(); i++) {
    const std::string& v = a[i].substr(1);
    if (a[i][0] == 'i') { unsigned n = strtoul(v.c_str(), nullptr, 10); Compression::multibyte_write(n, out); Compression::multibyte_write(n, ss); }
    else if (a[i][0] == 'd') { double d = strtod(v.c_str(), nullptr); Compression::long_multibyte_write(d, out); Compression::long_multibyte_write(d, ss); }
    else Compression::string_write(to_ustring(v.c_str()), out);
  }
  if (fclose(out)) return 8;
  FILE* in = fopen(a[0].c_str(), "rb"); if (!in) return 7;
  for (size_t i = 1; i < a.size(); i++) {
    char b[64];
    if (a[i][0] == 'i') { unsigned x = Compression::multibyte_read(in), y = Compression::multibyte_read(ss); snprintf(b, sizeof b, "i%u", x); rt_api_result(b); snprintf(b, sizeof b, "i%u", y); rt_api_result(b); }
    else if (a[i][0] == 'd') { double x = Compression::long_multibyte_read(in), y = Compression::long_multibyte_read(ss); snprintf(b, sizeof b, "d%.17g", x); rt_api_result(b); snprintf(b, sizeof b, "d%.17g", y); rt_api_result(b); }
    else rt_api_result("s" + u8(Compression::string_read(in)));
  }
  fclose(in);
  return 0;
}
int api_threads(const std::vector<std::string>& a);
int api_patterns(const std::vector<std::string>& a);
int api_transducers(const std::vector<std::string>& a);
int api_reader(const std::vector<std::string>& a);
static int hook(const ProcSpec& sp)
{
  std::string n = sp.tool.substr(4);
  try {
    if (n == "lookup") return api_lookup(sp.api_args);
    if (n == "resave") return api_resave(sp.api_args);
    if (n == "serialise") return api_serialise(sp.api_args);
    if (n == "patterns") return api_patterns(sp.api_args);
    if (n == "transducers") return api_transducers(sp.api_args);
    if (n == "reader") return api_reader(sp.api_args);
    if (n == "threads") return api_threads(sp.api_args);
    if (n == "numbers") return api_numbers(sp.api_args);
  } catch (const std::exception& e) { fprintf(stderr, "exception: %s\n", e.what()); return 9; }
  return 5;
}
static struct Init { Init() { rt_api_hook = hook; } } init_;
