// Library workloads: lists of patterns (as taggers and transfer use them) and the stream reader.
#include "rt.h"
#include <lttoolbox/pattern_list.h>
#include <lttoolbox/match_exe.h>
#include <lttoolbox/match_state.h>
#include <lttoolbox/stream_reader.h>
#include <lttoolbox/file_utils.h>
#include <lttoolbox/ustring.h>
#include <sstream>
#include <memory>

static std::string u8(UStringView s) { std::string r; utf8::utf16to8(s.begin(), s.end(), std::back_inserter(r)); return r; }
static UString us(const std::string& s) { return to_ustring(s.c_str()); }

// patterns: a program of list, matcher and cursor operations
int api_patterns(const std::vector<std::string>& a)
{
  auto pl = std::make_unique<PatternList>(); std::unique_ptr<MatchExe> me; std::map<int, std::unique_ptr<MatchState>> cur;
  size_t i = 0; auto arg = [&]() -> const std::string& { static const std::string e; return i < a.size() ? a[i++] : e; };
  auto num = [&]() { return atoi(arg().c_str()); };
  while (i < a.size()) {
    const std::string op = arg();
    if (op == "item") { int id = num(); UString l = us(arg()); UString t = us(arg()); pl->insert(id, l, t); }
    else if (op == "label") { int id = num(); int o = num(); pl->insert(id, o); }
    else if (op == "seq") pl->beginSequence();
    else if (op == "endseq") pl->endSequence();
    else if (op == "build") pl->buildTransducer();
    else if (op == "write") { FILE* f = fopen(arg().c_str(), "wb"); if (!f) return 7; pl->write(f); if (fclose(f)) return 8; }
    else if (op == "read") { bool fresh = num(); FILE* f = fopen(arg().c_str(), "rb"); if (!f) return 7; if (fresh) pl = std::make_unique<PatternList>(); pl->read(f); fclose(f); }
    else if (op == "serialise") { std::stringstream ss; pl->serialise(ss); pl = std::make_unique<PatternList>(); pl->deserialise(ss); }
    else if (op == "copy") { auto q = std::make_unique<PatternList>(*pl); pl = std::move(q); }
    else if (op == "assign") { auto q = std::make_unique<PatternList>(); q->insert(1, us("zz"), us("zz")); *q = *pl; pl = std::move(q); }
    else if (op == "exe") me.reset(pl->newMatchExe());
    else if (op == "exe-copy") { auto q = std::make_unique<MatchExe>(*me); me = std::move(q); }
    else if (op == "exe-assign") { auto q = std::make_unique<MatchExe>(); *q = *me; me = std::move(q); }
    else if (op == "init") { auto& c = cur[num()]; if (!c) c = std::make_unique<MatchState>(); c->init(me->getInitial()); }
    else if (op == "clear") { auto& c = cur[num()]; if (!c) c = std::make_unique<MatchState>(); c->clear(); }
    else if (op == "clone") { int f = num(), t = num(); if (cur[f]) cur[t] = std::make_unique<MatchState>(*cur[f]); }
    else if (op == "put") { int f = num(), t = num(); if (cur[f]) { if (!cur[t]) cur[t] = std::make_unique<MatchState>(); *cur[t] = *cur[f]; } }
    else if (op == "sym") {
      auto& c = cur[num()]; UString s = us(arg()); Alphabet& al = pl->getAlphabet(); if (!c) continue;
      int ac = al(PatternList::ANY_CHAR), at = al(PatternList::ANY_TAG);
      if (s.size() > 1 && s[0] == '<') { if (al.isSymbolDefined(s)) c->step(al(s), at); else c->step(at); }
      else if (s == u"+") c->step('+');
      else { std::vector<int32_t> v; ustring_to_vec32(s, v); if (!v.empty()) c->step(v[0], ac); }
    }
    else if (op == "check") {
      auto& c = cur[num()]; std::set<int> ban; std::stringstream ss(arg()); int b; while (ss >> b) ban.insert(b);
      if (!c) { rt_api_result("none"); continue; }
      int r = ban.empty() ? c->classifyFinals(me->getFinals()) : c->classifyFinals(me->getFinals(), ban);
      rt_api_result(std::to_string(r) + " " + (c->size() ? "1" : "0"));
    }
    else return 6;
  }
  return 0;
}

// reader SRC SYMBOLS: everything the stream reader hands over, part by part
int api_reader(const std::vector<std::string>& a)
{
  InputFile in; if (a[0] != "-") in.open_or_exit(a[0].c_str());
  StreamReader r(&in); Alphabet al;
  if (a[1] != "none") { r.alpha = &al; r.add_unknowns = a[1] == "add"; for (size_t i = 2; i < a.size(); i++) al.includeSymbol(us(a[i])); }
  for (int n = 0; n < 100000; n++) {
    r.next(); std::string o = "B" + u8(r.blank) + "\1W" + u8(r.wblank);
    for (auto& x : r.readings) {
      o += "\1R"; if (x.mark) { UString m; m += x.mark; o += u8(m); } o += "\2" + u8(x.content) + "\2";
      for (auto s : x.symbols) { if (s < 0) { UString t; al.getSymbol(t, s); o += u8(t); } else if (s == 0) o += "?"; else { UString t; t += s; o += u8(t); } }
    }
    o += "\1C" + u8(r.chunk); o += std::string("\1") + (r.at_null ? "0" : "") + (r.at_eof ? "E" : "");
    rt_api_result(o);
    if (r.at_eof) break;
  }
  return 0;
}

// transducers: a program of operations on four transducers; 0 and 1 share an alphabet, 2 and 3 another
int api_transducers(const std::vector<std::string>& a)
{
  Alphabet al[2]; std::unique_ptr<Transducer> t[4]; for (auto& x : t) x = std::make_unique<Transducer>();
  size_t i = 0; auto arg = [&]() -> const std::string& { static const std::string e; return i < a.size() ? a[i++] : e; };
  auto num = [&]() { return atoi(arg().c_str()); };
  auto code = [](Alphabet& A, const std::string& s) -> int32_t { if (s.empty()) return 0; UString u = us(s); if (u[0] == '<' && u.size() > 1) { A.includeSymbol(u); return A(u); } std::vector<int32_t> v; ustring_to_vec32(u, v); return v[0]; };
  auto label = [&](int r) { Alphabet& A = al[r/2]; int32_t x = code(A, arg()); int32_t y = code(A, arg()); return A(x, y); };
  auto sym = [](const Alphabet& A, int32_t s) { UString u; A.getSymbol(u, s); return u8(u); };
  while (i < a.size()) {
    const std::string op = arg();
    if (op == "sym") { int g = num(); al[g].includeSymbol(us(arg())); continue; }
    int r = num(); if (r < 0 || r > 3) return 6; Transducer& T = *t[r];
    auto path = [&](int st, bool fresh) { int n = num(); for (int k = 0; k < n; k++) { int l = label(r); double w = atof(arg().c_str()); st = fresh ? T.insertNewSingleTransduction(l, st, w) : T.insertSingleTransduction(l, st, w); } return st; };
    if (op == "word") { bool fresh = num(); int st = path(T.getInitial(), fresh); T.setFinal(st, atof(arg().c_str())); }
    else if (op == "insert") { int st = path(T.getInitial(), false); int j = num(); st = T.insertTransducer(st, *t[j], al[r/2](0,0)); st = path(st, false); T.setFinal(st, atof(arg().c_str())); }
    else if (op == "union") { int j = num(); if (r/2 == j/2) T.unionWith(al[r/2], *t[j]); else { Transducer c(*t[j]); c.updateAlphabet(al[j/2], al[r/2]); T.unionWith(al[r/2], c); } }
    else if (op == "copy") { int j = num(); auto q = std::make_unique<Transducer>(T); t[j] = std::move(q); }
    else if (op == "assign") { int j = num(); *t[j] = T; }
    else if (op == "reset") t[r] = std::make_unique<Transducer>();
    else if (op == "optional") T.optional(); else if (op == "oneOrMore") T.oneOrMore(); else if (op == "zeroOrMore") T.zeroOrMore();
    else if (op == "reverse") T.reverse(); else if (op == "determinize") T.determinize(); else if (op == "minimize") T.minimize(); else if (op == "joinFinals") T.joinFinals();
    else if (op == "invert") T.invert(al[r/2]);
    else if (op == "delete" || op == "epsilonize") { sorted_vector<int32_t> v; int n = num(); for (int k = 0; k < n; k++) v.insert(label(r)); if (op == "delete") T.deleteSymbols(v); else T.epsilonizeSymbols(v); }
    else if (op == "file") { FILE* f = fopen("t.bin", "wb"); if (!f) return 7; T.write(f, al[r/2].size()); if (fclose(f)) return 8; f = fopen("t.bin", "rb"); if (!f) return 7; T.read(f, al[r/2].size()); fclose(f); }
    else if (op == "serialise") { std::stringstream ss; T.serialise(ss); t[r] = std::make_unique<Transducer>(); t[r]->deserialise(ss); }
    else if (op == "dump") {
      char b[80]; std::string o = std::to_string(T.getInitial()) + "\n" + std::to_string(T.size()) + " " + std::to_string(T.numberOfTransitions()) + " " + std::to_string(T.isEmpty()) + std::to_string(T.hasNoFinals()) + "\n";
      for (auto& f : T.getFinals()) { snprintf(b, sizeof b, "f\1%d\1%.17g\n", f.first, f.second); o += b; }
      for (auto& s : T.getTransitions()) for (auto& e : s.second) { auto p = al[r/2].decode(e.first); snprintf(b, sizeof b, "\1%d\1%d\1%.17g\n", s.first, e.second.first, e.second.second); o += "e\1" + sym(al[r/2], p.first) + ":" + sym(al[r/2], p.second) + b; }
      rt_api_result(o);
    }
    else return 6;
  }
  return 0;
}
