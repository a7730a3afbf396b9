// Storing and loading dictionaries.
#include "props.h"
#include "fst.h"
#include <cmath>

static std::vector<std::string> sorted_lines(const Bytes& b) { std::vector<std::string> v; std::string c; for (char x : b) { if (x == '\n') { v.push_back(c); c.clear(); } else c += x; } if (!c.empty()) v.push_back(c); std::sort(v.begin(), v.end()); return v; }
static Bytes file_of(const Disk& d, const std::string& f) { auto it = d.find(f); return it == d.end() ? Bytes("<absent>") : it->second; }

// ---- C11 --------------------------------------------------------------------
static Scenario c11_gen(Rng& r, bool th)
{
  if (r.chance(1,8)) {
    Scenario s; s.prop = "C11"; int n = r.range(1,12);
    for (int i=0;i<n;i++) {
      int k = r.range(0,5);
      if (k < 2) { uint64_t b = 1ull << r.range(0,29); uint64_t v = r.chance(1,2) ? b - (r.chance(1,2) ? 1 : 0) : r.below(0x40000000); s.add("num", {"i" + std::to_string(v < 0x40000000 ? v : 0x3fffffff)}); }
      else if (k < 5) { double d; int q = r.range(0,5); if (q == 0) d = r.range(0,100); else if (q == 1) d = r.range(0,1000000) / 1024.0; else if (q == 2) d = -(double)r.range(0,1000000) / 64.0; else if (q == 3) d = std::ldexp((double)r.range(1,0x3fffffff), r.range(-60,60)); else if (q == 4) d = -std::ldexp((double)r.range(1,0x3fffffff), r.range(-60,60)); else d = r.chance(1,2) ? INFINITY : -INFINITY; char b[64]; snprintf(b, sizeof b, "d%.17g", d); s.add("num", {b}); }
      else { static const std::vector<std::string> L = {"a","ñ","д","€","𐐨","😀","<","main@standard","z"}; s.add("num", {"s" + gen_word(r, L, 0, r.chance(1,6) ? 90 : 6)}); }
    }
    if (r.chance(1,2)) for (int i=0;i<r.range(1,3);i++) s.add("fread", {S(r.range(1,9))});
    return s;
  }
  if (r.chance(1,5)) { // a dictionary written by the model of the format, as another version of the package would have written it
    Scenario s; s.prop = "C11"; s.add("old-format", {S(r.chance(1,3))}, true);
    static const std::vector<std::string> L = {"a","b","ñ","д","€","𐐨","😀"," ","-","\u0301"}; static const std::vector<std::string> T = {"<n>","<vblex>","<sg>","<кир>","<😀>","<compound-R>","<a b>"};
    bool wt = r.chance(1,2); int nsec = r.range(1,3), ns = 0; for (int i=0;i<r.range(0,5);i++) s.add("letter", {r.pick(L)});
    for (int k=0;k<nsec;k++) {
      std::string nm = std::string(k == 0 ? "main" : k == 1 ? "x€" : "p𐐨") + (r.chance(1,3) ? "@inconditional" : "@standard"); ns = r.chance(1,30) ? r.range(300,th ? 17000 : 3000) : r.range(1,12);
      auto W = [&]() { return wt && r.chance(1,2) ? S(r.range(-64,512)) : std::string("0"); };
      s.add("section", {nm, S(ns), S(r.chance(1,4) ? r.below(ns) : 0)}, true);
      int ne = r.range(0, ns * 2); for (int e=0;e<ne;e++) { auto y = [&]() { return r.chance(1,6) ? std::string() : r.chance(1,3) ? r.pick(T) : r.pick(L); }; s.add("edge", {nm, S(r.below(ns)), y(), y(), S(r.below(ns)), W()}); }
      s.add("final", {nm, S(r.below(ns)), W()}, true); for (int f=0;f<r.range(0,2);f++) s.add("final", {nm, S(r.below(ns)), W()});
    }
    if (r.chance(1,2)) for (int i=0;i<r.range(1,4);i++) s.add("fread", {S(r.range(1,60))});
    s.add("op", {r.chance(1,3) ? "serialise" : r.chance(1,3) ? "invert" : "resave"}, true); s.add("old", {S(r.chance(1,2) ? r.range(1,60000) : 0)});
    return s;
  }
  ServerCase c = gen_toolrun(r, "C11", r.range(0,8));
  if (r.chance(1,2)) for (int i=0;i<r.range(1,4);i++) c.s.add("fread", {S(r.range(1,60))});
  static const std::vector<std::string> W = {"resave","resave","serialise","invert","append","print"};
  c.s.add("op", {r.pick(W)}, true);
  if (r.chance(1,2)) c.s.add("op", {r.pick(W)});
  c.s.add("old", {S(r.chance(1,2) ? r.range(1,60000) : 0)});
  (void)th;
  return c.s;
}
static Verdict c11_run(const Scenario& s, RunCtx& c)
{
  Verdict v; std::vector<int> rs; for (auto* l : s.all("fread")) rs.push_back((int)l->num(0,1));
  if (s.one("num")) {
    ProcSpec p; p.tool = "api:numbers"; p.file_read_sizes = rs; p.api_args = {"n.bin"}; std::vector<std::string> want;
    for (auto* l : s.all("num")) { const std::string& x = l->str(0); if (x.empty()) continue; p.api_args.push_back(x); want.push_back(x); if (x[0] != 's') want.push_back(x); }
    ProcResult r = c.run(p, Disk()); if (r.infra) return v; c.st.blocks++;
    c.st.probes["primitive values round-tripped"] += want.size();
    if (!r.ok()) return viol("primitive-" + r.status(), "writing and reading back numbers: " + r.status() + " " + show(r.err));
    for (size_t i=0;i<want.size();i++) if (i >= r.api.size() || r.api[i] != want[i]) return viol("primitive-differs", "stored " + show(want[i]) + ", loaded " + (i < r.api.size() ? show(r.api[i]) : std::string("nothing")));
    return v;
  }
  Bytes P; RefDict D; std::string why, who;
  if (s.one("section")) {
    who = s.num("old-format",0) ? "an older version" : "the model";
    auto code = [&](const std::string& y) { if (y.empty()) return 0; if (y[0] == '<') { for (size_t i=0;i<D.tags.size();i++) if (D.tags[i] == y) return -(int)i-1; D.tags.push_back(y); return -(int)D.tags.size(); } return cps(y)[0]; };
    D.pairs.push_back({0,0}); for (auto* l : s.all("letter")) D.letters.insert(cps(l->str(0))[0]);
    for (auto* l : s.all("section")) { RefTrans& t = D.sec[l->str(0)]; t.st.resize(l->num(1,1)); t.initial = (int)l->num(2,0); }
    bool old = s.num("old-format",0);
    for (auto* l : s.all("edge")) { RefTrans& t = D.sec[l->str(0)]; std::pair<int,int> pr{code(l->str(2)), code(l->str(3))}; size_t k = 0; while (k < D.pairs.size() && D.pairs[k] != pr) k++; if (k == D.pairs.size()) D.pairs.push_back(pr); t.st[l->num(1)].push_back({(int)k, (int)l->num(4), old ? 0.0 : l->num(5,0) / 64.0}); }
    for (auto* l : s.all("final")) D.sec[l->str(0)].finals[(int)l->num(1)] = old ? 0.0 : l->num(2,0) / 64.0;
    for (auto& kv : D.sec) for (auto& st : kv.second.st) std::stable_sort(st.begin(), st.end(), [](const RefEdge& a, const RefEdge& b) { return a.label < b.label; });
    P = ref_encode(D, old); c.st.blocks++; c.st.probes["dictionary written by the model" + std::string(old ? " in the old format" : "")]++;
  } else {
    Prepared p = prepare(s, c); if (!p.ok) { v.vacuous = true; v.detail = p.why; return v; }
    ToolExec e = tool_exec(s); for (auto& kv : e.extra) p.disk[kv.first] = kv.second;
    ProcResult m = c.run(e.spec, p.disk); if (m.infra) return v;
    if (!m.ok()) { v.vacuous = true; v.detail = m.err; return v; }
    P = product_of(e, m); c.st.blocks++; who = s.one("tool")->str(0);
    if (!ref_decode(P, D, why)) return viol("format:" + who, "the dictionary stored by " + who + " is not in the documented format: " + why);
  }
  auto print = [&](const Bytes& b, bool& ok, bool alpha = false) { Disk q; q["x.bin"] = b; ProcSpec ps; ps.tool = "lt-print"; ps.args = {"x.bin"}; if (alpha) ps.args = {"-a","x.bin"}; ps.file_read_sizes = rs; ProcResult r = c.run(ps, q); ok = r.ok(); if (!ok && !r.infra) v.detail = r.status() + " " + show(r.err); return r.out; };
  auto same = [](RefDict a, RefDict b) { for (RefDict* d : {&a, &b}) for (auto& kv : d->sec) for (auto& st : kv.second.st) std::sort(st.begin(), st.end()); return a == b; };
  bool ok; Bytes ref = print(P, ok); if (c.infra) return v;
  if (!ok) return viol("unreadable:" + who, "lt-print cannot read the dictionary of " + who + ": " + v.detail);
  if (sorted_lines(ref) != sorted_lines(D.print())) { auto x = sorted_lines(ref), y = sorted_lines(D.print()); size_t k = 0; while (k < x.size() && k < y.size() && x[k] == y[k]) k++; return viol("loaded-differs:" + who, "the file stored by " + who + " holds \"" + (k < y.size() ? show(y[k]) : "(nothing more)") + "\" where lt-print loads \"" + (k < x.size() ? show(x[k]) : "(nothing more)") + "\""); }
  Bytes al = print(P, ok, true); if (c.infra) return v;
  if (!ok || al != D.print_alpha()) return viol("alphabet-differs:" + who, "letters and symbols stored: \"" + show(D.print_alpha()) + "\", loaded: \"" + show(al) + "\"");
  long old = s.num("old",0);
  for (auto* op : s.all("op")) {
    std::string k = op->str(0); c.st.probes["re-stored by " + k]++;
    auto fresh = [&](ProcSpec& x) { x.file_read_sizes = rs; Disk q; q["p.bin"] = P; if (old) q["q.bin"] = Bytes((size_t)old, '\x01'); return q; };
    if (k == "print") { ProcSpec x; x.tool = "lt-print"; x.args = {"p.bin","q.bin"}; Disk q = fresh(x); ProcResult r = c.run(x, q); if (r.infra) return v;
      Bytes got = file_of(r.disk,"q.bin"); if (!r.ok() || got != ref) return viol("print-differs:" + who, "lt-print to a file gives " + r.status() + " and other text than to standard output"); continue; }
    if (k == "resave" || k == "serialise") {
      ProcSpec x; x.tool = "api:" + k; x.api_args = {"p.bin","q.bin"}; Disk q = fresh(x); ProcResult r = c.run(x, q); if (r.infra) return v;
      if (!r.ok()) return viol(k + "-failed:" + who, "loading and storing the dictionary of " + who + ": " + r.status() + " " + show(r.err) + " " + r.race_text);
      for (auto& a : r.api) if (a != "bad=0") return viol(k + "-alphabet:" + who, "the alphabet that was loaded is not the one that was stored: " + a);
      RefDict E; Bytes got = file_of(r.disk,"q.bin");
      if (!ref_decode(got, E, why)) return viol(k + "-format:" + who, "storing what was loaded gives a file outside the documented format: " + why);
      if (!same(D, E)) return viol(k + "-differs:" + who, "storing what was loaded from the dictionary of " + who + " gives a dictionary with other content");
    } else if (k == "invert") {
      ProcSpec x; x.tool = "lt-invert"; x.args = {"p.bin","q.bin"}; Disk q = fresh(x); ProcResult r = c.run(x, q); if (r.infra) return v;
      if (!r.ok()) return viol("invert-failed:" + who, r.status() + " " + show(r.err));
      ProcSpec y; y.tool = "lt-invert"; y.args = {"q.bin","r.bin"}; y.file_read_sizes = rs; ProcResult r2 = c.run(y, r.disk); if (r2.infra) return v;
      if (!r2.ok()) return viol("invert-failed:" + who, r2.status() + " " + show(r2.err));
      RefDict E, G; if (!ref_decode(file_of(r.disk,"q.bin"), E, why) || !ref_decode(file_of(r2.disk,"r.bin"), G, why)) return viol("invert-format:" + who, why);
      for (auto& kv : D.sec) { std::set<Entry> a, b, g; if (!D.relation(kv.first, a, 4000, 30) || !E.relation(kv.first, b, 4000, 30) || !G.relation(kv.first, g, 4000, 30)) { c.st.probes["relation too large to compare"]++; continue; }
        std::set<Entry> sw; for (auto& e : a) sw.insert({e.r, e.l, e.w}); if (sw != b) return viol("invert-relation:" + who, "section " + kv.first + ": the stored inverse does not hold the pairs of the dictionary the other way round");
        if (a != g) return viol("invert-twice:" + who, "inverting the dictionary of " + who + " twice, storing it each time, does not give it back"); }
      if (D.letters != E.letters || D.letters != G.letters) return viol("invert-letters:" + who, "alphabetic characters change when the inverse is stored");
    } else if (k == "append") { // the stored union of a dictionary with itself
      ProcSpec x; x.tool = "lt-append"; x.args = {"-k","p.bin","p.bin","q.bin"}; Disk q = fresh(x); ProcResult r = c.run(x, q); if (r.infra) return v;
      if (!r.ok()) return viol("append-failed:" + who, r.status() + " " + show(r.err));
      RefDict E; if (!ref_decode(file_of(r.disk,"q.bin"), E, why)) return viol("append-format:" + who, why);
      std::set<std::pair<std::string,std::string>> a, b; if (D.strings(a, 4000) && E.strings(b, 4000) && a != b) return viol("append-relation:" + who, "the stored union of a dictionary with itself holds other pairs");
    }
  }
  return v;
}
static Reg c11({"C11","What is stored in a dictionary is what is loaded from it", c11_gen, c11_run, 1500, 60000,
  "One case = a dictionary made by one of nine tools, stored again through the library, its stream serialisation, lt-invert twice or lt-print, over a longer previous file and with short reads; or a list of numbers, weights and strings passed through the storage primitives. Non-trivial: the dictionary was built.", real_list(), stub_list(),
  {"weights are stored with 30 bits of mantissa: generated weights that need more are only compared after the first store"}});
