// Exact models of the small stream tools: lt-merge (both directions) and lt-paradigm.
#include "props.h"
#include "model.h"

static bool flag(const Scenario& s, const char* f) { auto* t = s.one("tool"); if (t) for (auto& x : t->t) if (x == f) return true; return false; }
static std::string arg_of(const Scenario& s, const char* f) { auto* t = s.one("tool"); if (t) for (size_t i=0;i+1<t->t.size();i++) if (t->t[i] == f) return t->t[i+1]; return ""; }

// ---- C26: lt-merge --------------------------------------------------------------
static Scenario c26_gen(Rng& r, bool th)
{
  ServerCase c = gen_server(r, "C26", true, r.chance(3,5) ? 11 : 12);
  int n = r.range(1, th ? 8 : 4);
  for (int i=0;i<n;i++) {
    std::string b = gen_block(r, c.kind, c.d, r.chance(1,20) ? r.range(30,90) : r.range(1,9), c.flags);
    // more than one reading, marks, both marks of a merge on one unit
    if (r.chance(1,3)) { std::string x; for (size_t j=0;j<b.size();j++) { if (b[j] == '$' && (j == 0 || b[j-1] != '\\') && r.chance(1,4)) { static const std::vector<std::string> A = {"/ab<n>","/ab<n><MERGE_END>","/ab<n><MERGE_BEG>","/*ab","/@ab<n>","<MERGE_END>","/a\\/b<n>","/ab+cd<n>","/#a"}; x += r.pick(A); } x += b[j]; } b = x; }
    c.s.add("block", {b});
  }
  static const std::vector<int> bufs = {1,3,16,512,4096}; c.s.add("ibuf", {S(r.pick(bufs))}); c.s.add("obuf", {S(r.pick(bufs))});
  if (r.chance(1,3)) c.s.add("infile", {"1"});
  return c.s;
}
static Verdict c26_run(const Scenario& s, RunCtx& c)
{
  Verdict v; auto bl = s.all("block"); if (bl.empty()) { v.vacuous = true; return v; }
  ProcSpec ps = tool_spec(s); Disk d; Bytes in = join_blocks(s); ps.ibuf = s.num("ibuf",4096); ps.obuf = s.num("obuf",4096);
  if (s.num("infile",0)) { d["in.txt"] = in; ps.args.push_back("in.txt"); } else ps.input = in;
  ProcResult r = c.run(ps, d); c.st.blocks += bl.size(); if (r.infra) return v;
  std::string b = bad_end(r); if (!b.empty()) return viol("merge-" + b.substr(0,8) + ":" + mode_name(s), b);
  if (!r.ok()) return viol("refused", "a valid request is refused: " + r.status() + " " + show(r.err));
  auto f = split_nul(r.out); RefDict D; Machine m(D); bool un = flag(s, "-u"); uint64_t cmp = 0, merged = 0;
  auto whole = [](const LReading& x) { return (x.mark ? utf8(x.mark) : std::string()) + x.content; };
  for (size_t i=0;i<bl.size();i++) {
    if (i + 1 >= f.size()) return viol("merge-no-reply:" + mode_name(s), "no reply to request " + S((long)i+1));
    std::vector<LItem> it; if (!l_parse(bl[i]->str(0), m, it)) { c.st.probes["request outside the model"]++; continue; }
    std::string want, surf; bool on = false;
    auto flush = [&]() { if (on) { want += "^" + surf + "/" + surf + "<MERGED>$"; merged++; } on = false; surf.clear(); };
    for (auto& u : it) {
      bool beg = false, end = false, mg = false; for (auto& x : u.r) { beg |= x.content.find("<MERGE_BEG>") != std::string::npos; end |= x.content.find("<MERGE_END>") != std::string::npos; mg |= x.content.find("<MERGED>") != std::string::npos; }
      std::string unit; if (u.unit) { unit = "^"; for (size_t k=0;k<u.r.size();k++) unit += (k ? "/" : "") + whole(u.r[k]); unit += "$"; }
      if (un) {
        want += u.blank + u.wblank;
        if (mg) { const std::string& x = u.r.back().content; for (size_t k=0;k<x.size();k++) { if (x[k] == '\\' && k + 1 < x.size()) k++; want += x[k]; } merged++; } else want += unit;
        continue;
      }
      if (beg) on = true;
      if (!on) want += u.blank + u.wblank + unit;
      else {
        if (surf.empty()) want += u.blank + u.wblank; else surf += u.blank + m_escape(u.wblank) + (u.wblank.empty() ? "" : "\\^\\$");
        if (u.unit && !u.r.empty()) surf += m_escape(u.r[0].content);
      }
      if (end) flush();
    }
    flush(); cmp++;
    if (want != f[i]) return viol("merge:" + mode_name(s), "request " + S((long)i+1) + " \"" + show(bl[i]->str(0)) + "\" -> \"" + show(f[i]) + "\", expected \"" + show(want) + "\"");
  }
  c.st.probes["requests compared"] += cmp; c.st.probes["units merged or unmerged"] += merged; if (!cmp) v.vacuous = true;
  return v;
}
static Reg c26({"C26","Merging makes one unit of a marked stretch, unmerging restores its text", c26_gen, c26_run, 2600, 100000,
  "One case = a history of 1-8 well-formed requests with marked and unmarked units, wordblanks, escapes and several readings, for lt-merge or lt-merge -u, from standard input or a file, with seeded buffer sizes; every reply is compared with an executable model. Non-trivial: at least one request was compared.", real_list(), stub_list(),
  {"a stretch that is not ended is ended by the end of its request"}});

// ---- C27: lt-paradigm -------------------------------------------------------------
struct PSym { bool tag; std::string t; };
static std::vector<PSym> psyms(const std::string& x)
{
  std::vector<PSym> o; auto v = cps(x); for (size_t i=0;i<v.size();i++) { if (v[i] == '\\' && i + 1 < v.size()) { o.push_back({false, utf8(v[++i])}); continue; } if (v[i] == '<') { size_t e = i; while (e < v.size() && v[e] != '>') e++; if (e < v.size()) { std::string t; for (;i<=e;i++) t += utf8(v[i]); i = e; o.push_back({true, t}); continue; } } o.push_back({false, utf8(v[i])}); } return o;
}
static std::vector<std::string> alts(const std::string& t, size_t skip, char sep) { std::vector<std::string> o; std::string b = t.substr(skip + 1, t.size() - skip - 2), cur; for (char ch : b) { if (ch == sep) { o.push_back("<" + cur + ">"); cur.clear(); } else cur += ch; } o.push_back("<" + cur + ">"); return o; }
static bool pmatch(const std::vector<PSym>& p, size_t i, const std::vector<PSym>& w, size_t j, const RefDict& D, const std::set<std::string>& anytag)
{
  if (i == p.size()) return j == w.size();
  auto star = [&](std::function<bool(const PSym&)> ok) { for (size_t k=j;;k++) { if (pmatch(p, i+1, w, k, D, anytag)) return true; if (k >= w.size() || !ok(w[k])) return false; } };
  const PSym& s = p[i];
  if (!s.tag && s.t == "*") return star([&](const PSym& x) { return !x.tag && D.letters.count(cps(x.t)[0]); });
  if (s.tag && s.t == "<*>") return star([&](const PSym& x) { return x.tag && anytag.count(x.t); });
  if (s.tag && s.t.compare(0,3,"<*|") == 0) { auto a = alts(s.t, 2, '|'); return star([&](const PSym& x) { return x.tag && std::find(a.begin(), a.end(), x.t) != a.end(); }); }
  if (s.tag && s.t.compare(0,3,"<*-") == 0) { auto a = alts(s.t, 1, '-'); return star([&](const PSym& x) { return x.tag && anytag.count(x.t) && std::find(a.begin(), a.end(), x.t) == a.end(); }); }
  if (j >= w.size()) return false;
  if (s.tag && s.t.compare(0,2,"<|") == 0) { auto a = alts(s.t, 1, '|'); return w[j].tag && std::find(a.begin(), a.end(), w[j].t) != a.end() && pmatch(p, i+1, w, j+1, D, anytag); }
  return s.tag == w[j].tag && s.t == w[j].t && pmatch(p, i+1, w, j+1, D, anytag);
}
static Scenario c27_gen(Rng& r, bool th)
{
  ServerCase c = gen_server(r, "C27", true, 13); Scenario& s = c.s;
  bool ana = r.chance(1,3); // an analyser: tags on the right
  for (auto& l : s.l) { if (l.key == "compile" && ana) l.t[1] = "lr"; if (l.key == "tool" && ana) l.t.insert(l.t.end()-1, r.chance(1,2) ? "-a" : "--analyser"); }
  int n = r.range(1, th ? 7 : 3);
  for (int i=0;i<n;i++) {
    std::string b = gen_block(r, SK_PARADIGM, c.d, r.range(1,4), c.flags);
    if (r.chance(1,3)) { auto& f = r.pick(c.d.forms); auto v = psyms(f.lex); std::string x; for (auto& q : v) { if (!q.tag && q.t == "+") { x.clear(); break; } int k = r.range(0,9); if (!q.tag && k < 2) { if (x.empty() || x.back() != '*') x += "*"; } else if (q.tag && k < 2) x += "<*>"; else if (q.tag && k == 2) x += "<|" + q.t.substr(1, q.t.size()-2) + "|" + r.pick(c.d.tags) + ">"; else if (q.tag && k == 3) x += "<*|" + q.t.substr(1, q.t.size()-2) + "|" + r.pick(c.d.tags) + ">"; else if (q.tag && k == 4) x += "<*-" + r.pick(c.d.tags) + ">"; else x += q.t; } if (!x.empty()) b = x; }
    if (r.chance(1,8)) { static const std::vector<std::string> un = {"<zz>","<|zz|zy>","<*|zz>","<*-zz>"}; size_t q = b.rfind('\n'); size_t at = r.chance(1,2) || q == std::string::npos ? b.size() : q; b.insert(at, r.pick(un)); }
    s.add("block", {b});
  }
  static const std::vector<int> bufs = {1,3,16,512,4096}; s.add("ibuf", {S(r.pick(bufs))});
  return s;
}
static Verdict c27_run(const Scenario& s, RunCtx& c)
{
  Verdict v; Prepared p = prepare(s, c); if (!p.ok) { v.vacuous = true; v.detail = p.why; return v; }
  auto bl = s.all("block"); if (bl.empty()) { v.vacuous = true; return v; }
  RefDict D; std::string why; if (!ref_decode(p.disk["d.bin"], D, why)) { v.vacuous = true; v.detail = why; return v; }
  bool ana = flag(s, "-a") || flag(s, "--analyser"), sort = flag(s, "-s");
  std::vector<std::pair<std::string,std::string>> ent; // lexical, surface
  for (auto& kv : D.sec) { std::set<Entry> e; if (!D.relation(kv.first, e)) { v.vacuous = true; v.detail = "infinite"; return v; } for (auto& x : e) { if (ana) ent.push_back({x.r, x.l}); else ent.push_back({x.l, x.r}); } }
  std::set<std::string> any; std::string ex = arg_of(s, "-e"); for (auto& t : D.tags) if (t != ex && t.size() > 2 && t[0] == '<') any.insert(t);
  ProcSpec ps = tool_spec(s); ps.input = join_blocks(s); ps.ibuf = s.num("ibuf",4096);
  ProcResult r = c.run(ps, p.disk); c.st.blocks += bl.size(); if (r.infra) return v;
  std::string b = bad_end(r); if (!b.empty()) return viol("paradigm-" + b.substr(0,8), b);
  if (!r.ok()) return viol("refused", "a valid request is refused: " + r.status() + " " + show(r.err));
  auto f = split_nul(r.out); uint64_t cmp = 0, lines = 0;
  for (size_t i=0;i<bl.size();i++) {
    if (i + 1 >= f.size()) return viol("paradigm-no-reply", "no reply to request " + S((long)i+1));
    // the answers to the lines of one request follow each other, each ended by the end-of-line of the request
    std::vector<std::string> pats; { std::string cur; for (char ch : bl[i]->str(0)) if (ch == '\n') { pats.push_back(cur); cur.clear(); } else cur += ch; pats.push_back(cur); }
    std::vector<std::set<std::string>> got(1); std::vector<std::vector<std::string>> gl(1); { std::string cur; for (char ch : f[i]) if (ch == '\n') { if (cur.empty()) { got.push_back({}); gl.push_back({}); } else { got.back().insert(cur); gl.back().push_back(cur); } cur.clear(); } else cur += ch; if (!cur.empty()) return viol("paradigm", "an answer without an end of line: " + show(f[i])); }
    auto bad = [&](const std::string& t) { return viol("paradigm", "request " + S((long)i+1) + " \"" + show(bl[i]->str(0)) + "\" -> \"" + show(f[i]) + "\": " + t); };
    if (got.size() != pats.size()) return bad(S((long)pats.size()) + " patterns, " + S((long)got.size()) + " answers");
    for (size_t k=0;k<pats.size();k++) {
      auto pat = psyms(pats[k]); bool out = false; for (auto& x : pat) { if (x.tag) { auto known = [&](const std::string& t) { return std::find(D.tags.begin(), D.tags.end(), t) != D.tags.end(); }; if (x.t.compare(0,2,"<*") != 0 && x.t.compare(0,2,"<|") != 0 && !known(x.t)) c.st.probes["tags the dictionary lacks"]++; } else if (x.t == "+" || x.t == "#") out = true; }
      if (out) { c.st.probes["pattern outside the model"]++; continue; }
      std::set<std::string> must, may;
      for (auto& e : ent) {
        if (e.first.empty() || e.second.empty()) continue;
        std::string line = e.first + ":" + e.second;
        if (e.first.find('+') != std::string::npos || e.first.find('#') != std::string::npos || e.first.find("<compound") != std::string::npos || e.first.find('\\') != std::string::npos) { may.insert(line); continue; }
        if (pmatch(pat, 0, psyms(e.first), 0, D, any)) must.insert(line);
      }
      for (auto& x : must) if (!got[k].count(x)) return bad("pattern " + pats[k] + ": \"" + x + "\" is missing");
      for (auto& x : got[k]) if (!must.count(x) && !may.count(x)) return bad("pattern " + pats[k] + ": \"" + x + "\" does not belong to the answer");
      if (sort) for (size_t q=1;q<gl[k].size();q++) { if (gl[k][q] == gl[k][q-1]) return bad("an answer twice in a sorted listing"); auto key = [](const std::string& x) { std::u16string u; size_t cpos = x.find(':'); for (int cp : cps(x.substr(0, cpos == std::string::npos ? x.size() : cpos))) if (cp < 0x10000) u += (char16_t)cp; else { u += (char16_t)(0xD800 + ((cp-0x10000) >> 10)); u += (char16_t)(0xDC00 + ((cp-0x10000) & 0x3FF)); } return u; }; if (gl[k][q].find(':') == gl[k][q].rfind(':') && gl[k][q-1].find(':') == gl[k][q-1].rfind(':') && key(gl[k][q]) < key(gl[k][q-1])) return bad("the listing is not sorted"); }
      cmp++; lines += must.size();
    }
  }
  c.st.probes["patterns compared"] += cmp; c.st.probes["forms listed"] += lines; if (!cmp) v.vacuous = true;
  return v;
}
static Reg c27({"C27","A paradigm listing shows exactly the forms that match the pattern", c27_gen, c27_run, 1600, 80000,
  "One case = generated generator or analyser, lt-paradigm with seeded options, a history of requests of 1-4 patterns with every kind of wildcard; each listing is compared with the matching entries of the independently decoded dictionary. Non-trivial: at least one pattern was compared.", real_list(), stub_list(),
  {"forms with joined or split lexical units or compound marks may or may not be listed (their matching rules are those of lt-trim)"}});
