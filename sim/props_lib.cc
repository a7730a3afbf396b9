// The library outside lt-proc: lists of patterns with their matchers, and the stream reader.
#include "props.h"
#include "model.h"

// ---- C28: pattern lists ---------------------------------------------------------
// One pattern = a sequence of tokens.  'c' letter, 't' tag, 'C'/'T' one or more of any,
// 'q' optional queue: one of "_", " ", "#" and then any letters.
struct PTok { char k; std::string s; };
typedef std::vector<PTok> PSeq;
struct PPat { PSeq must, may; };   // what has to match, and what may match because patterns share their states

static std::vector<std::string> letters_of(const std::string& w) { std::vector<std::string> r; for (int c : cps(w)) r.push_back(utf8(c)); return r; }
static void p_item(PPat& p, const std::string& lemma, const std::string& tags)
{
  PSeq t;
  if (lemma.empty()) t.push_back({'C',""}); else for (auto& c : letters_of(lemma)) t.push_back(c == "*" ? PTok{'C',""} : PTok{'c',c});
  if (tags.empty()) t.push_back({'T',""}); else { std::string x; for (size_t i=0;i<=tags.size();i++) if (i == tags.size() || tags[i] == '.') { t.push_back(x == "*" ? PTok{'T',""} : PTok{'t',"<" + x + ">"}); x.clear(); } else x += tags[i]; }
  for (auto& x : t) { p.must.push_back(x); if (!((x.k == 'C' || x.k == 'T') && !p.may.empty() && p.may.back().k == x.k)) p.may.push_back(x); }
}
static void p_end(PPat& p) { for (PSeq* q : {&p.must, &p.may}) if (q->empty() || q->back().k != 'q') q->push_back({'q',""}); }
static void p_plus(PPat& p) { p.must.push_back({'c',"+"}); if (p.may.empty() || p.may.back().k != 'q') p.may.push_back({'q',""}); p.may.push_back({'c',"+"}); }
typedef std::multimap<int, PPat> PList;

static bool p_build(const Scenario& s, PList& L, std::vector<std::string>& a)
{
  for (auto& l : s.l) {
    int id = (int)l.num(0,1);
    if (l.key == "pat") { PPat p; p_item(p, l.str(1), l.str(2)); p_end(p); L.insert({id,p}); a.insert(a.end(), {"item", S(id), l.str(1), l.str(2)}); }
    else if (l.key == "multi") {
      std::vector<PPat> alt; std::vector<std::string> b; bool first = true;
      for (size_t i=1;i+2<l.t.size();i+=3) {
        if (l.t[i] == "i") {
          if (first) alt.push_back(PPat()); for (auto& p : alt) { if (!first) p_plus(p); p_item(p, l.t[i+1], l.t[i+2]); }
          b.insert(b.end(), {"item", S(id), l.t[i+1], l.t[i+2]});
        } else {
          int o = atoi(l.t[i+1].c_str()); auto rg = L.equal_range(o); if (rg.first == rg.second) continue;
          std::vector<PPat> n; if (first) alt.push_back(PPat());
          for (auto& p : alt) for (auto k = rg.first; k != rg.second; ++k) { PPat q = p; if (!first) p_plus(q); q.must.insert(q.must.end(), k->second.must.begin(), k->second.must.end()); q.may.insert(q.may.end(), k->second.may.begin(), k->second.may.end()); n.push_back(q); }
          alt = n; b.insert(b.end(), {"label", S(id), S(o)});
        }
        first = false; if (alt.size() > 40) return false;
      }
      if (first) continue;
      a.push_back("seq"); a.insert(a.end(), b.begin(), b.end()); a.push_back("endseq");
      for (auto& p : alt) { p_end(p); L.insert({id,p}); }
      if (L.size() > 150) return false;
    }
  }
  return !L.empty();
}
// all positions of a pattern after the steps taken so far
typedef std::set<std::pair<int,bool>> PPos;
static void p_eps(const PSeq& t, PPos& s) { bool ch = true; while (ch) { ch = false; for (auto& x : PPos(s)) if (x.first < (int)t.size() && t[x.first].k == 'q') ch |= s.insert({x.first+1,false}).second; } }
static PPos p_step(const PSeq& t, const PPos& s, const std::string& y, bool known)
{
  PPos n; bool tag = y.size() > 1 && y[0] == '<', plus = y == "+";
  auto any = [&](char k) { return (k == 'T' && tag) || (k == 'C' && !tag && !plus); };
  for (auto& x : s) {
    int p = x.first;
    if (x.second) { if (!tag && !plus) n.insert(x); continue; }
    if (p > 0 && any(t[p-1].k)) n.insert({p,false});
    if (p >= (int)t.size()) continue;
    if (any(t[p].k) || (t[p].k == 't' && tag && known && t[p].s == y) || (t[p].k == 'c' && !tag && t[p].s == y)) n.insert({p+1,false});
    if (t[p].k == 'q' && (y == "_" || y == " " || y == "#")) n.insert({p,true});
  }
  p_eps(t, n); return n;
}
struct PCur { bool ok = false; std::vector<std::pair<int,PPos>> must, may; };

static std::string p_word(Rng& r, const PSeq& t, const std::vector<std::string>& L, const std::vector<std::string>& T, std::vector<std::string>& w, int rep)
{
  for (auto& x : t) {
    if (r.chance(1,40)) { w.push_back(r.chance(1,2) ? r.pick(L) : r.pick(T)); continue; }
    if (r.chance(1,40)) continue;
    if (x.k == 'c' || x.k == 't') w.push_back(x.s);
    else if (x.k == 'C') for (int i=r.range(1,rep);i>0;i--) w.push_back(r.pick(L));
    else if (x.k == 'T') for (int i=r.range(1,3);i>0;i--) w.push_back(r.pick(T));
    else if (r.chance(1,3)) { static const std::vector<std::string> Q = {"_"," ","#"}; w.push_back(r.pick(Q)); for (int i=r.range(0,3);i>0;i--) w.push_back(r.pick(L)); }
  }
  return "";
}
static Scenario c28_gen(Rng& r, bool th)
{
  Scenario s; s.prop = "C28";
  std::vector<std::string> L = {"a","b"}; static const std::vector<std::string> ML = {"c","ñ","д","A","€","𐐨","😀"," ","_","#","\u0301"};
  for (int i=0;i<r.range(0,3);i++) L.push_back(r.pick(ML));
  static const std::vector<std::string> TT = {"n","v","sg","pl","кир","😀"}; std::vector<std::string> T; for (int i=0;i<r.range(1,4);i++) T.push_back(r.pick(TT));
  auto lemma = [&]() { std::string w; if (r.chance(1,4)) return w; int n = r.range(1, r.chance(1,6) ? 7 : 3); for (int i=0;i<n;i++) w += r.chance(1,4) ? std::string("*") : r.pick(L); return w; };
  auto tags = [&]() { std::string w; if (r.chance(1,5)) return w; int n = r.range(1,3); for (int i=0;i<n;i++) w += (i ? "." : "") + (r.chance(1,4) ? std::string("*") : r.pick(T)); return w; };
  int n = r.range(1, r.chance(1,8) ? 25 : 8), ids = r.range(1,8); std::vector<std::pair<std::string,std::string>> had;
  for (int i=0;i<n;i++) {
    int id = r.range(1,ids) * (r.chance(1,10) ? 300 : 1); auto one = [&]() { if (!had.empty() && r.chance(1,3)) return r.pick(had); std::pair<std::string,std::string> p{lemma(),tags()}; had.push_back(p); return p; };
    if (i == 0 || r.chance(3,5)) { auto p = one(); s.add("pat", {S(id), p.first, p.second}); }
    else { std::vector<std::string> t = {S(id)}; int k = r.range(1,3); for (int j=0;j<k;j++) { if (r.chance(1,2)) { auto p = one(); t.insert(t.end(), {"i",p.first,p.second}); } else t.insert(t.end(), {"l",S(r.range(1,ids)),""}); } s.add("multi", t); }
  }
  bool dense = r.chance(1,15); if (dense) { std::string w; for (int i=r.range(1,4);i>0;i--) w += "*" + L[0]; if (r.chance(1,2)) w += "*"; s.add("pat", {S(r.range(1,ids)), w, tags()}); } // many ways to read one word
  static const std::vector<std::string> V = {"file","file","reread","serialise","copy","assign","restart"};
  for (int i=0;i<r.range(0,3);i++) s.add("via", {r.pick(V)});
  if (r.chance(1,2)) for (int i=0;i<r.range(1,3);i++) s.add("fread", {S(r.range(1,40))});
  for (int i=0;i<(r.chance(1,3) ? r.range(1,2) : 0);i++) s.add("exe", {r.chance(1,2) ? "copy" : "assign"});
  s.add("heap", {S(r.range(1,60000))});
  PList P; std::vector<std::string> a; if (!p_build(s, P, a)) return s;
  std::vector<PSeq> all; for (auto& x : P) all.push_back(x.second.must);
  L.push_back("+"); L.push_back("x"); std::vector<std::string> TG; for (auto& t : T) TG.push_back("<" + t + ">"); TG.push_back("<zz>");
  // several cursors in seeded alternation, each with a word of its own
  int nc = r.range(1,4), events = r.range(5, th ? 160 : 90); bool marathon = r.chance(1,15); if (dense || r.chance(1,12)) events = r.range(300,2600);
  if (marathon) { nc = r.range(1,2); events = r.range(1500,5000); }   // a cursor that lives for long
  std::vector<std::vector<std::string>> w(nc); std::vector<size_t> at(nc, 0); auto fresh = [&](int c) { w[c].clear(); at[c] = 0; p_word(r, r.pick(all), dense && r.chance(3,4) ? std::vector<std::string>(1, L[0]) : L, TG, w[c], dense ? 30 : r.chance(1,8) ? 70 : 4); s.add("ev", {"init", S(c)}); };
  for (int c=0;c<nc;c++) fresh(c);
  for (int i=0;i<events;i++) {
    int c = r.range(0,nc-1);
    if (r.chance(1, marathon ? 800 : 25)) { int d = r.range(0,nc-1); s.add("ev", {r.chance(1,2) ? "clone" : "put", S(c), S(d)}); if (r.chance(1,2)) { w[d] = w[c]; at[d] = at[c]; } continue; }
    if (r.chance(1, marathon ? 4000 : 60)) { s.add("ev", {"clear", S(c)}); s.add("ev", {"check", S(c), ""}); fresh(c); continue; }
    if (at[c] < w[c].size()) { s.add("ev", {"sym", S(c), w[c][at[c]++]}); if (at[c] == w[c].size() || r.chance(1,6)) s.add("ev", {"check", S(c), r.chance(1,6) ? S(r.range(1,ids)) : std::string()}); }
    else fresh(c);
  }
  for (int c=0;c<nc;c++) s.add("ev", {"check", S(c), ""});
  return s;
}
static Verdict c28_run(const Scenario& s, RunCtx& c)
{
  Verdict v; PList L; std::vector<std::string> a; if (!p_build(s, L, a)) { v.vacuous = true; v.detail = "no patterns"; return v; }
  std::set<std::string> known; for (auto& x : L) for (auto& t : x.second.must) if (t.k == 't') known.insert(t.s);
  ProcSpec p; p.tool = "api:patterns"; for (auto* l : s.all("fread")) p.file_read_sizes.push_back((int)l->num(0,1)); p.alloc_mode = 1; p.alloc_seed = s.num("heap",1);
  Disk d; a.push_back("build"); std::string how = "a new list"; int nf = 0;
  auto run = [&](ProcResult& r) { p.api_args = a; r = c.run(p, d); c.st.blocks++; d = r.disk; return !r.infra; };
  auto badend = [&](const ProcResult& r) { return viol("patterns-" + r.status(), how + ": " + r.status() + " " + show(r.err)); };
  for (auto* l : s.all("via")) {
    const std::string& k = l->str(0); c.st.probes["list passed through " + k]++; how = "a list that went through " + k;
    if (k == "file" || k == "reread") { std::string f = "p" + S(nf++) + ".bin"; a.insert(a.end(), {"write", f, "read", k == "file" ? "1" : "0", f}); }
    else if (k == "restart") { std::string f = "p" + S(nf++) + ".bin"; a.insert(a.end(), {"write", f}); ProcResult r; if (!run(r)) return v; if (!r.ok()) return badend(r); a = {"read", "1", f}; }
    else a.push_back(k);
  }
  a.push_back("exe"); for (auto* l : s.all("exe")) { a.push_back("exe-" + l->str(0)); c.st.probes["matcher copied"]++; }
  std::map<int,PCur> cur; std::vector<std::pair<int,std::set<int>>> q; std::vector<std::pair<PCur,std::string>> want; std::map<int,std::string> hist; uint64_t steps = 0;
  for (auto* l : s.all("ev")) {
    int x = (int)l->num(1); const std::string& op = l->str(0); PCur& k = cur[x];
    if (op == "init") { a.insert(a.end(), {"init", S(x)}); k = PCur(); k.ok = true; for (auto& pt : L) { PPos z = {{0,false}}, y = z; p_eps(pt.second.must, z); p_eps(pt.second.may, y); k.must.push_back({pt.first, z}); k.may.push_back({pt.first, y}); } hist[x].clear(); }
    else if (op == "clear") { a.insert(a.end(), {"clear", S(x)}); k = PCur(); k.ok = true; hist[x] = "(cleared)"; }
    else if (op == "clone" || op == "put") { int y = (int)l->num(2); if (!k.ok) continue; a.insert(a.end(), {op, S(x), S(y)}); PCur t = k; cur[y] = t; std::string h = hist[x]; hist[y] = h; c.st.probes["cursor copied"]++; }
    else if (op == "sym") { if (!k.ok) continue; a.insert(a.end(), {"sym", S(x), l->str(2)}); steps++; hist[x] += l->str(2); bool kn = known.count(l->str(2)); size_t i = 0; if (!k.must.empty()) for (auto& pt : L) { k.must[i].second = p_step(pt.second.must, k.must[i].second, l->str(2), kn); k.may[i].second = p_step(pt.second.may, k.may[i].second, l->str(2), kn); i++; } }
    else if (op == "check") { if (!k.ok) continue; a.insert(a.end(), {"check", S(x), l->str(2)}); std::set<int> ban; if (!l->str(2).empty()) ban.insert(atoi(l->str(2).c_str())); q.push_back({x, ban}); want.push_back({k, hist[x]}); }
  }
  if (q.empty()) { v.vacuous = true; return v; }
  ProcResult r; if (!run(r)) return v; if (!r.ok()) return badend(r);
  c.st.probes["cursor steps"] += steps; uint64_t hit = 0; size_t np = L.size(); std::vector<const PPat*> pp; for (auto& x : L) pp.push_back(&x.second);
  for (size_t i=0;i<q.size();i++) {
    if (i >= r.api.size()) return viol("patterns-silent", how + ": no answer to check " + S((long)i+1));
    int got = 0, alive = 0; sscanf(r.api[i].c_str(), "%d %d", &got, &alive); const PCur& k = want[i].first; auto& ban = q[i].second;
    std::set<int> must, may; bool mal = false, yal = false;
    for (size_t j=0;j<k.must.size() && j<np;j++) { if (!k.must[j].second.empty()) mal = true; if (!k.may[j].second.empty()) yal = true;
      for (auto& z : k.must[j].second) if (z.first == (int)pp[j]->must.size() || z.second && z.first + 1 == (int)pp[j]->must.size()) must.insert(k.must[j].first);
      for (auto& z : k.may[j].second) if (z.first == (int)pp[j]->may.size() || z.second && z.first + 1 == (int)pp[j]->may.size()) may.insert(k.may[j].first); }
    for (int m : must) may.insert(m);
    std::string at = how + ", cursor " + S(q[i].first) + " after \"" + show(want[i].second) + "\": ";
    if (got != -1) hit++;
    if (got != -1 && ban.count(got)) return viol("patterns-banned", at + "class " + S(got) + " although it is banned");
    if (got != -1 && !may.count(got)) return viol("patterns-wrong", at + "class " + S(got) + ", but no pattern of that class matches");
    bool bm = false; for (int b : ban) bm |= may.count(b) > 0;
    if (!bm && !must.empty() && got == -1) return viol("patterns-lost", at + "no class, expected " + S(*must.begin()));
    if (!bm && !must.empty() && got > *must.begin()) return viol("patterns-order", at + "class " + S(got) + ", but class " + S(*must.begin()) + " matches too and comes first");
    if (mal && !alive) return viol("patterns-dead", at + "no state is left although a pattern can still match");
    if (!yal && !mal && alive) return viol("patterns-alive", at + "a state is left although no pattern can match any more");
  }
  c.st.probes["classifications checked"] += q.size(); c.st.probes["words in a class"] += hit;
  return v;
}
static Reg c28({"C28","A list of patterns gives every word its first matching class", c28_gen, c28_run, 1600, 60000,
  "One case = a list of patterns (lemmas and tags with wildcards, sequences, labels used in sequences), taken through files with short reads, another process, the stream serialisation or copies, and up to four cursors that are stepped, copied, cleared and asked for their class in a seeded alternation.  Every answer is compared with a set-of-positions simulation of the patterns.  Non-trivial: words end in a class.", real_list(), stub_list(),
  {"patterns whose beginnings coincide share states, so a sequence of plain items may also accept a queue before its + when a label-based sequence begins the same; both answers are accepted","a banned class that shares its final state with another hides it; only that a banned class is never given is judged then"}});

// ---- C29: the stream reader -----------------------------------------------------------
struct SPart { std::string blank, wblank, chunk; std::vector<std::pair<std::string,std::string>> r; std::vector<std::string> sym; bool nul = false, eof = false; };
static Scenario c29_gen(Rng& r, bool th)
{
  Scenario s; s.prop = "C29"; static const std::vector<std::string> AL = {"none","known","add"}; s.add("alpha", {r.pick(AL)});
  static const std::vector<std::string> T = {"<n>","<vblex>","<sg>","<кир>","<😀>","<a b>"}; for (int i=0;i<r.range(0,4);i++) s.add("symbol", {r.pick(T)});
  static const std::vector<std::string> L = {"a","b","ñ","€","😀","𐐨"," ","\\^","\\$","\\/","\\<","\\\\","\\{","\\*","+","_","\\[","\\@","]",">"};
  static const std::vector<std::string> B = {" ","\n","a","ñ","😀","\\^","\\$","\\[","\\\\","[<b>]","[\\]x]","[ñ😀]","[]","[^x$]","/","<","{","}","[[t:x]]","[[a; b:😀]]","$","]"};
  static const std::vector<std::string> M = {"*","@","#","=","%"};
  auto word = [&](int n) { std::string w; for (int i=0;i<n;i++) { const std::string& l = r.pick(L); w += l; } return w; };
  int reqs = r.range(1, th ? 8 : 4);
  for (int q=0;q<reqs;q++) {
    std::string b; int n = r.chance(1,15) ? r.range(40,150) : r.range(0,8);
    for (int i=0;i<n;i++) {
      for (int k=r.range(0,3);k>0;k--) b += r.pick(B);
      if (r.chance(1,3)) b += r.chance(1,2) ? "[[t:a;b]]" : "[[😀:\\]x]]";
      b += "^"; int rd = r.range(1,3); for (int k=0;k<rd;k++) { if (k) b += "/"; if (r.chance(1,4)) b += r.pick(M); b += word(r.range(0, r.chance(1,20) ? 60 : 4)); for (int j=r.range(0,3);j>0;j--) { b += r.pick(T); if (r.chance(1,8)) b += word(1); } if (r.chance(1,8)) b += "{^a<n>/b$ [x]^c\\}$}"; else if (r.chance(1,20)) b += "{}"; }
      b += "$";
    }
    for (int k=r.range(0,3);k>0;k--) b += r.pick(B);
    s.add("block", {b});
  }
  if (r.chance(1,3)) s.add("hangup", {"1"});
  if (r.chance(1,3)) { s.add("infile", {"1"}); if (r.chance(1,2)) s.add("fread", {S(r.range(1,40))}); }
  else { static const std::vector<int> bufs = {1,3,16,64,512,4096}; s.add("ibuf", {S(r.pick(bufs))}); for (int i=0;i<r.range(0,5);i++) s.add("chunk", {S(r.range(1,60))}); }
  return s;
}
static bool s_parse(const std::string& b, bool last_eof, const std::string& mode, const std::set<std::string>& syms, std::vector<SPart>& out)
{
  size_t i = 0; SPart cur;
  while (i < b.size()) {
    char c = b[i];
    if (c == '\\') { if (i + 1 >= b.size()) return false; auto n = cps(b.substr(i+1)); std::string u = utf8(n[0]); cur.blank += "\\" + u; i += 1 + u.size(); continue; }
    if (c == '[' && i + 1 < b.size() && b[i+1] == '[') { size_t k = i + 2; while (k + 1 < b.size() && !(b[k] == ']' && b[k+1] == ']')) { if (b[k] == '\\') k++; k++; } if (k + 1 >= b.size()) return false; std::string w = b.substr(i, k + 2 - i); i = k + 2; if (i < b.size() && b[i] == '^') cur.wblank = w; else cur.blank += w; continue; }
    if (c == '[') { size_t k = i + 1; while (k < b.size() && b[k] != ']') { if (b[k] == '\\') k++; k++; } if (k >= b.size()) return false; cur.blank += b.substr(i, k + 1 - i); i = k + 1; continue; }
    if (c != '^') { cur.blank += c; i++; continue; }
    i++; bool done = false;
    while (!done) {
      std::string mark, con, sym; if (i < b.size() && strchr("*@#=%", b[i])) mark = b[i++];
      for (;;) {
        if (i >= b.size()) return false;
        char x = b[i];
        if (x == '/') { i++; break; } if (x == '$') { i++; done = true; break; }
        if (x == '<') { size_t e = b.find('>', i); if (e == std::string::npos) return false; std::string t = b.substr(i, e + 1 - i); con += t; sym += mode == "add" || syms.count(t) ? t : std::string("?"); i = e + 1; continue; }
        if (x == '{') { size_t k = i + 1; while (k < b.size() && b[k] != '}') { if (b[k] == '\\') k++; k++; } if (k >= b.size()) return false; cur.chunk += b.substr(i, k + 1 - i); i = k + 1; continue; }
        if (x == '\\') { con += x; i++; if (i >= b.size()) return false; auto n = cps(b.substr(i)); std::string u = utf8(n[0]); con += u; sym += u; i += u.size(); continue; }
        con += x; sym += x; i++;
      }
      cur.r.push_back({mark, con}); cur.sym.push_back(mode == "none" ? "" : sym);
    }
    out.push_back(cur); cur = SPart();
  }
  if (last_eof) cur.eof = true; else cur.nul = true;
  out.push_back(cur); return true;
}
static Verdict c29_run(const Scenario& s, RunCtx& c)
{
  Verdict v; auto bl = s.all("block"); if (bl.empty()) { v.vacuous = true; return v; }
  std::string mode = s.str("alpha","none"); std::set<std::string> syms; ProcSpec p; p.tool = "api:reader"; Disk d; bool hang = s.num("hangup",0);
  Bytes in; std::vector<SPart> want;
  for (size_t i=0;i<bl.size();i++) { in += bl[i]->str(0); bool e = hang && i + 1 == bl.size(); if (!e) in += '\0'; }
  if (s.num("infile",0)) { d["in.txt"] = in; p.api_args = {"in.txt"}; for (auto* l : s.all("fread")) p.file_read_sizes.push_back((int)l->num(0,1)); }
  else { p.api_args = {"-"}; p.input = in; p.ibuf = s.num("ibuf",4096); p.chunks = read_chunks(s); size_t tot = 0; for (auto& k : p.chunks) tot += k.n; if (tot > in.size()) p.chunks.clear(); else if (tot < in.size() && !p.chunks.empty()) p.chunks.push_back({in.size()-tot,-1}); }
  p.api_args.push_back(mode); if (mode != "none") for (auto* l : s.all("symbol")) { syms.insert(l->str(0)); p.api_args.push_back(l->str(0)); }
  for (size_t i=0;i<bl.size();i++) { bool e = hang && i + 1 == bl.size(); if (!s_parse(bl[i]->str(0), e, mode, syms, want)) { v.vacuous = true; v.detail = "not a well-formed stream"; return v; } }
  if (!hang) { SPart x; x.eof = true; want.push_back(x); }
  ProcResult r = c.run(p, d); if (r.infra) return v; c.st.blocks += bl.size();
  std::string b = bad_end(r); if (!b.empty()) return viol("reader-" + b.substr(0,8), b);
  if (!r.ok()) return viol("reader-" + r.status(), "the stream reader fails on a well-formed stream: " + r.status() + " " + show(r.err));
  for (size_t i=0;i<want.size();i++) {
    const SPart& w = want[i]; std::string o = "B" + w.blank + "\1W" + w.wblank; for (size_t k=0;k<w.r.size();k++) o += "\1R" + w.r[k].first + "\2" + w.r[k].second + "\2" + w.sym[k];
    o += "\1C" + w.chunk + "\1" + (w.nul ? "0" : "") + (w.eof ? "E" : "");
    std::string got = i < r.api.size() ? r.api[i] : std::string("(nothing)");
    if (got != o) { auto part = [](const std::string& a, const std::string& b) { size_t k = 0; char f = '-'; while (k < a.size() && k < b.size() && a[k] == b[k]) { if (a[k] == '\1' && k + 1 < a.size()) f = a[k+1]; k++; } return f; };
      return viol(std::string("reader-part"), "part " + S((long)i+1) + " (" + part(o, got) + "): handed over " + show(got) + ", in the stream " + show(o)); }
  }
  if (r.api.size() > want.size()) return viol("reader-extra", "the reader hands over " + S((long)r.api.size()) + " parts of a stream of " + S((long)want.size()));
  c.st.probes["parts compared"] += want.size();
  return v;
}
static Reg c29({"C29","The stream reader hands over every part of a stream exactly once", c29_gen, c29_run, 2000, 80000,
  "One case = requests with blanks, superblanks, word-bound blanks, units with several marked readings, tags, chunks, escapes and letters of one to four bytes, read through the library's stream reader from standard input in arbitrary deliveries or from a file with short reads, with and without an alphabet, ended by a null or by a hang-up.", real_list(), stub_list(),
  {"streams are well formed: units, blanks and chunks are closed"}});
