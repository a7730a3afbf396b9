// The dictionary tool chain: build histories (with crashes, re-runs and older products in the way)
// against the reference semantics of sources and operations.
#include "props.h"
#include "dix.h"

static std::string xmlq(const std::string& s) { std::string r; for (char c : s) { if (c=='&') r += "&amp;"; else if (c=='<') r += "&lt;"; else if (c=='>') r += "&gt;"; else if (c=='"') r += "&quot;"; else r += c; } return r; }
// ---- sources -------------------------------------------------------------------
struct DixShape { bool bi = false, weights = false, regex = false, attrs = false, odd = false, special = false, groups = false, joins = false, comp = false, sep = false; int pars = 2, entries = 6, sections = 1; std::vector<std::string> L, T; };
static DixShape shape(Rng& r)
{
  DixShape d; d.L = {"a","b"}; if (r.chance(1,2)) d.L.push_back("c"); if (r.chance(1,4)) d.L.push_back("ñ"); if (r.chance(1,5)) d.L.push_back("𐐨"); if (r.chance(1,6)) d.L.push_back("A");
  d.T = {"n","v"}; if (r.chance(1,2)) d.T.push_back("sg"); if (r.chance(1,6)) d.T.push_back("кир");
  d.weights = r.chance(1,3); d.regex = r.chance(1,4); d.attrs = r.chance(1,2); d.odd = r.chance(1,4); d.special = r.chance(1,5); d.groups = r.chance(1,3); d.joins = r.chance(1,3);
  d.pars = r.range(0,4); d.entries = r.range(1, r.chance(1,5) ? 20 : 7); d.sections = r.chance(1,3) ? r.range(2,3) : 1;
  return d;
}
static std::string gtext(Rng& r, const DixShape& d, int lo, int hi)
{
  std::string s = gen_word(r, d.L, lo, hi); if (d.special && r.chance(1,3)) { std::string x(1, "+:*/^$@#~{}[]\\<>-.,&"[r.below(20)]); s = r.chance(1,2) ? x + s : s + x; }
  std::string q = xmlq(s); if (!s.empty() && d.odd && r.chance(1,8)) q += r.chance(1,2) ? "<m/>" : "<b/>" + xmlq(gen_word(r, d.L, 1, 2));
  if (d.sep && r.chance(1,3)) { static const std::vector<std::string> b = {"<d/>","<d/>","<d/>","<d space=\"yes\"/>","<d space=\"no\"/>","<f/>"}; q += r.pick(b); if (r.chance(1,2)) q += xmlq(gen_word(r, d.L, 1, 1)); }
  return q;
}
static std::string gtags(Rng& r, const DixShape& d, int lo, int hi) { std::string s; int n = r.range(lo,hi); for (int i=0;i<n;i++) s += "<s n=\"" + r.pick(d.T) + "\"/>"; return s; }
static std::string gre(Rng& r, const DixShape& d)
{
  auto lit = [&]() { return r.chance(1,8) ? std::string("\\") + "()[]*?+-^|"[r.below(10)] : r.pick(d.L); };
  int k = r.range(0,8);
  switch (k) {
  case 0: return "[ab]+"; case 1: return lit() + "|" + lit() + lit(); case 2: return "(" + lit() + "|" + lit() + ")" + (r.chance(1,2) ? "*" : "?") + lit(); case 3: return "[a-c]" + std::string(r.chance(1,2) ? "?" : "") + lit();
  case 4: return "(" + lit() + lit() + ")+"; case 5: return r.chance(1,3) ? "[^a]" : lit() + "*"; case 6: return lit() + "?" + lit(); case 7: return "(" + lit() + "|(" + lit() + "|" + lit() + lit() + ")+)" + lit(); default: return "[0-2]" + lit() + "+";
  }
}
static std::string gattr(Rng& r, const DixShape& d)
{
  std::string a; if (!d.attrs) { if (d.weights && r.chance(1,2)) a += " w=\"" + S(r.range(-3,8)) + "." + (r.chance(1,2) ? "5" : "25") + "\""; return a; }
  if (r.chance(1,4)) a += r.chance(1,2) ? " r=\"LR\"" : " r=\"RL\""; if (r.chance(1,12)) a += " i=\"yes\""; if (r.chance(1,8)) a += std::string(" alt=\"") + (r.chance(1,3) ? "x y" : r.chance(1,2) ? "x" : "y") + "\"";
  if (r.chance(1,8)) a += std::string(" v=\"") + (r.chance(1,3) ? "x y" : r.chance(1,2) ? "x" : "y") + "\""; if (d.bi && r.chance(1,8)) a += std::string(r.chance(1,2) ? " vl" : " vr") + "=\"" + (r.chance(1,3) ? "x y" : r.chance(1,2) ? "x" : "y") + "\"";
  if (r.chance(1,8)) a += " lm=\"" + r.pick(d.L) + "\""; if (r.chance(1,10)) a += " c=\"note\"";
  if (d.weights && r.chance(1,2)) a += " w=\"" + S(r.range(-3,8)) + "." + (r.chance(1,2) ? "5" : "25") + "\"";
  return a;
}
// lines of a dictionary; every entry may be dropped by the minimiser
static void put_dix(Rng& r, Scenario& s, const std::string& fn, const DixShape& d, std::vector<std::string>* lex = nullptr)
{
  auto F = [&](const std::string& x, bool fixed = true) { s.add("file", {fn, x}, fixed); };
  std::string al; for (auto& l : d.L) al += l; if (r.chance(1,10)) al = "";
  F("<dictionary" + std::string(d.sep ? r.chance(1,2) ? " type=\"separable\"" : " type=\"sequential\"" : "") + "><alphabet>" + al + "</alphabet><sdefs>"); for (auto& t : d.T) F("<sdef n=\"" + t + "\"/>"); if (d.comp) { F("<sdef n=\"compound-only-L\"/>"); F("<sdef n=\"compound-R\"/>"); } F("</sdefs><pardefs>");
  std::vector<std::string> names;
  auto gap = [&]() { return r.chance(1,12) ? std::string("<!-- c -->") : r.chance(1,8) ? std::string("\n  ") : std::string(); };
  auto pair = [&](bool full) { // full: both sides start with text
    std::string l = gtext(r, d, full ? 1 : 0, 3), q;
    if (d.bi) { l += gtags(r,d,0,2); q = gtext(r,d,full ? 1 : 0,3) + gtags(r,d,0,2); }
    else { q = (r.chance(1,2) ? l : gtext(r,d,full ? 1 : 0,2)); if (d.groups && r.chance(1,5)) q += "<g>" + std::string(r.chance(1,2) ? "<b/>" : "") + gtext(r,d,1,2) + "</g>"; q += gtags(r,d,0,2); if (d.joins && r.chance(1,4)) q += "<j/>" + gtext(r,d,1,2) + gtags(r,d,0,2); }
    return "<p><l>" + l + "</l><r>" + q + "</r></p>"; };
  for (int i=0;i<d.pars;i++) {
    std::string n = "p" + S(i); F("<pardef n=\"" + n + "\">"); int ne = r.range(0,3) ? r.range(1,3) : 0;
    for (int j=0;j<ne;j++) {
      std::string e = "<e" + gattr(r,d) + ">"; int nt = r.chance(2,3) ? 1 : r.range(1,3);
      for (int k=0;k<nt;k++) { int q = r.range(0,9); e += gap(); if (q < 5) e += pair(false); else if (q < 7 || names.empty()) e += "<i>" + gtext(r,d,0,2) + (d.sep && r.chance(1,4) ? r.chance(2,3) ? "<t/>" : "<w/>" : "") + "</i>"; else if (q == 7 && d.regex) e += "<re>" + gre(r,d) + "</re>"; else e += "<par n=\"" + r.pick(names) + "\"/>"; }
      F(e + gap() + "</e>", false);
    }
    F("</pardef>"); if (r.chance(1,10)) F("<!-- between -->", false); names.push_back(n);
  }
  F("</pardefs>");
  static const char* TY[] = {"standard","inconditional","postblank"};
  for (int k=0;k<d.sections;k++) {
    F("<section id=\"s" + S(k) + "\" type=\"" + TY[r.below(k ? 3 : 1)] + "\">");
    int ne = k ? r.range(0,4) : d.entries;
    for (int j=0;j<ne;j++) {
      std::string e = "<e" + gattr(r,d) + ">" + gap(); int f = r.range(0,11);
      auto tail = [&](int mx) { for (int q=0;q<r.range(0,mx);q++) { e += gap(); int z = r.range(0,7); if (z < 4 && !names.empty()) e += "<par n=\"" + r.pick(names) + "\"/>"; else if (z == 4) e += pair(false); else if (z == 5 && d.regex) e += "<re>" + gre(r,d) + "</re>"; else if (z == 6 && d.odd) e += "<ig>" + gtext(r,d,1,2) + "</ig>"; else e += "<i>" + gtext(r,d,0,2) + "</i>"; } };
      if (f < 5) { e += pair(true); tail(r.chance(1,3) ? 2 : 0); }
      else if (f < 9) { e += "<i>" + gtext(r,d,1,3) + "</i>"; tail(2); }
      else if (f == 9 && !names.empty()) { e += "<par n=\"" + r.pick(names) + "\"/>"; if (!(d.odd && r.chance(1,5))) e += "<i>" + gtext(r,d,1,2) + "</i>"; tail(1); }
      else if (f == 10 && d.regex) { e += "<re>" + gre(r,d) + "</re>"; if (r.chance(1,2)) e += pair(true); tail(1); }
      else { e += "<i>" + gtext(r, d, d.odd && r.chance(1,6) ? 0 : 1, 3) + "</i>"; tail(1); }
      F(e + gap() + "</e>", false);
    }
    F("</section>");
  }
  F("</dictionary>");
}
static std::string gatt(Rng& r)
{
  static const std::vector<std::string> Y = {"a","b","c","ñ","𐐨",".",",","-","@_SPACE_@","<n>","<v>","ab","@0@","@0@","ε","́"};
  std::string o; int parts = r.chance(1,3) ? 2 : 1; bool w = r.chance(1,2), loop = r.chance(1,6);
  for (int p=0;p<parts;p++) {
    if (p) o += "--\n"; int n = r.range(2,7); std::vector<int> id; for (int i=0;i<n;i++) id.push_back(i); if (r.chance(1,3)) for (int i=1;i<n;i++) std::swap(id[i], id[r.range(1,i)]);
    auto W = [&]() { return w && r.chance(1,2) ? std::string("\t") + (r.chance(1,5) ? "-" : "") + S(r.range(0,9)) + "." + (r.chance(1,2) ? "500000" : "25") : std::string(); };
    std::vector<std::string> lines; int ne = r.range(n-1, 2*n);
    static const std::vector<std::string> H = {"a","b",".","c",",","ñ"};
    lines.push_back(S(id[0]) + "\t" + S(id[1]) + "\t" + r.pick(H) + "\t" + r.pick(Y) + W());
    for (int i=0;i<ne;i++) { int a = i < n-1 ? r.range(0,i) : r.range(0,n-2), b = i < n-1 ? i+1 : r.range(a+1,n-1); if (loop && r.chance(1,8) && a > 0) b = a; std::string x = a == 0 || b == a ? r.pick(H) : r.pick(Y); lines.push_back(S(id[a]) + "\t" + S(id[b]) + "\t" + x + "\t" + r.pick(Y) + W()); }
    for (size_t i=2;i<lines.size();i++) if (r.chance(1,2)) std::swap(lines[i], lines[r.range(1,i)]);
    std::vector<std::string> fin = {S(id[n-1]) + (r.chance(1,2) ? W() : "")}; if (r.chance(1,3) && n > 3) fin.push_back(S(id[n-2]) + W());
    for (size_t i=0;i<lines.size();i++) { if (i && !fin.empty() && r.chance(1,6)) { o += fin.back() + "\n"; fin.pop_back(); } o += lines[i] + "\n"; } for (auto& f : fin) o += f + "\n";
  }
  return o;
}
static std::string gacx(Rng& r, const DixShape& d)
{
  std::string o = "<?xml version=\"1.0\"?>\n<analysis-chars>"; int n = r.range(1,2); static const std::vector<std::string> Q = {"x","b","c","ñ","𐐨","'"};
  for (int i=0;i<n && i<(int)d.L.size();i++) { o += "<char value=\"" + d.L[i] + "\">"; for (int j=0;j<r.range(1,2);j++) o += "<equiv-char value=\"" + r.pick(Q) + "\"/>"; o += "</char>"; }
  return o + "</analysis-chars>";
}
// ---- engine --------------------------------------------------------------------
struct Exp { enum { OK, FAIL, ANY } e = ANY; bool have = false; MDict m; bool sections = true, strip = false; std::string note; };
struct World { std::map<std::string,MDict> m; std::map<std::string,std::string> unified; std::map<std::string,bool> ukeep; };
struct Cmd { std::string tool; std::map<std::string,std::vector<std::string>> opt; std::set<std::string> flag; std::vector<std::string> f; };
static Cmd parse_cmd(const Line& l)
{
  Cmd c; c.tool = l.str(0); static const std::map<std::string,std::string> V = {{"lt-comp","valr"},{"lt-expand","valr"},{"lt-restrict","valr"},{"lt-trim","s"}}; auto vi = V.find(c.tool);
  for (size_t i=1;i<l.t.size();i++) { const std::string& a = l.t[i]; if (a.size() == 2 && a[0] == '-') { if (vi != V.end() && vi->second.find(a[1]) != std::string::npos && i+1 < l.t.size()) c.opt[a].push_back(l.t[++i]); else c.flag.insert(a); } else c.f.push_back(a); }
  return c;
}
static DixOpt dix_opt(const Cmd& c) { DixOpt o; auto g = [&](const char* k) { auto i = c.opt.find(k); return i == c.opt.end() ? std::string() : i->second[0]; }; o.var = g("-v"); o.alt = g("-a"); o.vl = g("-l"); o.vr = g("-r"); o.keep = c.flag.count("-m") && c.tool != "lt-restrict"; return o; }
static void cut(MDict& m, int K) { m.K = std::min(m.K, K); for (auto& s : m.sec) for (auto i = s.second.begin(); i != s.second.end();) { if ((int)i->first.first.size() > m.K || (int)i->first.second.size() > m.K) i = s.second.erase(i); else ++i; } }
static Exp expect(const Cmd& c, const Disk& d, World& w)
{
  Exp x; auto src = [&](size_t i) { auto k = i < c.f.size() ? d.find(c.f[i]) : d.end(); return k == d.end() ? std::string() : k->second; }; auto mod = [&](size_t i) -> MDict* { auto k = i < c.f.size() ? w.m.find(c.f[i]) : w.m.end(); return k == w.m.end() || k->second.over ? nullptr : &k->second; };
  if (c.tool == "lt-comp" && c.f.size() >= 3) {
    std::string t = src(1); if (t.empty()) return x;
    if (t[0] != '<') { bool loop = false; x.m = att_model(t, c.f[0] == "rl", !c.flag.count("-S"), 1000); (void)loop; if (x.m.over) { x.m = att_model(t, c.f[0] == "rl", !c.flag.count("-S"), 9); x.m.K = 9; } if (x.m.over) return x; x.have = true; x.e = Exp::OK; for (auto& s : x.m.sec) for (auto& p : s.second) if (p.first.first.empty()) { x.e = Exp::ANY; x.have = false; } return x; }
    DixOpt o = dix_opt(c); o.dir = c.f[0]; if (c.f.size() > 3) o.acx = acx_table(src(3)); if (o.dir == "rl") o.acx.clear();
    if (o.dir == "u") { w.unified[c.f[2]] = t; w.ukeep[c.f[2]] = o.keep; return x; }
    x.m = dix_model(t, o, dix_loops(t) ? 6 : 1000); if (x.m.over) return x; x.have = true; x.strip = true; x.e = Exp::OK;
    if (x.m.K < 1000 && (t.find("<b/>") != std::string::npos || t.find("> ") != std::string::npos || t.find("[^") != std::string::npos)) x.e = Exp::ANY;   // longer forms may begin with a blank
    for (auto& s : x.m.sec) for (auto& p : s.second) if (p.first.first.empty() || p.first.first[0] == U' ') { x.e = Exp::FAIL; x.note = "an entry with an empty " + std::string("left side or one that begins with a blank"); }
    return x;
  }
  if (c.tool == "lt-expand" && !src(0).empty() && src(0)[0] == '<') { x.e = Exp::OK; return x; }
  if (c.tool == "lt-invert" && mod(0)) { x.m = op_invert(*mod(0)); x.have = true; x.e = Exp::OK; return x; }
  if (c.tool == "lt-append" && mod(0) && mod(0)->K < 1000 && c.flag.count("-k")) return x;   // which sections there are is not known
  if (c.tool == "lt-append" && mod(0) && mod(1)) { x.m = op_append(*mod(0), *mod(1), c.flag.count("-k")); cut(x.m, x.m.K); x.have = true; x.e = Exp::OK; return x; }
  if (c.tool == "lt-apply-acx" && mod(0)) { x.m = op_acx(*mod(0), acx_table(src(1))); x.have = !x.m.over; if (x.have) x.e = Exp::OK; return x; }
  if (c.tool == "lt-compose" && mod(0) && mod(1) && mod(0)->K >= 1000 && mod(1)->K >= 1000) { x.m = c.flag.count("-a") ? op_compose_anywhere(*mod(0), *mod(1), c.flag.count("-i")) : op_compose(*mod(0), *mod(1), c.flag.count("-i")); if (x.m.over) { x.m = MDict(); x.m.over = true; return x; } x.have = true; x.e = x.m.sec.empty() ? Exp::FAIL : Exp::OK; x.note = "an empty composition"; return x; }
  if (c.tool == "lt-restrict" && c.f.size() >= 3 && w.unified.count(c.f[1])) { DixOpt o = dix_opt(c); o.dir = c.f[0]; o.keep = w.ukeep[c.f[1]]; const std::string& t = w.unified[c.f[1]]; x.m = dix_model(t, o, dix_loops(t) ? 6 : 1000); if (!x.m.over) { x.have = true; x.strip = true; x.e = Exp::OK; } return x; }
  return x;
}
static std::string out_of(const Cmd& c) { if (c.tool == "lt-comp") return c.f.size() > 2 ? c.f[2] : ""; return c.f.empty() ? "" : c.f.back(); }
static std::vector<std::string> lines_of(const std::string& b) { std::vector<std::string> v; std::string c; for (char x : b) { if (x == '\n') { v.push_back(c); c.clear(); } else c += x; } if (!c.empty()) v.push_back(c); std::sort(v.begin(), v.end()); return v; }

// the source side of what a section is trimmed against
static std::set<Sym> trim_bi(const MDict& b, const std::set<std::string>& ms, const std::string& sec)
{
  std::set<Sym> bi; auto i = b.sec.find(sec);
  if (ms.count(sec) && i != b.sec.end()) { for (auto& p : i->second) bi.insert(p.first.first); } else for (auto& q : b.sec) if (!ms.count(q.first)) for (auto& p : q.second) bi.insert(p.first.first);
  return bi;
}
static Verdict tools_run(const Scenario& s, RunCtx& c)
{
  Verdict v; Disk d; for (auto& l : s.l) if (l.key == "file") d[l.str(0)] += l.str(1) + "\n";
  std::vector<int> rs; for (auto* l : s.all("fread")) rs.push_back((int)l->num(0,1));
  for (auto* l : s.all("old")) { Rng r(l->num(1)); Bytes b; for (long i=0;i<l->num(2);i++) b += (char)r.next(); d[l->str(0)] = b; }
  World w; size_t compared = 0, idx = 0; std::vector<const Line*> crash = s.all("crash");
  for (auto* st : s.all("step")) {
    Cmd k = parse_cmd(*st); std::string out = out_of(k); size_t me = idx++;
    ProcSpec ps; ps.tool = k.tool; ps.args.assign(st->t.begin()+1, st->t.end()); ps.file_read_sizes = rs; for (auto* e : s.all("env")) ps.env.push_back({e->str(0), e->str(1)});
    for (auto* cr : crash) if ((size_t)cr->num(0) == me && !out.empty()) {   // the machine goes down while this command writes; the command is given again afterwards
      ProcSpec p2 = ps; Fault f; f.file = out; f.op = F_CRASH; f.pos = cr->num(1); p2.faults.push_back(f); ProcResult r = c.run(p2, d); if (r.infra) return v; if (r.crashed) { d = r.disk; c.st.probes["builds repeated after a crash"]++; } }
    Exp x = expect(k, d, w); ProcResult r = c.run(ps, d); if (r.infra) return v; c.st.blocks++;
    std::string who = k.tool; for (auto& a : ps.args) who += " " + a;
    if (r.sig || r.hang || r.runaway || r.misuse) return viol("tool-" + r.status().substr(0,8) + ":" + k.tool, who + ": " + r.status() + " " + show(r.err));
    if (x.e == Exp::FAIL && r.ok()) return viol("accepted:" + k.tool, who + " succeeded although it should refuse " + x.note);
    if (x.e == Exp::OK && !r.ok()) return viol("refused:" + k.tool, who + " failed (" + r.status() + "): " + show(r.err));
    if (k.tool == "lt-trim" && k.f.size() == 3 && !r.ok()) {   // may only refuse when nothing would be left
      auto a = w.m.find(k.f[0]), b = w.m.find(k.f[1]); RefDict md; std::string why;
      if (a != w.m.end() && b != w.m.end() && !a->second.over && !b->second.over && b->second.K >= 1000 && ref_decode(d[k.f[0]], md, why)) {
        std::set<char32_t> tags; for (auto& p : md.pairs) if (p.second < 0) tags.insert(tag_code(md.tags[-p.second-1])); std::set<std::string> ms; if (k.opt.count("-s")) for (auto& q : k.opt["-s"]) ms.insert(q);
        for (auto& sec : a->second.sec) { std::set<Sym> bi = trim_bi(b->second, ms, sec.first); for (auto& p : sec.second) if (trim_rule(p.first.second, bi, tags) > 0) return viol("refused:lt-trim", who + " failed (" + r.status() + ") although " + sym_text(p.first.second) + " should be left: " + show(r.err)); }
      }
    }
    if (!r.ok()) { if (x.e == Exp::FAIL) { compared++; c.st.probes["refusals"]++; } break; }   // a build stops at the first command that fails
    d = r.disk; w.m.erase(out);
    auto bad = [&](const std::string& e) { std::string cls = e.substr(0, e.find_first_of(" :")); return viol(cls + ":" + k.tool, who + ": " + e); };
    if (k.tool == "lt-expand" && k.f.size() == 2) {
      bool over = false; DixOpt o = dix_opt(k); auto want = dix_expand(d[k.f[0]], o, over); if (over || d[k.f[0]].find(" v=\"") != std::string::npos || d[k.f[0]].find(" vl=\"") != std::string::npos || d[k.f[0]].find(" vr=\"") != std::string::npos) continue;
      auto got = lines_of(d[out]); compared++; c.st.probes["expanded forms compared"] += want.size();
      std::vector<std::string> a, b; std::set_difference(want.begin(),want.end(),got.begin(),got.end(),std::back_inserter(a)); std::set_difference(got.begin(),got.end(),want.begin(),want.end(),std::back_inserter(b));
      if (!a.empty()) return bad("missing line " + a[0] + (b.empty() ? "" : " (found " + b[0] + ")")); if (!b.empty()) return bad("extra line " + b[0]);
      continue;
    }
    if (k.tool == "lt-print" && k.f.size() == 2) {
      auto it = w.m.find(k.f[0]); if (it == w.m.end() || it->second.over) continue; if (k.flag.count("-a")) continue;
      MDict g = att_model(d[out], false, false, it->second.K); if (g.over) continue; compared++; c.st.probes["printed forms compared"] += rel_union(it->second).size();
      std::string e = dict_diff(it->second, g, false, it->second.weights); if (!e.empty()) return bad(e);
      continue;
    }
    if (k.tool == "lt-trim" && k.f.size() == 3) {
      auto a = w.m.find(k.f[0]), b = w.m.find(k.f[1]); if (a == w.m.end() || b == w.m.end() || a->second.over || b->second.over || b->second.K < 1000) continue;
      MDict g; std::string why; if (!bin_model(d[out], a->second.K, g, why)) return bad("unreadable product: " + why); if (g.over) continue; compared++;
      RefDict md; if (!ref_decode(d[k.f[0]], md, why)) continue; std::set<char32_t> tags; for (auto& p : md.pairs) if (p.second < 0) tags.insert(tag_code(md.tags[-p.second-1]));
      std::set<std::string> ms; if (k.opt.count("-s")) for (auto& q : k.opt["-s"]) ms.insert(q);
      for (auto& sec : a->second.sec) {
        std::set<Sym> bi = trim_bi(b->second, ms, sec.first);
        const Rel none; auto gi = g.sec.find(sec.first); const Rel& G = gi == g.sec.end() ? none : gi->second;
        for (auto& p : sec.second) { int z = trim_rule(p.first.second, bi, tags); c.st.probes[z > 0 ? "trim: kept" : z < 0 ? "trim: dropped" : "trim: unspecified"]++; bool in = G.count(p.first); if (z > 0 && !in) return bad("missing " + sym_text(p.first.first) + ":" + sym_text(p.first.second) + " although every unit of it is in the bilingual dictionary"); if (z < 0 && in) return bad("extra " + sym_text(p.first.first) + ":" + sym_text(p.first.second) + " although it is not in the bilingual dictionary"); }
        for (auto& p : G) if (!sec.second.count(p.first)) return bad("invented " + sym_text(p.first.first) + ":" + sym_text(p.first.second));
      }
      for (auto& q : g.sec) if (!a->second.sec.count(q.first)) return bad("invented section " + q.first);
      g.weights = false; w.m[out] = g; continue;
    }
    if (!x.have) { continue; }
    MDict g; std::string why; if (!bin_model(d[out], x.m.K, g, why)) return bad("unreadable product: " + why);
    if (g.over) { c.st.probes["outside the model"]++; continue; }
    if (x.strip) { MDict q = g; q.sec.clear(); for (auto& z : g.sec) { std::string n = z.first; while (!n.empty() && n[0] == '+') n = n.substr(1); auto& t = q.sec[n]; for (auto& p : z.second) { auto i = t.find(p.first); if (i == t.end() || p.second < i->second) t[p.first] = p.second; } } g = q; }
    compared++; c.st.probes["forms compared"] += rel_union(x.m).size(); if (x.m.weights) for (auto& q : x.m.sec) for (auto& p : q.second) if (p.second != 0) { c.st.probes["dictionaries with weights compared"]++; break; }
    std::string e = dict_diff(x.m, g, x.sections, x.m.weights); if (!e.empty()) return bad(e);
    std::string src0 = k.f.size() > 1 && k.tool == "lt-comp" ? d[k.f[1]] : ""; if (!(k.tool == "lt-comp" && (src0.empty() || src0[0] != '<')) && x.m.letters != g.letters) return bad("alphabet differs");
    w.m[out] = x.m; if (k.tool == "lt-comp" && !src0.empty() && src0[0] != '<') w.m[out].letters = g.letters;
  }
  if (!compared) v.vacuous = true;
  return v;
}
static std::vector<std::string> comp_opts(Rng& r, const DixShape& d, const std::string& dir)
{
  std::vector<std::string> o; if (d.attrs) { static const std::vector<std::string> V = {"x","y","z"}; if (r.chance(1,3)) { o.push_back("-v"); o.push_back(r.pick(V)); } if (r.chance(1,3)) { o.push_back("-a"); o.push_back(r.pick(V)); } if (d.bi && r.chance(1,2)) { o.push_back(dir == "lr" ? "-r" : "-l"); o.push_back(r.pick(V)); } }
  return o;
}
static void disturb(Rng& r, Scenario& s, int steps, const std::vector<std::string>& outs)
{
  if (r.chance(1,3)) for (int i=0;i<r.range(1,3);i++) s.add("fread", {S(r.range(1,60))});
  if (r.chance(1,3)) for (int i=0;i<r.range(1,2);i++) s.add("crash", {S(r.below(steps)), S(r.chance(1,4) ? 0 : r.range(1,400))});
  if (r.chance(1,3)) s.add("old", {r.pick(outs), S(r.range(1,1000)), S(r.range(0,3000))});
}
// ---- C20 -----------------------------------------------------------------------
static Scenario c20_gen(Rng& r, bool th)
{
  Scenario s; s.prop = "C20"; std::vector<std::string> outs; int n = 0; std::string dir = r.chance(2,3) ? "lr" : "rl";
  auto step = [&](std::vector<std::string> t) { outs.push_back(t.back().find(".acx") != std::string::npos ? t[t.size()-2] : t.back()); s.add("step", std::move(t)); n++; };
  if (r.chance(1,5)) {
    s.add("file", {"d.att", gatt(r)}); std::vector<std::string> t = {"lt-comp"}; if (r.chance(1,3)) t.push_back("-S"); t.insert(t.end(), {dir,"d.att","d.bin"}); step(t);
  } else {
    DixShape d = shape(r); if (th && r.chance(1,6)) d.entries += 20; d.bi = r.chance(1,4); d.sep = r.chance(1,5); put_dix(r, s, "d.dix", d);
    auto o = comp_opts(r, d, dir); std::vector<std::string> t = {"lt-comp"}; bool keep = r.chance(1,4); if (keep) t.push_back("-m"); t.insert(t.end(), o.begin(), o.end()); t.insert(t.end(), {dir,"d.dix","d.bin"});
    if (r.chance(1,5)) { s.add("file", {"x.acx", gacx(r,d)}, true); t.push_back("x.acx"); }
    step(t); if (r.chance(1,8)) s.add("env", {"LT_MAX_SECTION_ENTRIES", S(r.range(1,4))});
    if (!d.sep && r.chance(1,2)) { std::vector<std::string> e = {"lt-expand"}; if (keep) e.push_back("-m"); for (size_t i=0;i+1<o.size();i+=2) if (o[i] == "-a") { e.push_back(o[i]); e.push_back(o[i+1]); } e.insert(e.end(), {"d.dix","d.exp"}); step(e); }
    if (r.chance(1,4)) { std::vector<std::string> u = {"lt-comp"}; if (keep) u.push_back("-m"); u.insert(u.end(), {"u","d.dix","u.bin"}); step(u); std::vector<std::string> q = {"lt-restrict"}; if (r.chance(1,2)) q.push_back("-m"); q.insert(q.end(), o.begin(), o.end()); q.insert(q.end(), {dir,"u.bin","r.bin"}); step(q); }
  }
  if (r.chance(1,2)) { bool h = r.chance(1,4); std::vector<std::string> p = {"lt-print"}; if (h) p.push_back("-H"); p.insert(p.end(), {"d.bin","d.txt"}); step(p); std::vector<std::string> q = {"lt-comp"}; if (h) q.push_back("-H"); if (r.chance(1,3)) q.push_back("-S"); q.insert(q.end(), {r.chance(3,4) ? "lr" : "rl","d.txt","e.bin"}); step(q); }
  disturb(r, s, n, outs);
  return s;
}
static Reg R20({"C20", "A compiled dictionary means what its source says", c20_gen, tools_run, 2200, 200000,
  "One case = a generated dictionary (XML with paradigms, regular expressions, directions, variants, weights; or AT&T) put through a history of lt-comp, lt-expand, lt-print, unified compilation and lt-restrict on a simulated disk, with crashes in the middle of writing followed by the same command again, older files in the way and short reads. Every product is decoded independently and compared with the relation the source denotes. Non-trivial: at least one product was compared.", real_list(), stub_list(),
  {"dictionaries with loops are compared up to a length of 6 symbols per side (AT&T: 9)", "weights are compared when every weighted entry has exactly one non-empty pair", "lt-expand is compared for sources without variants (v, vl, vr)"}});
// ---- C23 -----------------------------------------------------------------------
static Scenario c23_gen(Rng& r, bool th)
{
  Scenario s; s.prop = "C23"; std::vector<std::string> outs; int n = 0; (void)th;
  auto step = [&](std::vector<std::string> t) { outs.push_back(t.back()); s.add("step", std::move(t)); n++; };
  DixShape d = shape(r); d.attrs = r.chance(1,5); d.odd = false; if (!r.chance(1,4)) d.regex = false; int kind = r.range(0,5);
  if (kind == 0 || kind == 1) { // trimming: the bilingual dictionary knows some of the lexical forms
    d.special = false; d.comp = r.chance(1,4); s.l.clear();
    auto F = [&](const std::string& f, const std::string& x, bool fixed = true) { s.add("file", {f, x}, fixed); };
    std::string sd; for (auto& t : d.T) sd += "<sdef n=\"" + t + "\"/>"; if (d.comp) sd += "<sdef n=\"compound-only-L\"/><sdef n=\"compound-R\"/>";
    F("d.dix", "<dictionary><alphabet>abc</alphabet><sdefs>" + sd + "</sdefs><section id=\"main\" type=\"standard\">"); F("e.dix", "<dictionary><alphabet/><sdefs>" + sd + "</sdefs><section id=\"main\" type=\"standard\">", true);
    std::vector<std::pair<std::string,std::string>> units; int nu = r.range(2,6); for (int i=0;i<nu;i++) units.push_back({gen_word(r,d.L,1,3), gtags(r,d,1,2)});
    if (r.chance(1,2)) { size_t k = 1; while (k < units[0].first.size() && (units[0].first[k] & 0xc0) == 0x80) k++; std::string u0 = units[0].first.substr(0,k); units.push_back({u0, units[0].second}); }
    auto grp = [&]() { return d.groups && r.chance(1,3) ? "<g><b/>" + r.pick(d.L) + "</g>" : std::string(); };
    int ne = r.range(1,8);
    for (int i=0;i<ne;i++) { int np = d.joins && r.chance(1,2) ? r.range(1,3) : 1; std::string q; bool g = false; for (int j=0;j<np;j++) { auto& u = r.pick(units); if (j) q += "<j/>"; q += u.first + u.second + gtags(r,d,0,1); } if (np == 1) { std::string x = grp(); q += x; g = !x.empty(); } (void)g; if (d.comp && r.chance(1,3)) q += r.chance(1,2) ? "<s n=\"compound-R\"/>" : "<s n=\"compound-only-L\"/>";
      std::string w = d.weights && r.chance(1,2) ? " w=\"" + S(r.range(1,5)) + ".5\"" : ""; F("d.dix", "<e" + w + "><p><l>" + gen_word(r,d.L,1,4) + "</l><r>" + q + "</r></p></e>", false); }
    if (r.chance(1,3)) { F("d.dix", "</section><section id=\"fin\" type=\"inconditional\">"); for (int i=0;i<r.range(1,3);i++) { auto& u = r.pick(units); F("d.dix", "<e><p><l>" + gen_word(r,d.L,1,2) + "</l><r>" + u.first + u.second + "</r></p></e>", false); } }
    bool sec2 = r.chance(1,3);
    for (auto& u : units) if (r.chance(2,3)) F("e.dix", "<e><p><l>" + u.first + grp() + u.second + (r.chance(1,6) ? gtags(r,d,1,1) : "") + "</l><r>" + gen_word(r,d.L,1,2) + u.second + "</r></p></e>", false);
    if (sec2) { F("e.dix", "</section><section id=\"" + std::string(r.chance(1,2) ? "fin" : "o") + "\" type=\"inconditional\">"); for (auto& u : units) if (r.chance(1,3)) F("e.dix", "<e><p><l>" + u.first + u.second + "</l><r>" + u.first + u.second + "</r></p></e>", false); }
    F("d.dix", "</section></dictionary>"); F("e.dix", "</section></dictionary>");
    step({"lt-comp","lr","d.dix","d.bin"}); step({"lt-comp","lr","e.dix","e.bin"}); std::vector<std::string> t = {"lt-trim"}; if (r.chance(1,4)) { t.push_back("-s"); t.push_back(r.chance(1,2) ? "fin@inconditional" : "main@standard"); } t.insert(t.end(), {"d.bin","e.bin","t.bin"}); step(t);
    if (r.chance(1,3)) step({"lt-invert","t.bin","i.bin"});
  } else {
    bool att = r.chance(1,6); if (att) s.add("file", {"d.att", gatt(r)}); else put_dix(r, s, "d.dix", d); DixShape e = d; e.entries = r.range(1,6); e.bi = r.chance(1,2); std::string D = r.chance(2,3) ? "lr" : "rl";
    if (att) step({"lt-comp","-S",D,"d.att","d.bin"}); else step({"lt-comp",D,"d.dix","d.bin"});
    if (kind == 2 || kind == 3) { // composition with a dictionary that maps some of its forms
      s.add("file", {"e.dix", "<dictionary><alphabet/><sdefs>"}, true); for (auto& t : d.T) s.add("file", {"e.dix", "<sdef n=\"" + t + "\"/>"}, true); s.add("file", {"e.dix", "</sdefs><section id=\"main\" type=\"standard\">"}, true);
      // take sides of the entries of the first dictionary
      std::vector<std::string> sides; for (auto& l : s.l) if (l.key == "file" && l.str(0) == "d.dix" && l.str(1).compare(0,2,"<e") == 0) { for (const char* tg : {"l","r","i"}) { std::string o = std::string("<") + tg + ">", z = std::string("</") + tg + ">"; size_t p = l.str(1).find(o); if (p != std::string::npos) { size_t q = l.str(1).find(z, p); if (q != std::string::npos) sides.push_back(l.str(1).substr(p+3, q-p-3)); } } }
      bool any = r.chance(1,3); if (any) { int k = r.range(1,3); for (int i=0;i<k;i++) s.add("file", {"e.dix", "<e" + std::string(d.weights && r.chance(1,3) ? " w=\"0.5\"" : "") + "><p><l>" + gtext(r,d,1,2) + (r.chance(1,3) ? gtags(r,d,1,1) : "") + "</l><r>" + gtext(r,d,1,2) + "</r></p></e>"}); }
      for (auto& x : sides) if (r.chance(any ? 1 : 2,3)) s.add("file", {"e.dix", "<e" + std::string(d.weights && r.chance(1,3) ? " w=\"1.5\"" : "") + "><p><l>" + x + "</l><r>" + gtext(r,d,1,2) + gtags(r,d,0,2) + "</r></p></e>"});
      if (!d.T.empty() && r.chance(1,3) && !sides.empty()) s.add("file", {"e.dix", "<e><p><l>" + r.pick(sides) + gtags(r,d,1,1) + "</l><r>" + gtext(r,d,1,2) + "</r></p></e>"});
      s.add("file", {"e.dix", "</section></dictionary>"}, true); step({"lt-comp","lr","e.dix","e.bin"});
      std::vector<std::string> t = {"lt-compose"}; if (r.chance(1,2)) t.push_back("-i"); if (any) t.push_back("-a"); t.insert(t.end(), {"d.bin","e.bin","c.bin"}); step(t);
      if (r.chance(1,3)) step({"lt-invert","c.bin","x.bin"});
    } else {
      put_dix(r, s, "e.dix", e); step({"lt-comp","lr","e.dix","e.bin"}); std::vector<std::string> have = {"d.bin","e.bin"}; s.add("file", {"x.acx", gacx(r,d)}, true);
      int k = r.range(1,4); for (int i=0;i<k;i++) { std::string o = "o" + S(i) + ".bin"; int q = r.range(0,6); std::vector<std::string> t; if (q < 2) t = {"lt-invert", r.pick(have), o}; else if (q < 5) { t = {"lt-append"}; if (r.chance(1,2)) t.push_back("-k"); t.insert(t.end(), {r.pick(have), r.pick(have), o}); } else t = {"lt-apply-acx", r.pick(have), "x.acx", o}; step(t); have.push_back(o); }
      if (r.chance(1,3)) step({"lt-print", have.back(), "p.txt"});
    }
  }
  disturb(r, s, n, outs);
  return s;
}
static Reg R23({"C23", "Operations on dictionaries compute the documented relation", c23_gen, tools_run, 2200, 200000,
  "One case = two generated dictionaries compiled and put through a history of 1-5 operations (lt-invert, lt-append with and without -k, lt-apply-acx, lt-compose with and without -i, lt-trim with and without -s, lt-print) on a simulated disk, with crashes in the middle of writing followed by the same command again, older files in the way and short reads. Every product is decoded independently and compared with the operation applied to finite relations. Non-trivial: at least one product was compared.", real_list(), stub_list(),
  {"for lt-trim, analyses with both a join and a group, and joins whose first part is only a prefix of a bilingual entry, are not judged", "composition and the bilingual side of trimming are judged for dictionaries without loops"}});
