// Conservation of text and blanks through the stream tools.
#include "props.h"

struct Parsed {                        // a stream taken apart
  std::string text;                    // visible characters outside blanks, white space removed
  std::vector<std::string> sb;         // superblanks in order
  std::vector<std::string> wb;         // wordblanks in order
  std::vector<std::string> lu;         // contents of ^...$
  std::vector<std::string> src;        // first field of each lexical unit
  bool ok = true;
  size_t spaces = 0;
};
static void put(Parsed& p, const std::string& ch)
{
  if (ch == " " || ch == "\n" || ch == "\t" || ch == "\r") { p.spaces++; return; }
  p.text += ch;
}
static size_t u8len(unsigned char c) { return c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : c >= 0xC0 ? 2 : 1; }
// units: whether ^...$ is structure (output of analysis, input of transfer)
static Parsed parse_stream(const std::string& s, bool units)
{
  Parsed p; size_t i = 0;
  auto blank = [&](size_t& i) {        // at '['
    size_t b = i;
    if (i + 1 < s.size() && s[i+1] == '[') { size_t e = i + 2; while (e < s.size()) { if (s[e]=='\\') { e += 2; continue; } if (s[e]==']' && e+1 < s.size() && s[e+1]==']') break; e++; } if (e + 1 >= s.size()) { p.ok = false; i = s.size(); return; } i = e + 2; p.wb.push_back(s.substr(b, i-b)); return; }
    size_t e = i + 1; while (e < s.size() && s[e] != ']') { if (s[e]=='\\') e++; e++; }
    if (e >= s.size()) { p.ok = false; i = s.size(); return; }
    i = e + 1; p.sb.push_back(s.substr(b, i-b));
  };
  while (i < s.size()) {
    char c = s[i];
    if (c == '\\') { if (i + 1 >= s.size()) { p.ok = false; break; } size_t n = u8len(s[i+1]); put(p, s.substr(i+1,n)); i += 1+n; continue; }
    if (c == '[') { blank(i); continue; }
    if (units && c == '^') {
      size_t b = ++i; std::string first; bool infirst = true, closed = false;
      while (i < s.size()) {
        if (s[i]=='\\') { size_t n = i+1 < s.size() ? u8len(s[i+1]) : 0; if (infirst) { first += s.substr(i, 1+n); put(p, s.substr(i+1,n)); } i += 1+n; continue; }
        if (s[i]=='[' && infirst) { size_t z = i; blank(i); first += s.substr(z, i-z); continue; }
        if (s[i]=='$') { closed = true; break; }
        if (s[i]=='/') { infirst = false; i++; continue; }
        size_t n = u8len(s[i]); if (infirst) { first += s.substr(i,n); put(p, s.substr(i,n)); } i += n;
      }
      if (!closed) { p.ok = false; break; }
      p.lu.push_back(s.substr(b, i-b)); p.src.push_back(first); i++;
      continue;
    }
    size_t n = u8len(c); put(p, s.substr(i,n)); i += n;
  }
  return p;
}
static std::string joinv(const std::vector<std::string>& v) { std::string r; for (auto& x : v) { r += x; r += ' '; } return r; }
static std::string without(const std::string& t, const std::vector<std::string>& drop)
{ std::string r; for (size_t i=0;i<t.size();) { size_t n = u8len(t[i]); std::string c = t.substr(i,n); if (std::find(drop.begin(),drop.end(),c) == drop.end()) r += c; i += n; } return r; }

// ---- C05 --------------------------------------------------------------------
static Scenario c05_gen(Rng& r, bool th)
{
  bool nf = r.chance(3,4);
  int md = r.range(0,7); ServerCase c = gen_server(r, "C05", nf, md < 6 ? md % 4 : md == 6 ? 10 : 10);
  add_blocks(r, c, r.range(1,4), th);
  if (r.chance(1,2)) c.s.add("hangup", {S(r.range(0,400))});          // the client goes away after that many units of the last request
  c.s.add("ibuf", {S(r.pick(std::vector<int>{1,5,64,4096}))});
  return c.s;
}
// where may a well-formed request be cut: not inside a blank, an escape or a character
static std::vector<size_t> safe_cuts(const std::string& s)
{
  std::vector<size_t> v; size_t i = 0;
  while (i < s.size()) {
    v.push_back(i);
    if (s[i]=='\\') { i += 1 + (i+1 < s.size() ? u8len(s[i+1]) : 0); continue; }
    if (s[i]=='[') { if (i+1<s.size() && s[i+1]=='[') { size_t e = s.find("]]", i); i = e == std::string::npos ? s.size() : e+2; } else { size_t e = i+1; while (e<s.size() && s[e] != ']') { if (s[e]=='\\') e++; e++; } i = e+1; } continue; }
    if (s[i]=='^') { size_t e = i+1; while (e<s.size() && s[e] != '$') { if (s[e]=='\\') e++; e++; } i = e+1; continue; }
    i += u8len(s[i]);
  }
  v.push_back(s.size()); return v;
}
static Verdict c05_run(const Scenario& s, RunCtx& c)
{
  Verdict v; Prepared p = prepare(s, c); if (!p.ok) { v.vacuous = true; v.detail = p.why; return v; }
  ProcSpec ps = tool_spec(s); ps.ibuf = s.num("ibuf",4096);
  bool nf = false; std::vector<std::string> drop = {"\xc2\xad"}; bool tm = ps.tool == "lt-tmxproc"; if (tm) nf = true;
  for (auto& a : ps.args) { if (a == "-z") nf = true; if (a == "-i") { drop.push_back("-"); drop.push_back("ʼ"); drop.push_back("e"); } }
  std::vector<std::string> bl; for (auto* b : s.all("block")) bl.push_back(b->str(0));
  if (bl.empty()) { v.vacuous = true; return v; }
  if (!nf) { std::string j; for (auto& b : bl) { j += b; j += "\n"; } bl = {j}; }
  bool hang_up = s.one("hangup") != nullptr;
  if (hang_up) { auto cuts = safe_cuts(bl.back()); size_t k = s.num("hangup",0); bl.back() = bl.back().substr(0, cuts[k % cuts.size()]); c.st.fired["client hangs up mid-request"]++; }
  for (size_t i=0;i<bl.size();i++) { ps.input += bl[i]; if (nf && !(hang_up && i + 1 == bl.size())) ps.input += '\0'; }
  ProcResult r = c.run(ps, p.disk); c.st.blocks += bl.size(); if (r.infra) return v;
  std::string b = bad_end(r); if (!b.empty()) return viol("lost-" + b.substr(0,8) + ":" + mode_name(s), b);
  if (r.code != 0) return viol("rejected:" + mode_name(s), "well-formed text rejected: " + r.status() + " " + show(r.err));
  auto fr = split_nul(r.out); if (!nf) fr = {r.out};
  for (size_t i=0;i<bl.size();i++) {
    if (i >= fr.size()) return viol("lost-reply:" + mode_name(s), "no output for request " + S(i+1));
    Parsed in = parse_stream(bl[i], false), out = parse_stream(fr[i], !tm);
    if (tm) { // a translation memory replaces text by [..]: only requests without any match are compared
      if (fr[i] != bl[i]) { bool match = false; for (auto& x : out.sb) if (std::find(in.sb.begin(),in.sb.end(),x) == in.sb.end()) match = true; if (out.sb.size() > in.sb.size()) match = true; if (match) { c.st.probes["translation memory match"]++; continue; } }
    }
    if (!out.ok) return viol("malformed-output:" + mode_name(s), "reply is not a well-formed stream: \"" + show(fr[i]) + "\" for \"" + show(bl[i]) + "\"");
    std::string ti = without(in.text, drop), to = without(out.text, drop);
    if (ti != to) {
      size_t k = 0; while (k < ti.size() && k < to.size() && ti[k]==to[k]) k++; size_t f = k > 15 ? k-15 : 0; while (f && ((unsigned char)ti[f] & 0xC0) == 0x80) f--;
      return viol("text-changed:" + mode_name(s), "text not conserved, from \"" + show(ti.substr(f),80) + "\" to \"" + show(to.substr(f),80) + "\" in request \"" + show(bl[i]) + "\" -> \"" + show(fr[i]) + "\"");
    }
    std::vector<std::string> bi = in.sb, bo = out.sb; bi.insert(bi.end(), in.wb.begin(), in.wb.end()); bo.insert(bo.end(), out.wb.begin(), out.wb.end());
    if (bi != bo) return viol("blanks-changed:" + mode_name(s), "formatting blanks not conserved: sent " + show(joinv(bi)) + "; returned " + show(joinv(bo)) + "; request \"" + show(bl[i]) + "\" -> \"" + show(fr[i]) + "\"");
  }
  return v;
}
static Reg c05({"C05","Analysis never loses, duplicates, invents or reorders text or formatting", c05_gen, c05_run, 4000, 200000,
  "One case = generated dictionary, analysis mode, a history of 1-4 requests (some far longer than the internal lookahead ring) and possibly a client that hangs up inside the last one; recorded replies are taken apart and compared with the requests character by character and blank by blank. Non-trivial: the dictionary compiled and a request was served.", real_list(), stub_list(),
  {"white space may move or change kind (the tools are free to reorder a plain space and a formatting blank)","soft hyphens and characters named in the ignored-characters file are allowed to disappear","the cut of a hang-up is not inside a blank, an escape or a UTF-8 sequence: those are C07"}});

// ---- C06 --------------------------------------------------------------------
static Scenario c06_gen(Rng& r, bool th)
{
  bool nf = r.chance(3,4); static const std::vector<int> ms = {4,5,6,7,8,9,11,12};
  ServerCase c = gen_server(r, "C06", nf, r.pick(ms));
  add_blocks(r, c, r.range(1,4), th);
  if (r.chance(1,2)) c.s.add("hangup", {S(r.range(0,400))});
  c.s.add("ibuf", {S(r.pick(std::vector<int>{1,5,64,4096}))});
  return c.s;
}
static Verdict c06_run(const Scenario& s, RunCtx& c)
{
  Verdict v; Prepared p = prepare(s, c); if (!p.ok) { v.vacuous = true; v.detail = p.why; return v; }
  ProcSpec ps = tool_spec(s); ps.ibuf = s.num("ibuf",4096);
  bool post = false, gen = false, bil = false, osurf = false; for (auto& a : ps.args) { if (a=="-p"||a=="-t"||a=="-x") post = true; if (a=="-g"||a=="-d"||a=="-l"||a=="-m"||a=="-n"||a=="-C") gen = true; if (a=="-b") bil = true; if (a=="-o"||a=="-O") osurf = true; }
  if (bil || osurf) gen = false; bool merge = ps.tool == "lt-merge", unmerge = false; for (auto& a : ps.args) if (a=="-u") unmerge = true;
  std::vector<std::string> bl; for (auto* b : s.all("block")) bl.push_back(b->str(0));
  if (bl.empty()) { v.vacuous = true; return v; }
  bool hang_up = s.one("hangup") != nullptr;
  if (hang_up) { auto cuts = safe_cuts(bl.back()); size_t k = s.num("hangup",0); bl.back() = bl.back().substr(0, cuts[k % cuts.size()]); c.st.fired["client hangs up mid-request"]++; }
  for (size_t i=0;i<bl.size();i++) { ps.input += bl[i]; if (!(hang_up && i + 1 == bl.size())) ps.input += '\0'; }
  ProcResult r = c.run(ps, p.disk); c.st.blocks += bl.size(); if (r.infra) return v;
  std::string b = bad_end(r); if (!b.empty()) return viol("lost-" + b.substr(0,8) + ":" + mode_name(s), b);
  if (r.code != 0) return viol("rejected:" + mode_name(s), "well-formed text rejected: " + r.status() + " " + show(r.err));
  auto fr = split_nul(r.out);
  for (size_t i=0;i<bl.size();i++) {
    if (i >= fr.size()) return viol("lost-reply:" + mode_name(s), "no output for request " + S(i+1));
    Parsed in = parse_stream(bl[i], !post), out = parse_stream(fr[i], bil || osurf || merge);
    if (!out.ok) return viol("malformed-output:" + mode_name(s), "reply is not a well-formed stream: \"" + show(fr[i]) + "\" for \"" + show(bl[i]) + "\"");
    if (in.sb != out.sb) return viol("blanks-changed:" + mode_name(s), "formatting blanks not conserved: sent " + show(joinv(in.sb)) + "; returned " + show(joinv(out.sb)) + "; request \"" + show(bl[i]) + "\" -> \"" + show(fr[i]) + "\"");
    if (bil || osurf) {
      if (in.lu.size() != out.lu.size()) return viol("units-changed:" + mode_name(s), S(in.lu.size()) + " lexical units in, " + S(out.lu.size()) + " out: \"" + show(bl[i]) + "\" -> \"" + show(fr[i]) + "\"");
      if (in.wb != out.wb) return viol("wordblanks-changed:" + mode_name(s), "wordblanks not conserved: sent " + show(joinv(in.wb)) + "; returned " + show(joinv(out.wb)));
      if (bil) for (size_t k=0;k<in.src.size();k++) if (in.src[k] != out.src[k]) return viol("source-changed:" + mode_name(s), "source side of unit " + S(k+1) + " changed from \"" + show(in.src[k]) + "\" to \"" + show(out.src[k]) + "\"");
    }
    if (gen && in.wb != out.wb) return viol("wordblanks-changed:" + mode_name(s), "wordblanks not conserved: sent " + show(joinv(in.wb)) + "; returned " + show(joinv(out.wb)) + "; request \"" + show(bl[i]) + "\" -> \"" + show(fr[i]) + "\"");
    if (merge && !unmerge && in.lu.size() < out.lu.size()) return viol("units-changed:" + mode_name(s), S(in.lu.size()) + " lexical units in, " + S(out.lu.size()) + " out");
  }
  return v;
}
static Reg c06({"C06","Transfer and generation conserve formatting blanks and lexical units", c06_gen, c06_run, 4000, 200000,
  "One case = generated dictionary, a generation, bilingual, postgeneration, transliteration or merge mode, a history of 1-4 requests and possibly a client that hangs up inside the last one; recorded replies are taken apart and their formatting blanks, wordblanks and lexical units compared with the requests. Non-trivial: the dictionary compiled and a request was served.", real_list(), stub_list(),
  {"plain white space may change (postgeneration rewrites it by design)"}});
