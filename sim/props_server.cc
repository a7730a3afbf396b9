// The long-lived stream server (lt-proc -z and friends): promptness, isolation,
// delivery independence, exactly-once replies.
#include "gen.h"
#include "props.h"

Bytes join_blocks(const Scenario& s)
{
  Bytes in; for (auto* b : s.all("block")) { in += b->str(0); in += '\0'; } return in;
}
int block_size(Rng& r, bool thorough)
{
  int q = r.range(0,39);
  if (q == 0) return r.range(300, thorough ? 2500 : 900);
  if (q < 4) return r.range(30, 150);
  if (q < 8) return 0;
  return r.range(1, 9);
}
void add_blocks(Rng& r, ServerCase& c, int n, bool thorough)
{
  for (int i=0;i<n;i++) c.s.add("block", {gen_block(r, c.kind, c.d, block_size(r,thorough), c.flags)});
}
static void add_delivery(Rng& r, Scenario& s)
{
  static const std::vector<int> bufs = {1,2,3,7,16,64,512,4096,65536};
  s.add("ibuf", {S(r.pick(bufs))}); s.add("obuf", {S(r.pick(bufs))});
}
std::string bad_end(const ProcResult& r)
{ // an ending that no property about delivered replies allows
  if (r.hang) return "hang"; if (r.runaway) return "runaway"; if (r.misuse) return "memory misuse: " + r.race_text; if (r.deadlock) return "deadlock";
  if (r.sig) return "signal " + S(r.sig);
  return "";
}
static std::string tool_name(const Scenario& s) { auto* t = s.one("tool"); std::string m; if (t) { m = t->str(0); for (size_t i=1;i<t->t.size();i++) if (t->t[i].size() == 2 && t->t[i][0]=='-' && strchr("gdlmnCboOptxeau", t->t[i][1])) m += t->t[i]; } return m; }
std::string mode_name(const Scenario& s) { return tool_name(s); }
const std::vector<std::string>& real_list() { static const std::vector<std::string> v = {"every lttoolbox source file, compiled from /repo (tools run through their own main())","ICU","libxml2","glibc stdio buffering"}; return v; }
const std::vector<std::string>& stub_list() { static const std::vector<std::string> v = {"stdin/stdout/stderr (simulated streams)","file system (simulated disk)","operator new (simulated heap)","the client of the stream (simulated)"}; return v; }



// ---- C01 --------------------------------------------------------------------
static Scenario c01_gen(Rng& r, bool th)
{
  ServerCase c = gen_server(r, "C01", true); add_delivery(r, c.s);
  add_blocks(r, c, r.range(1, th ? 10 : 5), th);
  // explicit interleaving of client sends: each request is cut at seeded places, the first piece of
  // request k+1 leaves the client only after reply k arrived
  for (int i=0;i<r.range(0,4);i++) c.s.add("cut", {S(r.range(0,7)), S(r.range(1,60))});
  return c.s;
}
static Verdict c01_run(const Scenario& s, RunCtx& c)
{
  Verdict v; Prepared p = prepare(s, c); if (!p.ok) { v.vacuous = true; v.detail = p.why; return v; }
  ProcSpec ps = tool_spec(s); ps.ibuf = s.num("ibuf",4096); ps.obuf = s.num("obuf",4096);
  auto bl = s.all("block"); if (bl.empty()) { v.vacuous = true; return v; }
  for (size_t i=0;i<bl.size();i++) {
    size_t n = bl[i]->str(0).size() + 1; ps.input += bl[i]->str(0); ps.input += '\0';
    std::vector<size_t> cuts; for (auto* q : s.all("cut")) if ((size_t)q->num(0) == i && (size_t)q->num(1) < n) cuts.push_back(q->num(1));
    std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
    size_t at = 0; bool first = true;
    cuts.push_back(n);
    for (size_t q : cuts) { ps.chunks.push_back({q - at, first ? (int)i : -1}); at = q; first = false; }
  }
  ProcResult r = c.run(ps, p.disk); c.st.blocks += bl.size();
  if (r.infra) return v;
  if (r.deadlock) {
    size_t got = std::count(r.out.begin(), r.out.end(), '\0');
    return viol("no-reply:" + mode_name(s), "request " + S(got+1) + " of " + S(bl.size()) + " was delivered completely (terminating NUL included) but the tool asked for more input before its reply came out: client and server wait for each other. request=\"" + show(got < bl.size() ? bl[got]->str(0) : "") + "\" output so far=\"" + show(r.out) + "\"");
  }
  std::string b = bad_end(r);
  if (!b.empty()) return viol("no-reply-" + b.substr(0,8) + ":" + mode_name(s), b + " while serving; output so far=\"" + show(r.out) + "\"");
  size_t got = std::count(r.out.begin(), r.out.end(), '\0');
  if (got < bl.size()) {
    if (r.exited && r.code != 0 && !r.err.empty()) { v.vacuous = true; v.detail = "tool gave up with an error: " + show(r.err); return v; }
    return viol("missing-reply:" + mode_name(s), S(bl.size()) + " requests, " + S(got) + " replies, " + r.status());
  }
  return v;
}
static Reg c01({"C01","Null-flush servers answer each request before waiting for more input", c01_gen, c01_run, 2600, 120000,
  "One case = generated dictionary, tool and mode, 1-10 requests, stdio buffer sizes, places where each request is cut; the simulated client sends request k+1 only after reply k. Non-trivial: the dictionary compiled and at least one request was served.", real_list(), stub_list(),
  {"requests are well formed for the mode they are sent to","liveness is bounded: 60 million basic blocks per process"}});

// ---- C02 --------------------------------------------------------------------
static Scenario c02_gen(Rng& r, bool th)
{
  if (r.chance(1,5)) { // a program that keeps one processor object and asks it many questions
    bool bil = r.chance(2,3); ServerCase c = gen_server(r, "C02", true, bil ? 6 : 0); Scenario s; s.prop = "C02";
    for (auto& l : c.s.l) if (l.key == "file" || l.key == "compile") s.l.push_back(l);
    s.add("api", {bil ? "bil" : "ana", std::string(r.chance(1,4) ? "c" : "") + (r.chance(1,4) ? "W" : "") + (r.chance(1,5) ? "1" : "")}, true);
    static const std::vector<std::string> B = {"bil","biln","full","fulln","queue","queuen","noq","noqn"};
    int n = r.range(2, th ? 30 : 12);
    for (int i=0;i<n;i++) {
      std::string op = bil ? r.pick(B) : "look", w;
      if (bil) { w = r.pick(c.d.forms).surf; if (r.chance(1,3)) w += "<" + r.pick(c.d.tags) + ">"; if (r.chance(1,4)) w = gen_word(r, c.d.letters, 1, 4) + "<" + r.pick(c.d.tags) + ">"; if (r.chance(1,8)) w = gen_word(r, c.d.letters, 1, 3); if (r.chance(1,8)) w = "*" + gen_word(r, c.d.letters, 1, 3); if (r.chance(1,6) && w[0] >= 'a' && w[0] <= 'z') w[0] -= 32; if (op.back() != 'n') w = "^" + w + "$"; }
      else { w = r.chance(2,3) ? r.pick(c.d.forms).surf : gen_word(r, c.d.letters, 2, 5); if (r.chance(1,6) && w[0] >= 'a' && w[0] <= 'z') w[0] -= 32; if (w.size() < 2) w += "ab"; }
      s.add("ask", {op, w});
    }
    return s;
  }
  ServerCase c = gen_server(r, "C02", true);
  int n = r.range(2, th ? 14 : 7); add_blocks(r, c, n, th);
  if (r.chance(1,3)) c.s.add("block", {c.s.all("block")[0]->str(0)});  // the same request again, later
  if (r.chance(1,4)) c.s.add("unfinished", {S(r.below(n))});          // that request stops in mid-token
  return c.s;
}
static Verdict c02_run(const Scenario& s, RunCtx& c)
{
  Verdict v; Prepared p = prepare(s, c); if (!p.ok) { v.vacuous = true; v.detail = p.why; return v; }
  if (auto* api = s.one("api")) {
    auto as = s.all("ask"); if (as.size() < 2) { v.vacuous = true; return v; }
    ProcSpec ps; ps.tool = "api:lookup"; ps.api_args = {"d.bin", api->str(0), api->str(1)};
    ProcSpec base = ps; for (auto* a : as) { ps.api_args.push_back(a->str(0)); ps.api_args.push_back(a->str(1)); }
    ProcResult r = c.run(ps, p.disk); c.st.blocks += as.size(); if (r.infra) return v;
    std::string b = bad_end(r); if (!b.empty()) return viol("lookup-" + b.substr(0,8), b);
    if (!r.ok()) return viol("refused", "a valid request is refused: " + r.status() + " " + show(r.err));
    c.st.probes["lookups through one processor object"] += as.size();
    for (size_t i=0;i<as.size();i++) {
      ProcSpec one = base; one.api_args.push_back(as[i]->str(0)); one.api_args.push_back(as[i]->str(1));
      ProcResult q = c.run(one, p.disk); if (q.infra) return v;
      std::string want = q.api.empty() ? "<" + q.status() + ">" : q.api[0], got = i < r.api.size() ? r.api[i] : "<nothing>";
      if (want != got) return viol("lookup-history:" + as[i]->str(0), "lookup " + S(i+1) + " (" + as[i]->str(0) + " " + show(as[i]->str(1)) + ") on a fresh processor -> " + show(want) + "; after the earlier lookups -> " + show(got));
    }
    return v;
  }
  ProcSpec ps = tool_spec(s);
  std::vector<std::string> bl; for (auto* b : s.all("block")) bl.push_back(b->str(0));
  if (bl.size() < 2) { v.vacuous = true; return v; }
  for (auto& b : bl) { ps.input += b; ps.input += '\0'; }
  ProcResult r = c.run(ps, p.disk); c.st.blocks += bl.size();
  if (r.infra) return v;
  std::string b = bad_end(r); if (!b.empty()) return viol("history-" + b.substr(0,8) + ":" + mode_name(s), b);
  auto fr = split_nul(r.out);
  for (size_t i=0;i<bl.size();i++) {
    ProcSpec one = tool_spec(s); one.input = bl[i]; one.input += '\0';
    ProcResult q = c.run(one, p.disk); if (q.infra) return v;
    auto qf = split_nul(q.out);
    if (qf.size() < 2) { if (q.exited && q.code != 0) { c.st.probes["request rejected with an error"]++; break; } continue; }
    std::string got = i + 1 < fr.size() ? fr[i] : "<no reply>";
    if (got != qf[0]) return viol("history-dependent:" + mode_name(s), "request " + S(i+1) + " \"" + show(bl[i]) + "\" alone -> \"" + show(qf[0]) + "\"; after the earlier requests -> \"" + show(got) + "\"");
  }
  return v;
}
static Reg c02({"C02","A reply depends only on its own request, never on earlier ones", c02_gen, c02_run, 1300, 40000,
  "One case = generated dictionary, tool and mode and a history of 2-15 requests served by one process; the reference for each reply is a fresh process that serves that request alone. Non-trivial: the dictionary compiled and the history has at least two requests.", real_list(), stub_list(),
  {"requests are well formed for the mode they are sent to"}});

// ---- C03 --------------------------------------------------------------------
static Scenario c03_gen(Rng& r, bool th)
{
  ServerCase c = gen_server(r, "C03", r.chance(2,3)); 
  add_blocks(r, c, r.range(1, 3), th);
  c.s.add("nonul", {S(r.chance(1,3))});
  add_delivery(r, c.s);
  Bytes in = join_blocks(c.s); size_t left = in.size(); int style = r.range(0,4);
  while (left > 0 && c.s.l.size() < 2500) { size_t k = style == 0 ? 1 : style == 1 ? (size_t)r.range(1,5) : style == 2 ? (size_t)r.range(1,64) : style == 3 ? (size_t)r.range(1,700) : (size_t)(r.chance(1,2) ? 1 : r.range(1,3000)); if (k > left) k = left; c.s.add("chunk", {S(k)}); left -= k; }
  if (left) c.s.add("chunk", {S(left)});
  if (r.chance(1,3)) for (int i=0;i<r.range(1,4);i++) c.s.add("fread", {S(r.range(1,40))});
  c.s.add("viafile", {S(r.chance(1,4))});
  return c.s;
}
static Verdict c03_run(const Scenario& s, RunCtx& c)
{
  Verdict v; Prepared p = prepare(s, c); if (!p.ok) { v.vacuous = true; v.detail = p.why; return v; }
  Bytes in = join_blocks(s); if (s.num("nonul",0) && !in.empty()) in.pop_back();
  if (in.empty()) { v.vacuous = true; return v; }
  ProcSpec a = tool_spec(s); a.input = in; a.ibuf = a.obuf = 65536;
  ProcSpec b = tool_spec(s); b.input = in; b.ibuf = s.num("ibuf",4096); b.obuf = s.num("obuf",4096);
  b.chunks = read_chunks(s); size_t tot = 0; for (auto& k : b.chunks) tot += k.n; if (tot < in.size()) b.chunks.push_back({in.size()-tot,-1});
  for (auto* l : s.all("fread")) b.file_read_sizes.push_back((int)l->num(0,1));
  ProcResult ra = c.run(a, p.disk), rb = c.run(b, p.disk); c.st.blocks++;
  if (ra.infra || rb.infra) return v;
  std::string e = bad_end(ra); if (!e.empty()) return viol("delivery-" + e.substr(0,8) + ":" + mode_name(s), e + " when everything is delivered at once");
  if (ra.out != rb.out || ra.code != rb.code || ra.status() != rb.status()) {
    size_t k = 0; while (k < ra.out.size() && k < rb.out.size() && ra.out[k]==rb.out[k]) k++;
    return viol("delivery-dependent:" + mode_name(s), "same bytes, other delivery: all at once -> " + ra.status() + " \"" + show(ra.out.substr(k>20?k-20:0)) + "\"; in " + S(b.chunks.size()) + " pieces (stdin buffer " + S(b.ibuf) + ", stdout buffer " + S(b.obuf) + ") -> " + rb.status() + " \"" + show(rb.out.substr(k>20?k-20:0)) + "\"");
  }
  if (s.num("viafile",0)) {
    ProcSpec f = tool_spec(s); f.args.push_back("in.txt"); f.args.push_back("out.txt"); Disk d = p.disk; d["in.txt"] = in; f.file_read_sizes = b.file_read_sizes;
    ProcResult rf = c.run(f, d); if (rf.infra) return v;
    Bytes fo = rf.disk.count("out.txt") ? rf.disk["out.txt"] : Bytes();
    c.st.probes["delivered through files"]++;
    if (fo != ra.out || rf.status() != ra.status()) { size_t k = 0; while (k < ra.out.size() && k < fo.size() && ra.out[k]==fo[k]) k++;
      return viol("file-differs:" + mode_name(s), "same bytes through stdin/stdout -> " + ra.status() + " \"" + show(ra.out.substr(k>20?k-20:0)) + "\"; through files -> " + rf.status() + " \"" + show(fo.substr(k>20?k-20:0)) + "\""); }
  }
  return v;
}
static Reg c03({"C03","Output does not depend on how input bytes are delivered", c03_gen, c03_run, 2600, 120000,
  "One case = generated dictionary, tool and mode, 1-3 requests and a delivery schedule: piece sizes from single bytes to everything, stdio buffer sizes, short reads of the dictionary file, and sometimes delivery through files instead of streams; the reference is delivery of everything at once. Non-trivial: the dictionary compiled and the input is not empty.", real_list(), stub_list(),
  {"no read errors: those are C08"}});

// ---- C04 --------------------------------------------------------------------
static Scenario c04_gen(Rng& r, bool th)
{
  int only = r.range(0,12);
  ServerCase c = gen_server(r, "C04", true, only); add_delivery(r, c.s);
  int n = r.range(1, th ? 30 : 12);
  for (int i=0;i<n;i++) {
    std::string t = gen_block(r, c.kind, c.d, r.chance(1,3) ? 0 : r.range(1,7), c.flags);
    c.s.add("block", {t});
  }
  for (int i=0;i<r.range(0,6);i++) c.s.add("chunk", {S(r.range(1,80))});
  return c.s;
}
static Verdict c04_run(const Scenario& s, RunCtx& c)
{
  Verdict v; Prepared p = prepare(s, c); if (!p.ok) { v.vacuous = true; v.detail = p.why; return v; }
  ProcSpec ps = tool_spec(s); ps.ibuf = s.num("ibuf",4096); ps.obuf = s.num("obuf",4096);
  auto bl = s.all("block"); if (bl.empty()) { v.vacuous = true; return v; }
  for (size_t i=0;i<bl.size();i++) ps.input += "[b" + S(i) + "q] " + bl[i]->str(0) + " [e" + S(i) + "q]" + std::string(1,'\0');
  ps.chunks = read_chunks(s); size_t tot = 0; for (auto& k : ps.chunks) tot += k.n; if (tot > ps.input.size()) ps.chunks.clear(); else if (tot < ps.input.size() && !ps.chunks.empty()) ps.chunks.push_back({ps.input.size()-tot,-1});
  ProcResult r = c.run(ps, p.disk); c.st.blocks += bl.size();
  if (r.infra) return v;
  std::string b = bad_end(r); if (!b.empty()) return viol("replies-" + b.substr(0,8) + ":" + mode_name(s), b);
  auto fr = split_nul(r.out);
  if (r.exited && r.code != 0) { c.st.probes["tool gave up with an error"]++; }
  else if (fr.size() - 1 < bl.size()) return viol("reply-count:" + mode_name(s), S(bl.size()) + " requests but " + S(fr.size()-1) + " replies");
  for (size_t i=0;i<bl.size() && i + 1 < fr.size();i++) {
    size_t at = 0; std::vector<std::string> marks; while ((at = fr[i].find('[', at)) != std::string::npos) { size_t e = fr[i].find(']', at); if (e == std::string::npos) break; std::string m = fr[i].substr(at+1, e-at-1); if (m.size() > 2 && m.back()=='q' && (m[0]=='b'||m[0]=='e') && isdigit((unsigned char)m[1])) marks.push_back(m); at++; }
    if (ps.tool == "lt-merge") marks.erase(std::unique(marks.begin(), marks.end()), marks.end());  // a merged unit quotes its text twice
    std::vector<std::string> want = {"b" + S(i) + "q", "e" + S(i) + "q"};
    if (marks != want) { std::string g; for (auto& m : marks) g += m + " "; return viol("reply-mixup:" + mode_name(s), "reply " + S(i+1) + " should carry exactly the marks of request " + S(i+1) + " but carries: " + g + " reply=\"" + show(fr[i]) + "\" request=\"" + show(bl[i]->str(0)) + "\""); }
  }
  for (size_t i=bl.size(); i<fr.size() && r.code == 0;i++) if (!fr[i].empty()) return viol("extra-output:" + mode_name(s), "output after the last reply: \"" + show(fr[i]) + "\"");
  if (r.code == 0 && fr.size() > bl.size() + 2) return viol("extra-reply:" + mode_name(s), S(fr.size()-1) + " replies to " + S(bl.size()) + " requests");
  return v;
}
static Reg c04({"C04","Each request gets exactly one reply, in request order", c04_gen, c04_run, 3000, 140000,
  "One case = generated dictionary, tool and mode and 1-30 requests, each opened and closed by its own uniquely named superblank; the recorded history of replies must carry exactly the marks of the matching request, once each and in order. Non-trivial: the dictionary compiled and at least one request was served.", real_list(), stub_list(),
  {"requests are well formed for the mode they are sent to","one empty frame after the last reply is tolerated (the documented end-of-input flush)"}});
