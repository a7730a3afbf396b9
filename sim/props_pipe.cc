// Pipelines: several tools joined by bounded pipes under a seeded scheduler.
#include "props.h"

struct Stage { std::vector<std::string> cmd; };
static Scenario c17_gen(Rng& r, bool th)
{
  Scenario s; s.prop = "C17"; GenOpt o = gen_opt(r); o.entries = std::min(o.entries, 10); bool nf = r.chance(2,3);
  std::vector<std::vector<std::string>> st; GenDict d; StreamKind kind; std::vector<std::string> fl;
  int t = r.range(0,6); auto z = [&](std::vector<std::string> v) { if (nf) v.insert(v.begin()+1, "-z"); st.push_back(v); };
  auto mono = [&](const std::string& dir, const std::string& f) { d = gen_mono(r,o); put_dict(s, f + ".dix", d); s.add("compile", {"lt-comp",dir,f + ".dix",f + ".bin"}, true); };
  auto post = [&](const std::string& f) { GenDict p = gen_post(r,o); put_dict(s, f + ".dix", p); s.add("compile", {"lt-comp","lr",f + ".dix",f + ".bin"}, true); return p; };
  switch (t) {
  case 0: mono("rl","d"); kind = SK_LEX; z({"lt-proc","-g","d.bin"}); post("p"); z({"lt-proc","-p","p.bin"}); if (r.chance(1,2)) { post("q"); z({"lt-proc", r.chance(1,2) ? "-t" : "-p", "q.bin"}); } break;
  case 1: d.letters = {"a","b","ñ","𐐨"}; d.tags = {"n","adv"}; kind = SK_MERGE; z({"lt-merge"}); z({"lt-merge","-u"}); break;
  case 2: { d = gen_tmx(r,o); put_dict(s,"t.tmx",d); s.add("compile", {"lt-tmxcomp","aa-bb","t.tmx","t.bin"}, true); GenDict keep = d; kind = SK_TM; z({"lt-tmxproc","t.bin"}); mono("lr","d"); z({"lt-proc","d.bin"}); d = keep; break; }
  case 3: mono("lr","d"); kind = SK_ANALYSIS; z({"lt-proc","-w","d.bin"}); z({"lt-merge"}); if (r.chance(1,2)) z({"lt-merge","-u"}); break;
  case 4: { d = gen_bi(r,o,nullptr); put_dict(s,"d.dix",d); s.add("compile", {"lt-comp","lr","d.dix","d.bin"}, true); kind = SK_BIL; z({"lt-proc","-b","d.bin"}); z({"lt-proc","-b","d.bin"}); break; }
  case 5: { d = post("p"); kind = SK_POST; z({"lt-proc", r.chance(1,2) ? "-x" : "-p","p.bin"}); post("q"); z({"lt-proc","-p","q.bin"}); if (r.chance(1,3)) { post("u"); z({"lt-proc","-t","u.bin"}); } break; }
  default: { d = gen_tmx(r,o); put_dict(s,"t.tmx",d); s.add("compile", {"lt-tmxcomp","aa-bb","t.tmx","t.bin"}, true); GenDict keep = d; kind = SK_TM; z({"lt-tmxproc","t.bin"}); mono("lr","d"); z({"lt-proc","-e","d.bin"}); z({"lt-merge"}); z({"lt-merge","-u"}); d = keep; break; }
  }
  for (auto& x : st) s.add("stage", x, true);
  int n = r.range(1, th ? 6 : 4); for (int i=0;i<n;i++) { std::string b = gen_block(r, kind, d, r.chance(1,12) ? r.range(20,90) : r.range(0,7), fl); s.add("block", {b}); }
  s.add("nf", {S(nf)}, true); s.add("gate", {S(nf && r.chance(2,3))});
  static const std::vector<int> caps = {1,2,5,16,64,512,4096}; s.add("cap", {S(r.pick(caps))});
  static const std::vector<int> bufs = {1,3,16,64,512,4096,65536}; s.add("ibuf", {S(r.pick(bufs))}); s.add("obuf", {S(r.pick(bufs))});
  s.add("sched", {std::to_string(r.next() & 0xffffffff)}, true);
  if (r.chance(1,3)) s.add("kill", {S(r.range(0,(int)st.size())), S(r.chance(1,2) ? r.range(0,20) : r.range(0,600))});
  return s;
}
static Verdict c17_run(const Scenario& s, RunCtx& c)
{
  Verdict v; Prepared p = prepare(s, c); if (!p.ok) { v.vacuous = true; v.detail = p.why; return v; }
  auto sl = s.all("stage"); if (sl.empty() || s.all("block").empty()) { v.vacuous = true; return v; }
  bool nf = s.num("nf",0); std::string name;
  // reference: the stages one after another, each with the whole output of the previous one
  Bytes cur; { bool first = true; for (auto* b : s.all("block")) { if (!nf && !first) cur += ' '; cur += b->str(0); if (nf) cur += '\0'; first = false; } }
  Bytes input = cur; std::vector<std::string> codes; PipeSpec ps; std::vector<Bytes> mid;
  for (auto* l : sl) {
    ProcSpec q; q.tool = l->str(0); q.args.assign(l->t.begin()+1, l->t.end()); name += (name.empty() ? "" : "|") + l->str(0) + (l->t.size() > 2 && l->t[l->t.size()-2].size() == 2 ? l->t[l->t.size()-2] : "");
    ProcSpec one = q; one.input = cur; ProcResult r = c.run(one, p.disk); if (r.infra) return v;
    std::string b = bad_end(r); if (!b.empty()) return viol("stage-" + b.substr(0,8) + ":" + name, b + " when run on its own");
    codes.push_back(r.status()); cur = r.out; mid.push_back(cur); q.ibuf = s.num("ibuf",4096); q.obuf = s.num("obuf",4096); ps.stages.push_back(q);
  }
  bool allok = true; for (auto& x : codes) if (x != "exit0") allok = false;
  if (!allok) { v.vacuous = true; v.detail = "a stage rejects its input"; return v; }
  ps.input = input; ps.pipe_cap = s.num("cap",64); ps.seed = strtoull(s.str("sched","1").c_str(), nullptr, 10); ps.max_events = 400000 + 60 * (input.size() + cur.size() * sl.size());
  if (s.num("gate",0)) { int k = 0; for (auto* b : s.all("block")) ps.chunks.push_back({b->str(0).size() + 1, k++}); c.st.probes["client waits for each reply of the pipeline"]++; }
  auto* kl = s.one("kill"); if (kl) { ps.kill_stage = (int)kl->num(0); ps.kill_at = kl->num(1); if (ps.kill_stage > (int)sl.size()) ps.kill_stage = -1; }
  PipeResult r = c.pipe(ps, p.disk); c.st.blocks += s.all("block").size();
  for (size_t i=0;i<r.res.size();i++) { if (r.res[i].infra) return v; if (r.killed && (int)i == ps.kill_stage) continue; if (r.killed && (int)i > ps.kill_stage && r.res[i].sig == SIGABRT) continue; /* refuses the torn text */ std::string b = bad_end(r.res[i]); if (!b.empty() && !(r.stuck && r.res[i].sig == SIGKILL)) return viol("pipeline-" + b.substr(0,8) + ":" + name, "stage " + S(i+1) + ": " + b + (r.killed ? " after stage " + S(ps.kill_stage+1) + " was killed" : "")); }
  bool gated_kill = r.killed && !ps.chunks.empty();
  if (r.stuck && !gated_kill) return viol((r.killed ? "stuck-after-kill:" : "deadlock:") + name, "the pipeline makes no progress: stages waiting (number, r=read, w=write): " + r.blocked + (r.killed ? "after stage " + S(ps.kill_stage+1) + " was killed" : "") + ", pipe capacity " + S(ps.pipe_cap));
  if (!r.killed) {
    for (size_t i=0;i<r.res.size();i++) if (r.res[i].status() != codes[i]) return viol("status:" + name, "stage " + S(i+1) + " ends with " + r.res[i].status() + ", alone with " + codes[i]);
    if (r.out != cur) { size_t k = 0; while (k < cur.size() && k < r.out.size() && cur[k] == r.out[k]) k++; return viol("pipeline-differs:" + name, "output of the pipeline differs from running the stages one after another at byte " + S(k) + ": \"" + show(r.out.substr(k > 20 ? k-20 : 0)) + "\" instead of \"" + show(cur.substr(k > 20 ? k-20 : 0)) + "\""); }
  } else {
    c.st.fired[ps.kill_stage >= (int)sl.size() ? "reader of the pipeline dies" : "stage killed"]++;
    // nothing invented: while the stages after it are alive they may end the text differently, but stages up to the killed one wrote a prefix of their undisturbed output
    for (int i=0;i<(int)r.res.size() && i <= ps.kill_stage;i++) { const Bytes& w = r.res[i].out; if (w.size() > mid[i].size() || mid[i].compare(0, w.size(), w)) return viol("prefix:" + name, "stage " + S(i+1) + " wrote something else than a prefix of its undisturbed output before stage " + S(ps.kill_stage+1) + " was killed"); }
    // a stage whose output could not be delivered does not claim success
    if (ps.kill_stage >= 1) { size_t up = ps.kill_stage - 1; if (up < r.res.size() && r.res[up].fired.empty() && r.epipes && r.res[up].ok() && r.res[up].out.size() > 0) {
      bool lost = false; for (auto& q : r.res[up].log) if (q.type == R_NOTE && q.data == "EPIPE") lost = true; if (lost) return viol("lost-output:" + name, "stage " + S(up+1) + " could not deliver its output to the dead stage " + S(ps.kill_stage+1) + " and exits with status 0"); } }
  }
  return v;
}
static Reg c17({"C17","Pipelines of tools neither deadlock nor change the result", c17_gen, c17_run, 1500, 60000,
  "One case = two to four tools in a pipeline, their dictionaries, 1-6 requests, pipe capacity (1 byte to 4 KB), stdio buffer sizes and a seeded schedule of who runs and how many bytes move; sometimes the client waits for the reply of the whole pipeline before it sends the next request, sometimes a stage or the final reader is killed at a seeded point. The reference is running the stages one after another. Non-trivial: the dictionaries compiled and every stage accepts its input.", real_list(), stub_list(),
  {"at most four stages","stages from other packages (tagger, transfer) are not simulated"}});
