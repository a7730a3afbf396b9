// Threads: parallel compilation, parallel composition, library use from several threads.
#include "props.h"
#ifdef SIM_TSAN
static Bytes file_of(const Disk& d, const std::string& f) { auto it = d.find(f); return it == d.end() ? Bytes("<absent>") : it->second; }
static void add_sched(Rng& r, Scenario& s)
{
  static const std::vector<int> per = {1,3,10,40,200,1500,20000};
  int st = r.range(0,9); s.add("sched", {std::to_string(r.next() & 0xffffffff), S(st < 6 ? 0 : st < 9 ? 1 : 2), S(r.pick(per))}, true);
  if (r.chance(1,10)) s.add("threadfail", {S(r.range(0,3))});
  else if (r.chance(1,10)) s.add("newfail", {S((long)r.below(100000)), S(r.chance(1,2))});
}
static void set_sched(const Scenario& s, ProcSpec& p)
{
  p.sched.on = true;
  if (auto* l = s.one("sched")) { p.sched.seed = strtoull(l->str(0).c_str(), nullptr, 10); p.sched.strategy = (int)l->num(1); p.sched.period = (uint64_t)std::max(1L, l->num(2,200)); }
  else { p.sched.explicit_sw = true; for (auto* l : s.all("sw")) p.sched.switches.push_back({strtoull(l->str(0).c_str(), nullptr, 10), (int)l->num(1)}); }
  if (auto* l = s.one("threadfail")) p.sched.fail_create = (int)l->num(0);
}
// runs the threaded command; fills the schedule into v
static ProcResult run_threads(const Scenario& s, RunCtx& c, ProcSpec p, const Disk& d, Verdict& v)
{
  set_sched(s, p); ProcResult r = c.run(p, d); uint64_t h = 1;
  for (auto& q : r.log) if (q.type == R_NOTE && q.data.rfind("sw ",0) == 0) { size_t k = q.data.find(' ', 3); std::string a = q.data.substr(3, k-3), b = q.data.substr(k+1); h = mix(h, hash_str(q.data)); if (v.sw.size() < 20000) v.sw.push_back({a,b}); }
  v.sig = mix(v.sig, h); c.st.steps += r.accesses; c.st.probes["threads started"] += r.threads; c.st.probes["memory accesses watched"] += r.accesses; c.st.probes["synchronisation points"] += r.syncs; if (r.threads >= 2) c.st.probes["runs with two or more threads"]++;
  return r;
}
static Verdict vi(Verdict v, const std::string& cls, const std::string& d) { v.violation = true; v.cls = cls; v.detail = d; return v; }
static void jobs_env(Rng& r, Scenario& s, std::vector<std::string>& t, bool flag)
{
  if (flag && r.chance(1,2)) t.insert(t.begin()+1, "-j"); else s.add("env", {"LT_JOBS", r.chance(1,2) ? "1" : "yes"}, true);
}
static Verdict job_run(const Scenario& s, RunCtx& c, bool texts)
{
  Verdict v; Prepared p = prepare(s, c); if (!p.ok) { v.vacuous = true; v.detail = p.why; return v; }
  ProcSpec par = tool_spec(s), seq = par; seq.args.erase(std::remove(seq.args.begin(), seq.args.end(), "-j"), seq.args.end()); seq.env.erase(std::remove_if(seq.env.begin(), seq.env.end(), [](auto& e) { return e.first == "LT_JOBS"; }), seq.env.end());
  ProcResult a = c.run(seq, p.disk); if (a.infra) return v; if (!a.exited) { v.vacuous = true; return v; }
  auto* nf = s.one("newfail");
  if (nf) { Fault x; x.op = F_NEW; x.file = "*"; x.pos = 1 + nf->num(0) % (a.allocs ? a.allocs : 1); x.sticky = nf->num(1) != 0; par.faults.push_back(x); }
  ProcResult b = run_threads(s, c, par, p.disk, v); if (b.infra) return v; c.st.blocks++;
  if (b.threads < 2) v.vacuous = true;
  bool faulty = !b.fired.empty(); std::string n = par.tool;
  if (b.race) return vi(v, "race:" + n, b.race_text);
  if (b.deadlock) return vi(v, "deadlock:" + n, "the threads of " + n + " wait for each other for ever");
  if (b.hang || b.runaway) return vi(v, "hang:" + n, n + " with parallel jobs does not end");
  if (b.misuse || (!b.exited && b.sig != SIGABRT) || (!b.exited && !faulty)) return vi(v, "crash:" + n, n + " with parallel jobs ends with " + b.status() + ", sequentially with " + a.status());
  Bytes pa = file_of(a.disk, "out.bin"), pb = file_of(b.disk, "out.bin");
  if (faulty && !(b.exited && b.code == 0)) return v;
  if (b.status() != a.status()) return vi(v, "status:" + n, n + " with parallel jobs ends with " + b.status() + ", sequentially with " + a.status() + ": " + show(b.err));
  if (pa != pb) { size_t k = 0; while (k < pa.size() && k < pb.size() && pa[k] == pb[k]) k++; return vi(v, "product:" + n, "the parallel result (" + S(pb.size()) + " bytes) differs from the sequential one (" + S(pa.size()) + " bytes) at byte " + S(k)); }
  if (texts && (a.out != b.out || a.err != b.err)) return vi(v, "messages:" + n, "messages differ: \"" + show(b.out + b.err) + "\" instead of \"" + show(a.out + a.err) + "\"");
  return v;
}
// ---- C12 lt-comp --------------------------------------------------------------
static Scenario c12_gen(Rng& r, bool th)
{
  Scenario s; s.prop = "C12"; GenOpt o = gen_opt(r); o.sections = true; o.entries = th ? std::min(o.entries, 40) : std::min(o.entries, 16); std::vector<std::string> t = {"lt-comp"};
  std::string dir = r.chance(1,2) ? "lr" : "rl"; GenDict d;
  int k = r.range(0,5); if (k == 0) d = gen_bi(r,o,nullptr); else if (k == 1) d = gen_post(r,o), dir = "lr"; else d = gen_mono(r,o);
  put_dict(s, "d.dix", d); jobs_env(r, s, t, true); if (r.chance(1,8)) t.push_back("-m"); if (r.chance(1,8)) t.push_back("-d"); if (r.chance(1,8) && k > 1) dir = "u";
  if (r.chance(3,4)) s.add("env", {"LT_MAX_SECTION_ENTRIES", S(r.range(1,5))}, true);
  t.insert(t.end(), {dir,"d.dix","out.bin"}); s.add("tool", t, true); add_sched(r, s); return s;
}
static Reg c12({"C12","Parallel compilation gives the sequential result under every thread schedule", c12_gen, [](const Scenario& s, RunCtx& c) { return job_run(s, c, true); }, 800, 60000,
  "One case = a dictionary with several sections (or LT_MAX_SECTION_ENTRIES set so that there are many), lt-comp with -j or LT_JOBS, and a seeded thread schedule (random preemption at mean distances of 1 to 20000 memory accesses, priority schedules with a few change points, or run to completion in random order); sometimes creating a thread or an allocation fails. Non-trivial: at least two worker threads ran.", real_list(), stub_list(),
  {"scheduling points are the memory accesses of lttoolbox code and its inlined templates and all synchronisation calls; code inside libstdc++, libxml2 and ICU runs without preemption","the happens-before detector keeps three readers per 8 bytes"}});
// ---- C13 lt-compose -------------------------------------------------------------
static Scenario c13_gen(Rng& r, bool th)
{
  Scenario s; s.prop = "C13"; GenOpt o = gen_opt(r); o.sections = true; o.entries = std::min(o.entries, th ? 12 : 8); o.regex = o.regex && r.chance(1,4);
  GenDict d = gen_mono(r,o); put_dict(s, "d.dix", d); auto e = gen_bi(r,o,&d); put_dict(s, "e.dix", e);
  s.add("compile", {"lt-comp","lr","d.dix","a.bin"}, true); s.add("compile", {"lt-comp","lr","e.dix","b.bin"}, true);
  if (r.chance(1,2)) { GenDict f = gen_mono(r,o); put_dict(s, "f.dix", f); s.add("compile", {"lt-comp","lr","f.dix","c.bin"}, true); s.add("compile", {"lt-append","-k","a.bin","c.bin","a2.bin"}, true); }
  std::vector<std::string> t = {"lt-compose"}; if (r.chance(1,4)) t.push_back("-i"); if (r.chance(2,3)) t.push_back("-a");
  jobs_env(r, s, t, false); bool two = s.all("compile").size() > 2;
  t.insert(t.end(), {two ? "a2.bin" : "a.bin","b.bin","out.bin"}); s.add("tool", t, true); add_sched(r, s); return s;
}
static Reg c13({"C13","Parallel composition gives the sequential result under every thread schedule", c13_gen, [](const Scenario& s, RunCtx& c) { return job_run(s, c, false); }, 800, 60000,
  "One case = a dictionary with one to several sections, a bilingual dictionary, lt-compose with LT_JOBS set and a seeded thread schedule; sometimes creating a thread or an allocation fails. Non-trivial: at least two worker threads ran.", real_list(), stub_list(),
  {"scheduling points as for C12","the order of warnings on standard error is not compared"}});
// ---- C14 library ------------------------------------------------------------------
static Scenario c14_gen(Rng& r, bool th)
{
  Scenario s; s.prop = "C14"; GenOpt o = gen_opt(r); o.entries = std::min(o.entries, 8);
  GenDict m = gen_mono(r,o), b = gen_bi(r,o,&m), p = gen_post(r,o);
  put_dict(s,"m.dix",m); put_dict(s,"b.dix",b); put_dict(s,"p.dix",p);
  s.add("compile",{"lt-comp","lr","m.dix","m.bin"},true); s.add("compile",{"lt-comp","rl","m.dix","g.bin"},true); s.add("compile",{"lt-comp","lr","b.dix","b.bin"},true); s.add("compile",{"lt-comp","lr","p.dix","p.bin"},true);
  int n = r.range(2, th ? 5 : 4); bool same = r.chance(1,3); int k0 = r.range(0,9);
  for (int i=0;i<n;i++) {
    int k = same ? k0 : r.range(0,9); std::vector<std::string> t; std::string fl; if (r.chance(1,4)) fl += 'c'; if (r.chance(1,4)) fl += 'w'; if (r.chance(1,4)) fl += 'W'; std::vector<std::string> none; auto blk = [&](StreamKind q, const GenDict& d) { t.push_back("text"); t.push_back(gen_block(r, q, d, r.range(1,5), none)); };
    int c = r.range(1,2);
    switch (k) {
    case 0: case 1: t = {"m.bin", r.chance(1,4) ? "dec" : "ana", fl}; while (c--) blk(SK_ANALYSIS, m); break;
    case 2: t = {"g.bin","gen",fl}; while (c--) blk(SK_LEX, m); break;
    case 3: t = {"b.bin","bil",fl}; while (c--) blk(SK_BIL, b); break;
    case 4: { t = {"b.bin","bil",fl}; static const std::vector<std::string> ops = {"bil","biln","full","fulln","queue","queuen","noq","noqn"}; for (int q=0;q<c*2;q++) { std::string w = b.forms.empty() ? std::string("ab<n>") : r.pick(b.forms).surf; t.push_back(r.pick(ops)); t.push_back("^" + w + "$"); } break; }
    case 5: t = {"p.bin", r.chance(1,2) ? "post" : r.chance(1,2) ? "inter" : "trl", ""}; while (c--) blk(SK_POST, p); break;
    case 6: t = {"m.bin","min","","o" + S(i) + ".bin","x"}; break;
    case 7: t = {"m.bin","ser","","o" + S(i) + ".bin","x"}; break;
    case 8: t = {"-","merge",""}; { GenDict d; d.letters = m.letters; d.tags = m.tags; blk(SK_MERGE, d); } break;
    default: t = {"-","unmerge",""}; { GenDict d; d.letters = m.letters; d.tags = m.tags; blk(SK_UNMERGE, d); } break;
    }
    s.add("thread", t);
  }
  add_sched(r, s); return s;
}
static Verdict c14_run(const Scenario& s, RunCtx& c)
{
  Verdict v; Prepared p = prepare(s, c); if (!p.ok) { v.vacuous = true; v.detail = p.why; return v; }
  auto tl = s.all("thread"); if (tl.size() < 2) { v.vacuous = true; return v; }
  ProcSpec q; q.tool = "api:threads"; q.api_args = {"seq"}; std::string n;
  for (auto* l : tl) { q.api_args.push_back("T"); for (auto& x : l->t) q.api_args.push_back(x); n += (n.empty() ? "" : "+") + l->str(1); }
  ProcResult a = c.run(q, p.disk); if (a.infra) return v; if (!a.exited) { v.vacuous = true; return v; }
  ProcSpec w = q; w.api_args[0] = "par"; if (auto* nf = s.one("newfail")) { Fault x; x.op = F_NEW; x.file = "*"; x.pos = 1 + nf->num(0) % (a.allocs ? a.allocs : 1); x.sticky = nf->num(1) != 0; w.faults.push_back(x); }
  ProcResult b = run_threads(s, c, w, p.disk, v); if (b.infra) return v; c.st.blocks++;
  bool faulty = !b.fired.empty();
  if (b.race) return vi(v, "race", b.race_text);
  if (b.deadlock || b.hang || b.runaway) return vi(v, "stuck", "threads with their own objects block each other");
  if (b.misuse || (!b.exited && b.sig != SIGABRT) || (!b.exited && !faulty)) return vi(v, "crash", b.status() + " with threads " + n + ", sequentially " + a.status());
  if (faulty) return v;
  if (a.status() != b.status()) return vi(v, "status", b.status() + " instead of " + a.status());
  for (size_t i=0;i<a.api.size() || i<b.api.size();i++) { Bytes x = i < a.api.size() ? a.api[i] : Bytes("<none>"), y = i < b.api.size() ? b.api[i] : Bytes("<none>"); if (x != y) return vi(v, "result", "result \"" + show(y) + "\" in parallel, \"" + show(x) + "\" alone"); }
  for (auto& f : a.disk) if (file_of(b.disk, f.first) != f.second) return vi(v, "file", f.first + " differs from the one written sequentially");
  return v;
}
static Reg c14({"C14","Threads that use separate processor objects do not disturb each other", c14_gen, c14_run, 1000, 60000,
  "One case = two to five threads of one program, each with its own FSTProcessor, streams or transducers (analysis, generation, bilingual, postgeneration, merging, word lookups, minimisation, serialisation), often on the same dictionary file, under a seeded schedule; sometimes creating a thread or an allocation fails. The reference is the same work done by one thread after another. Non-trivial: the dictionaries compiled.", real_list(), stub_list(),
  {"scheduling points as for C12","objects are not shared between threads: the package does not promise that"}});
#endif
