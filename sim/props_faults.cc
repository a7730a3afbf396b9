// I/O errors, full disks, torn files, failing allocations, heap layout.
#include "props.h"
#include <cerrno>

static Prepared prep_all(const Scenario& s, const ToolExec& e, RunCtx& c)
{ Prepared p = prepare(s,c); if (p.ok) for (auto& k : e.extra) p.disk[k.first] = k.second; return p; }
static std::string kind_of(const Scenario& s) { auto* t = s.one("tool"); return t ? t->str(0) : ""; }
// fault-free reference of the tool run
static bool reference(const Scenario& s, const ToolExec& e, const Disk& d, RunCtx& c, ProcResult& ref)
{ (void)s; ref = c.run(e.spec, d); return !ref.infra; }
static std::vector<std::string> inputs_of(const ToolExec& e, const Disk& d)
{ // the files and streams the run reads
  std::vector<std::string> v; for (auto& a : e.spec.args) if (d.count(a) && a != e.product) v.push_back(a);
  if (e.text_in == "<in>") v.push_back("<in>");
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(),v.end()), v.end()); return v;
}

// ---- C08: read errors ----------------------------------------------------------
static Scenario c08_gen(Rng& r, bool)
{
  ServerCase c = gen_toolrun(r, "C08");
  c.s.add("readfault", {S(r.below(64)), S(r.below(100000)), S(r.chance(1,2) ? EIO : ESTALE), S(r.chance(3,4))}, true);
  c.s.add("ibuf", {S(r.pick(std::vector<int>{1,16,4096}))});
  return c.s;
}
static Verdict c08_run(const Scenario& s, RunCtx& c)
{
  Verdict v; ToolExec e = tool_exec(s); Prepared p = prep_all(s,e,c); if (!p.ok) { v.vacuous = true; v.detail = p.why; return v; }
  e.spec.ibuf = s.num("ibuf",4096);
  ProcResult ref; if (!reference(s,e,p.disk,c,ref)) return v;
  if (!ref.ok()) { v.vacuous = true; v.detail = "fault-free run: " + ref.status() + " " + show(ref.err); return v; }
  auto ins = inputs_of(e,p.disk); auto* f = s.one("readfault"); if (ins.empty() || !f) { v.vacuous = true; return v; }
  std::string target = ins[f->num(0) % ins.size()];
  size_t len = target == "<in>" ? e.spec.input.size() : p.disk[target].size(); if (!len) { v.vacuous = true; return v; }
  Fault x; x.file = target; x.op = F_READ; x.pos = f->num(1) % len; x.err = (int)f->num(2,EIO); x.sticky = f->num(3,1) != 0;
  ProcSpec ps = e.spec; ps.faults.push_back(x);
  ProcResult r = c.run(ps, p.disk); if (r.infra) return v;
  if (r.fired.empty()) { v.vacuous = true; v.detail = "the error was never reached"; return v; }
  c.st.probes["read error in " + std::string(target == "<in>" ? "stdin text" : target == "in.txt" ? "text file" : target.find(".bin") != std::string::npos ? "compiled dictionary" : "source file")]++;
  std::string where = "read error (errno " + S(x.err) + ") at byte " + S(x.pos) + " of " + S(len) + " of " + target + " in " + kind_of(s);
  std::string b = r.hang ? "hang" : r.runaway ? "runaway" : r.misuse ? "misuse" : (r.sig && r.sig != SIGABRT) ? "signal " + S(r.sig) : "";
  if (!b.empty()) return viol("read-error-" + b + ":" + kind_of(s) + ":" + target, where + ": " + b + "; output so far \"" + show(product_of(e,r)) + "\"");
  if (r.exited && r.code == 0 && product_of(e,r) != product_of(e,ref)) return viol("read-error-silent:" + kind_of(s) + ":" + target, where + " is reported as success (exit 0); product \"" + show(product_of(e,r),120) + "\" instead of \"" + show(product_of(e,ref),120) + "\"");
  return v;
}
static Reg c08({"C08","A failing input device ends the run and is never reported as success", c08_gen, c08_run, 6000, 300000,
  "One case = one run of one of the fourteen tools on generated dictionaries and text, with one of the files or streams it reads failing with EIO or ESTALE at a seeded byte (transiently or for good). Non-trivial: the run succeeds without the fault and the fault was actually hit.", real_list(), stub_list(), {"stdio is glibc's: an error is reported by read() returning -1"}});

// ---- C09: write and close errors -------------------------------------------------
static Scenario c09_gen(Rng& r, bool)
{
  ServerCase c = gen_toolrun(r, "C09");
  c.s.add("writefault", {S(r.chance(1,5)), S(r.below(100000)), S(r.chance(1,2) ? ENOSPC : r.chance(1,2) ? EIO : EDQUOT), S(r.chance(2,3))}, true);
  c.s.add("obuf", {S(r.pick(std::vector<int>{1,16,64,4096,65536}))});
  return c.s;
}
static Verdict c09_run(const Scenario& s, RunCtx& c)
{
  Verdict v; ToolExec e = tool_exec(s); Prepared p = prep_all(s,e,c); if (!p.ok) { v.vacuous = true; v.detail = p.why; return v; }
  e.spec.obuf = s.num("obuf",4096);
  ProcResult ref; if (!reference(s,e,p.disk,c,ref)) return v;
  if (!ref.ok()) { v.vacuous = true; v.detail = "fault-free run: " + ref.status() + " " + show(ref.err); return v; }
  auto* f = s.one("writefault"); if (!f) { v.vacuous = true; return v; }
  Bytes want = product_of(e,ref); if (want.empty()) { v.vacuous = true; return v; }
  Fault x; x.file = e.product; bool close = f->num(0) != 0 && e.product != "<out>";
  x.op = close ? F_CLOSE : F_WRITE; x.pos = close ? 0 : f->num(1) % want.size(); x.err = (int)f->num(2,ENOSPC); x.sticky = f->num(3,1) != 0;
  ProcSpec ps = e.spec; ps.faults.push_back(x);
  ProcResult r = c.run(ps, p.disk); if (r.infra) return v;
  if (r.fired.empty()) { v.vacuous = true; v.detail = "the error was never reached"; return v; }
  std::string where = std::string(close ? "close error" : "write error") + " (errno " + S(x.err) + ") " + (close ? "" : "at byte " + S(x.pos) + " of " + S(want.size()) + " ") + "of " + e.product + " in " + kind_of(s);
  std::string b = r.hang ? "hang" : r.runaway ? "runaway" : r.misuse ? "misuse" : (r.sig && r.sig != SIGABRT) ? "signal " + S(r.sig) : "";
  if (!b.empty()) return viol("write-error-" + b + ":" + kind_of(s), where + ": " + b);
  if (r.exited && r.code == 0 && (close || product_of(e,r) != want)) return viol(std::string(close ? "close-error-silent:" : "write-error-silent:") + kind_of(s) + (e.product == "<out>" ? ":stdout" : ":file"), where + " is reported as success (exit 0); " + S(product_of(e,r).size()) + " of " + S(want.size()) + " bytes were written");
  return v;
}
static Reg c09({"C09","Output that could not be written is never reported as success", c09_gen, c09_run, 6000, 300000,
  "One case = one run of one of the fourteen tools, with its product (file or standard output) failing at a seeded byte with ENOSPC, EIO or EDQUOT, or failing at close, under seeded stdio buffer sizes. Non-trivial: the run succeeds without the fault and the fault was actually hit.", real_list(), stub_list(), {"the statistics that compilers print on standard output are not their product"}});

// ---- C10: torn dictionaries --------------------------------------------------------
static Scenario c10_gen(Rng& r, bool)
{
  static const std::vector<int> ks = {3,4,5,6,7,8,9,11,12,13,14,12,13};
  ServerCase c = gen_toolrun(r, "C10", r.pick(ks));
  c.s.add("tear", {S(r.below(8)), S(r.below(100000)), S(r.chance(1,3))}, true);
  return c.s;
}
static Verdict c10_run(const Scenario& s, RunCtx& c)
{
  Verdict v; ToolExec e = tool_exec(s); Prepared p = prep_all(s,e,c); if (!p.ok) { v.vacuous = true; v.detail = p.why; return v; }
  ProcResult ref; if (!reference(s,e,p.disk,c,ref)) return v;
  if (!ref.ok()) { v.vacuous = true; v.detail = "intact run: " + ref.status() + " " + show(ref.err); return v; }
  std::vector<std::string> bins; for (auto& x : inputs_of(e,p.disk)) if (x.find(".bin") != std::string::npos) bins.push_back(x);
  auto* f = s.one("tear"); if (bins.empty() || !f) { v.vacuous = true; return v; }
  std::string target = bins[f->num(0) % bins.size()]; Bytes full = p.disk[target]; size_t cut = f->num(1) % full.size();
  Disk d = p.disk; bool produced = false;
  if (f->num(2)) { // produce the torn file the way it happens: the last command that wrote it crashes in mid-write
    const Line* last = nullptr; for (auto* l : s.all("compile")) if (!l->t.empty() && l->t.back() == target) last = l;
    if (last) { ProcSpec ps; ps.tool = last->str(0); ps.args.assign(last->t.begin()+1,last->t.end()); Fault x; x.file = target; x.op = F_CRASH; x.pos = cut; ps.faults.push_back(x); Disk d0 = p.disk; d0.erase(target); ProcResult r = c.run(ps,d0); if (r.infra) return v; if (r.crashed && r.disk.count(target)) { d[target] = r.disk[target]; produced = true; } }
  }
  if (!produced) d[target] = full.substr(0,cut);
  if (d[target].size() >= full.size() || d[target] != full.substr(0,d[target].size())) { v.vacuous = true; return v; }
  ProcResult r = c.run(e.spec, d); if (r.infra) return v; c.st.fired["torn dictionary"]++;
  std::string where = kind_of(s) + " given the first " + S(d[target].size()) + " of " + S(full.size()) + " bytes of a compiled dictionary";
  std::string b = r.hang ? "hang" : r.runaway ? "runaway" : r.misuse ? "misuse" : (r.sig && r.sig != SIGABRT) ? "signal " + S(r.sig) : "";
  if (!b.empty()) return viol("torn-" + b + ":" + kind_of(s), where + ": " + b);
  if (r.exited && r.code == 0) return viol("torn-accepted:" + kind_of(s), where + " succeeds (exit 0); product \"" + show(product_of(e,r),120) + "\"");
  return v;
}
static Reg c10({"C10","A torn compiled dictionary is rejected", c10_gen, c10_run, 6000, 300000,
  "One case = a tool that reads compiled dictionaries, run on a strict prefix of one of them, either cut at a seeded byte or left behind by a simulated crash of the command that was writing it. Non-trivial: the run succeeds with the intact dictionary.", real_list(), stub_list(), {"corruption other than truncation is not claimed"}});

// ---- C15: failing allocations -------------------------------------------------------
static Scenario c15_gen(Rng& r, bool)
{
  ServerCase c = gen_toolrun(r, "C15");
  c.s.add("newfault", {S(r.below(1000000)), S(r.chance(1,2))}, true);
  // a dictionary that must be refused
  auto* t = c.s.one("tool"); if (t && t->str(0) == "lt-comp" && r.chance(1,2)) for (size_t i=0;i<c.s.l.size();i++) { auto& l = c.s.l[i]; if (l.key == "file" && l.str(0) == "d.dix" && l.str(1).find("</section>") == 0) { Line n = l; bool rl = false; for (auto& q : t->t) if (q == "rl") rl = true; n.t[1] = r.chance(1,3) ? "<e><i><b/>a</i></e>" : rl ? "<e><p><l>ab</l><r></r></p></e>" : "<e><p><l></l><r>ab</r></p></e>"; c.s.l.insert(c.s.l.begin() + i, n); break; } }
  return c.s;
}
static Verdict c15_run(const Scenario& s, RunCtx& c)
{
  Verdict v; ToolExec e = tool_exec(s); Prepared p = prep_all(s,e,c); if (!p.ok) { v.vacuous = true; v.detail = p.why; return v; }
  ProcResult ref; if (!reference(s,e,p.disk,c,ref)) return v;
  if (!ref.exited || !ref.allocs) { v.vacuous = true; return v; }
  auto* f = s.one("newfault"); if (!f) { v.vacuous = true; return v; }
  Fault x; x.op = F_NEW; x.file = "*"; x.pos = 1 + f->num(0) % ref.allocs; x.sticky = f->num(1) != 0;
  if (!ref.ok()) x.pos = ref.allocs - f->num(0) % std::min<uint64_t>(ref.allocs, 60);   // what is refused is noticed late
  ProcSpec ps = e.spec; ps.faults.push_back(x);
  ProcResult r = c.run(ps, p.disk); if (r.infra) return v;
  if (r.fired.empty()) { v.vacuous = true; return v; }
  std::string where = "allocation " + S(x.pos) + " of " + S(ref.allocs) + (x.sticky ? " and all later ones fail" : " fails") + " in " + kind_of(s);
  std::string b = r.hang ? "hang" : r.runaway ? "runaway" : r.misuse ? "misuse" : (r.sig && r.sig != SIGABRT) ? "signal " + S(r.sig) : "";
  if (!b.empty()) return viol("oom-" + b + ":" + kind_of(s), where + ": " + b + " " + r.race_text);
  if (!ref.ok() && r.exited && r.code == 0) return viol("oom-accepted:" + kind_of(s), where + ": what is refused otherwise is accepted");
  if (!ref.ok()) { c.st.probes["refusals short of memory"]++; return v; }
  if (r.exited && r.code == 0 && product_of(e,r) != product_of(e,ref)) return viol("oom-silent:" + kind_of(s), where + ": exit 0 but the product differs");
  return v;
}
static Reg c15({"C15","Running out of memory is fail-stop", c15_gen, c15_run, 6000, 300000,
  "One case = one run of one of the fourteen tools in which the k-th C++ allocation (k seeded over all allocations of the fault-free run), or every allocation from the k-th on, fails. Non-trivial: the run succeeds without the fault and the fault was actually hit.", real_list(), stub_list(), {"only operator new fails; malloc inside ICU, libxml2 and libc does not"}});

// ---- C16: heap layout -----------------------------------------------------------------
static Scenario c16_gen(Rng& r, bool)
{
  ServerCase c = gen_toolrun(r, "C16");
  for (int i=0;i<2;i++) c.s.add("heap", {S(r.below(1000000)+1)});
  return c.s;
}
static Verdict c16_run(const Scenario& s, RunCtx& c)
{
  Verdict v; ToolExec e = tool_exec(s); Prepared p = prep_all(s,e,c); if (!p.ok) { v.vacuous = true; v.detail = p.why; return v; }
  ProcResult ref; if (!reference(s,e,p.disk,c,ref)) return v;
  std::string rb = bad_end(ref); if (!rb.empty()) return viol("heap-" + rb.substr(0,8) + ":" + kind_of(s), rb + " in the reference run");
  for (auto* h : s.all("heap")) {
    ProcSpec ps = e.spec; ps.alloc_mode = 1; ps.alloc_seed = h->num(0,1);
    ProcResult r = c.run(ps, p.disk); if (r.infra) return v;
    if (r.status() != ref.status() || product_of(e,r) != product_of(e,ref) || r.out != ref.out || r.err != ref.err) {
      Bytes a = product_of(e,ref), b = product_of(e,r); if (a == b) { a = ref.out + ref.err; b = r.out + r.err; } size_t k = 0; while (k < a.size() && k < b.size() && a[k]==b[k]) k++;
      return viol("heap-dependent:" + kind_of(s), kind_of(s) + " with heap layout " + S(h->num(0)) + ": " + r.status() + " instead of " + ref.status() + "; first difference at byte " + S(k) + " \"" + show(b.substr(k),80) + "\" instead of \"" + show(a.substr(k),80) + "\"");
    }
  }
  return v;
}
static Reg c16({"C16","The same command on the same files gives the same bytes", c16_gen, c16_run, 4000, 200000,
  "One case = one run of one of the fourteen tools under seeded heap layouts: allocation addresses shuffled, fresh and freed memory filled with seeded junk. Non-trivial: always (error exits must repeat too).", real_list(), stub_list(), {}});

// ---- C18: failed compilation -------------------------------------------------------------
static Scenario c18_gen(Rng& r, bool)
{
  ServerCase c = gen_toolrun(r, "C18", r.chance(3,4) ? 0 : 2);
  c.s.add("damage", {S(r.below(6)), S(r.below(100000)), S(r.below(8))}, true);
  c.s.add("old", {S(r.below(2))});
  return c.s;
}
static Verdict c18_run(const Scenario& s, RunCtx& c)
{
  Verdict v; ToolExec e = tool_exec(s); Prepared p = prep_all(s,e,c); if (!p.ok) { v.vacuous = true; v.detail = p.why; return v; }
  Disk d = p.disk; Bytes old = "previous compiled dictionary\0\1\2"; if (s.num("old",0)) { ProcResult r0 = c.run(e.spec,p.disk); if (r0.infra) return v; if (r0.disk.count(e.product)) old = r0.disk[e.product]; }
  auto* f = s.one("damage"); if (!f) { v.vacuous = true; return v; }
  std::string src = d.count("d.dix") ? "d.dix" : "d.tmx"; Bytes full = d[src];
  ProcSpec ps = e.spec; std::string what; size_t pos = f->num(1) % full.size();
  size_t lastgt = full.rfind('>');
  switch (f->num(0)) {
    case 0: { if (full.find_first_not_of(" \t\r\n") >= pos % lastgt) { v.vacuous = true; return v; } /* an empty file is a valid AT&T file */ d[src] = full.substr(0, pos % lastgt); what = "source cut after " + S(pos % lastgt) + " bytes"; break; }
    case 1: { Fault x; x.file = src; x.op = F_READ; x.pos = pos; x.err = EIO; ps.faults.push_back(x); what = "read error at byte " + S(pos); break; }
    case 2: { std::vector<size_t> a; for (size_t i=0;i<full.size();i++) if (full[i]=='<' && i+1<full.size() && full[i+1]=='/') a.push_back(i); if (a.empty()) { v.vacuous = true; return v; } size_t k = a[pos % a.size()]; size_t q = full.find('>',k); d[src] = full.substr(0,k) + full.substr(q+1); what = "end tag " + full.substr(k,q-k+1) + " missing"; break; }
    case 3: { size_t k = full.find("par n=\""); if (k == std::string::npos) { v.vacuous = true; return v; } d[src].replace(k,7,"par n=\"no"); what = "reference to an undefined paradigm"; break; }
    case 4: { size_t k = full.find("<s n=\""); if (k == std::string::npos) { v.vacuous = true; return v; } d[src].replace(k,6,"<s n=\"no"); what = "reference to an undefined symbol"; break; }
    default: { std::vector<size_t> a; for (size_t i=0;i+1<full.size();i++) if (full[i]=='<' && full[i+1]!='/' && full[i+1]!='?') a.push_back(i); size_t k = a[pos % a.size()]; d[src].insert(k,"<bogus/>"); what = "unknown element <bogus/> at byte " + S(k); break; }
  }
  d[e.product] = old;
  ProcResult r = c.run(ps,d); if (r.infra) return v;
  c.st.fired["source damaged"]++;
  std::string b = bad_end(r); if (!b.empty() && r.sig != SIGABRT) return viol("compile-" + b.substr(0,8) + ":" + kind_of(s) + ":" + S(f->num(0)), what + ": " + b);
  bool failed = !(r.exited && r.code == 0);
  if (!failed) {
    if (f->num(0) <= 2) return viol("damaged-source-accepted:" + kind_of(s) + ":" + S(f->num(0)), kind_of(s) + " reports success (exit 0) although " + what + "; messages: " + show(r.err));
    v.vacuous = true; v.detail = "accepted: " + what; return v; // not every undefined reference has to be an error
  }
  if (!r.disk.count(e.product) || r.disk[e.product] != old) return viol("previous-output-lost:" + kind_of(s), kind_of(s) + " failed (" + r.status() + ", " + what + ") but the previous output file " + (r.disk.count(e.product) ? "was changed" : "is gone"));
  return v;
}
static Reg c18({"C18","A failed compilation reports failure and leaves the previous output alone", c18_gen, c18_run, 5000, 250000,
  "One case = lt-comp or lt-tmxcomp on a generated source that is cut short, fails with a read error, lacks an end tag, or refers to undefined things, with a previous output file in place. Non-trivial: the compiler failed.", real_list(), stub_list(), {"failures while the output itself is being written are C09"}});

// ---- C19: memory of a long-lived server -----------------------------------------------------
static Scenario c19_gen(Rng& r, bool th)
{
  ServerCase c = gen_server(r, "C19", true);
  int n = r.range(1,4); for (int i=0;i<n;i++) c.s.add("block", {gen_block(r, c.kind, c.d, r.range(0,r.chance(1,6)?40:8), c.flags)});
  c.s.add("rounds", {S(th ? 60 : 30)}, true);
  return c.s;
}
static Verdict c19_run(const Scenario& s, RunCtx& c)
{
  Verdict v; Prepared p = prepare(s,c); if (!p.ok) { v.vacuous = true; v.detail = p.why; return v; }
  auto bl = s.all("block"); if (bl.empty()) { v.vacuous = true; return v; }
  int R = (int)s.num("rounds",30); ProcSpec ps = tool_spec(s); ps.mem_probe = true;
  for (int k=0;k<R;k++) for (auto* b : bl) { ps.input += b->str(0); ps.input += '\0'; ps.chunks.push_back({b->str(0).size()+1, (int)ps.chunks.size()}); }
  ProcResult r = c.run(ps,p.disk); if (r.infra) return v; c.st.blocks += R*bl.size();
  std::string b = bad_end(r); if (!b.empty()) return viol("server-" + b.substr(0,8) + ":" + mode_name(s), b);
  if (r.code != 0 || r.mem.size() < (size_t)R*bl.size()) { v.vacuous = true; return v; }
  // live heap when the server waits for the first request of each round
  std::vector<int64_t> m; size_t per = bl.size(); for (int k=0;k<R;k++) m.push_back((int64_t)r.mem[k*per] - (int64_t)r.mem[0]);
  int64_t early = INT64_MIN, late = INT64_MAX; for (int k=2;k<R/3;k++) early = std::max(early,m[k]); for (int k=2*R/3;k<R;k++) late = std::min(late,m[k]);
  if (late > early) { // still growing: is it steady?
    int up = 0; for (int k=R/3;k<R;k++) if (m[k] > m[k-1]) up++;
    if (up > (R-R/3)/4) { std::string t; for (auto x : m) t += S(x) + " "; return viol("memory-grows:" + mode_name(s), "the same " + S(per) + " requests over and over: live heap at the start of each round: " + t); }
  }
  return v;
}
static Reg c19({"C19","The memory of a long-lived server does not grow with its history", c19_gen, c19_run, 2500, 100000,
  "One case = generated dictionary, tool and mode and 1-4 requests repeated for 30-60 rounds in one session; the live heap (C++ and C) is recorded each time the server waits for input. Non-trivial: all requests were served.", real_list(), stub_list(), {"growth that stops (caches and buffers reaching their size) is not a violation"}});
