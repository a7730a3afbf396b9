#include "core.h"
#include "gen.h"
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <locale.h>
#include <dlfcn.h>
#include <dirent.h>
#include <poll.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <unistd.h>
#include <time.h>
#include <limits.h>
#include <unicode/ucnv.h>
#include <unicode/ustdio.h>
#include <libxml/parser.h>
static char** g_argv;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec*1e-9; }
static std::string slurp(const std::string& p) { FILE* f = fopen(p.c_str(), "rb"); if (!f) return ""; std::string r; char b[65536]; size_t n; while ((n = fread(b,1,sizeof b,f)) > 0) r.append(b,n); fclose(f); return r; }
static bool spit(const std::string& p, const std::string& s) { FILE* f = fopen(p.c_str(), "wb"); if (!f) return false; fwrite(s.data(),1,s.size(),f); return fclose(f) == 0; }
static std::string self_path() { char b[PATH_MAX]; ssize_t n = readlink("/proc/self/exe", b, sizeof b); return std::string(b, n > 0 ? n : 0); }
static std::string dir_of(const std::string& p) { size_t k = p.rfind('/'); return k == std::string::npos ? "." : p.substr(0,k); }

static void load_tools()
{
  std::string d = dir_of(self_path()) + "/tools";
  DIR* dp = opendir(d.c_str()); if (!dp) { fprintf(stderr, "no tools in %s\n", d.c_str()); exit(2); }
  std::vector<std::string> v; while (dirent* e = readdir(dp)) { std::string n = e->d_name; if (n.size() > 3 && n.substr(n.size()-3) == ".so") v.push_back(n); } closedir(dp);
  std::sort(v.begin(), v.end());
  for (auto& n : v) {
    void* h = dlopen((d + "/" + n).c_str(), RTLD_NOW|RTLD_LOCAL);
    if (!h) { fprintf(stderr, "dlopen %s: %s\n", n.c_str(), dlerror()); exit(2); }
    auto m = (int(*)(int,char**))dlsym(h, "main");
    std::string t = n.substr(0, n.size()-3); for (auto& c : t) if (c=='_') c = '-';
    rt_register_tool(t, m);
  }
}
static const Property& find_prop(const std::string& id) { for (auto& p : registry()) if (p.id == id) return p; fprintf(stderr, "unknown property %s\n", id.c_str()); exit(2); }

static Verdict exec(const Property& p, const Scenario& s, Stats* st = nullptr, std::string* infra = nullptr)
{
  RunCtx c; Verdict v = p.run(s, c);
  if (c.infra) { v.infra = true; v.violation = false; if (infra) *infra = c.infra_why; }
  v.hist = c.hist; v.sig = mix(c.sig, v.sig);
  if (st) st->merge(c.st);
  return v;
}
static Scenario make(const Property& p, uint64_t seed, uint64_t idx, bool thorough)
{
  Rng r(mix(mix(seed, hash_str(p.id)), idx));
  Scenario s = p.gen(r, thorough); s.prop = p.id; return s;
}

// ---- minimiser: delta debugging over the explicit scenario ----------------------
static Scenario minimise(const Property& p, Scenario s, const std::string& cls, double budget, int& tries)
{
  double t0 = now();
  auto fails = [&](const Scenario& x) { tries++; Verdict v = exec(p, x); return v.violation && !v.infra && v.cls == cls; };
  bool progress = true;
  while (progress && now() - t0 < budget) {
    progress = false;
    // drop groups of lines
    for (size_t g = std::max<size_t>(1, s.l.size()/2); g >= 1 && now()-t0 < budget; g /= 2) {
      for (size_t i = 0; i < s.l.size() && now()-t0 < budget; ) {
        Scenario x = s; x.l.clear(); size_t dropped = 0;
        for (size_t j=0;j<s.l.size();j++) if (j >= i && j < i+g && !s.l[j].fixed) dropped++; else x.l.push_back(s.l[j]);
        if (dropped && fails(x)) { s = x; progress = true; } else i += g;
      }
      if (g == 1) break;
    }
    // shorten text tokens and numbers
    for (size_t i=0;i<s.l.size() && now()-t0 < budget;i++) {
      auto& key = s.l[i].key;
      if (key == "block" || key == "input" || key == "word" || key == "call") for (size_t k=0;k<s.l[i].t.size();k++) {
        // cut by code points
        for (size_t g = std::max<size_t>(1,s.l[i].t[k].size()/2); g >= 1 && now()-t0 < budget; g /= 2) {
          for (size_t pos=0; pos < s.l[i].t[k].size() && now()-t0 < budget; ) {
            std::string& w = s.l[i].t[k]; size_t a = pos, b = std::min(w.size(), pos+g);
            while (a > 0 && a < w.size() && ((unsigned char)w[a] & 0xC0) == 0x80) a--;
            while (b < w.size() && ((unsigned char)w[b] & 0xC0) == 0x80) b++;
            Scenario x = s; x.l[i].t[k] = w.substr(0,a) + w.substr(b);
            if (fails(x)) { s = x; progress = true; } else pos = std::max(b, pos+1);
          }
          if (g == 1) break;
        }
      }
    }
  }
  return s;
}

static std::string json_str(const std::string& s)
{
  std::string r = "\""; for (size_t i=0;i<s.size();i++) { unsigned char c = s[i]; if (c=='"') r += "\\\""; else if (c=='\\') r += "\\\\"; else if (c=='\n') r += "\\n"; else if (c=='\t') r += "\\t"; else if (c<32 || c == 127) { char t[8]; snprintf(t,sizeof t,"\\u%04x",c); r += t; } else r += (char)c; } return r + "\"";
}
static std::string json_valid(const std::string& s)
{ // replace invalid utf-8
  std::string r; for (size_t i=0;i<s.size();) { unsigned char c=s[i]; size_t n = c<0x80?1:c>=0xF0&&c<0xF8?4:c>=0xE0?3:c>=0xC2&&c<0xE0?2:0; bool ok = n>0 && i+n<=s.size(); for (size_t j=1;ok&&j<n;j++) if (((unsigned char)s[i+j]&0xC0)!=0x80) ok=false; if (ok) { r += s.substr(i,n); i+=n; } else { r += "?"; i++; } } return json_str(r);
}

struct Msg { uint64_t idx; uint32_t kind; uint32_t len; };   // kind 1 violation, 2 infra, 3 summary, 4 coverage, 5 sigs

static int cmd_check(const std::string& id, const std::string& tier, uint64_t seed, uint64_t runs, int workers, const std::string& verif, double wallcap, const std::string& what)
{
  const Property& p = find_prop(id);
  bool thorough = tier == "thorough";
  if (!runs) runs = thorough ? p.thorough_runs : p.quick_runs * 4;
  double t0 = now();
  printf("check %s tier=%s seed=%llu runs=%llu workers=%d: %s\n", id.c_str(), tier.c_str(), (unsigned long long)seed, (unsigned long long)runs, workers, p.title.c_str()); fflush(stdout);
  struct W { pid_t pid; int fd; std::string buf; bool open; };
  std::vector<W> ws;
  volatile uint64_t* stop = (volatile uint64_t*)mmap(nullptr, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); *stop = ~0ull;
  for (int w=0;w<workers;w++) {
    int f[2]; if (pipe(f)) return 2;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      close(f[0]); for (auto& x : ws) close(x.fd);
      rt_fresh_shared();
      auto send = [&](uint64_t idx, uint32_t kind, const std::string& d) { Msg m{idx,kind,(uint32_t)d.size()}; std::string o((char*)&m,sizeof m); o += d; size_t k=0; while (k<o.size()) { ssize_t r=write(f[1],o.data()+k,o.size()-k); if (r<=0) _exit(3); k+=r; } };
      Stats st; uint64_t done=0, vac=0, inf=0; std::vector<uint64_t> sigs; int viol=0;
      for (uint64_t i=w;i<runs;i+=workers) {
        if (i > *stop) break;
        if (now()-t0 > wallcap) break;
        Scenario s = make(p, seed, i, thorough);
        std::string iw; Verdict v = exec(p, s, &st, &iw);
        done++;
        if (v.infra) { inf++; if (inf <= 3) send(i,2,iw); continue; }
        if (v.vacuous) vac++; else sigs.push_back(v.sig);
        if (v.violation) { if (i < *stop) *stop = i; send(i,1,v.cls + "\n" + v.detail); if (++viol >= 1) break; }
      }
      std::string sm; sm += "n done " + S(done) + "\nn vacuous " + S(vac) + "\nn infra " + S(inf) + "\nn procs " + S(st.procs) + "\nn steps " + S(st.steps) + "\nn blocks " + S(st.blocks) + "\nn bytes_in " + S(st.bytes_in) + "\nn bytes_out " + S(st.bytes_out) + "\nn events " + S(st.events) + "\n";
      for (auto& k : st.fired) sm += "f " + esc(k.first) + " " + S(k.second) + "\n";
      for (auto& k : st.probes) sm += "p " + esc(k.first) + " " + S(k.second) + "\n";
      send(0,3,sm);
      const auto& ca = rt_cov_accum(); send(0,4,std::string((const char*)ca.data(), std::min<size_t>(ca.size(), rt_cov_edges_total()+1)));
      send(0,5,std::string((const char*)sigs.data(), sigs.size()*8));
      _exit(0);
    }
    close(f[1]); ws.push_back({pid,f[0],"",true});
  }
  std::map<std::string,uint64_t> num, fired, probes; std::set<uint64_t> sigs; std::vector<std::pair<uint64_t,std::string>> viols; std::vector<std::string> infras; std::vector<uint8_t> cov(1<<17,0);
  int open = workers;
  while (open) {
    std::vector<pollfd> pf; std::vector<int> ix; for (int i=0;i<workers;i++) if (ws[i].open) { pf.push_back({ws[i].fd,POLLIN,0}); ix.push_back(i); }
    if (poll(pf.data(), pf.size(), 1000) < 0 && errno != EINTR) break;
    for (size_t k=0;k<pf.size();k++) if (pf[k].revents) {
      auto& w = ws[ix[k]]; char b[65536]; ssize_t n = read(w.fd,b,sizeof b);
      if (n <= 0) { w.open=false; open--; close(w.fd); continue; }
      w.buf.append(b,n);
      while (w.buf.size() >= sizeof(Msg)) {
        Msg m; memcpy(&m,w.buf.data(),sizeof m); if (w.buf.size() < sizeof m + m.len) break;
        std::string d = w.buf.substr(sizeof m, m.len); w.buf.erase(0,sizeof m + m.len);
        if (m.kind==1) viols.push_back({m.idx,d});
        else if (m.kind==2) infras.push_back(d);
        else if (m.kind==3) { size_t q=0; while (q<d.size()) { size_t e=d.find('\n',q); std::string ln=d.substr(q,e-q); q=e+1; size_t a=ln.find(' '), b2=ln.rfind(' '); std::string nm=unesc(ln.substr(a+1,b2-a-1)); uint64_t v=strtoull(ln.c_str()+b2+1,nullptr,10); (ln[0]=='n'?num:ln[0]=='f'?fired:probes)[nm]+=v; } }
        else if (m.kind==4) { for (size_t j=0;j<d.size();j++) cov[j]|=(uint8_t)d[j]; }
        else if (m.kind==5) { for (size_t j=0;j+8<=d.size();j+=8) { uint64_t v; memcpy(&v,d.data()+j,8); sigs.insert(v); } }
      }
    }
  }
  bool workerfail=false; for (auto& w : ws) { int s=0; waitpid(w.pid,&s,0); if (!WIFEXITED(s)||WEXITSTATUS(s)) { workerfail=true; fprintf(stderr,"worker failed: status %x\n",s); } }
  double search = now()-t0;
  uint64_t edges=0; for (auto c : cov) edges += c;
  // determinism sample: a few runs again, in this process
  int det=0, detbad=0;
  if (viols.empty()) { rt_fresh_shared(); for (int k=0;k<6;k++) { uint64_t i = mix(seed,k)%runs; Scenario s=make(p,seed,i,thorough); Verdict a=exec(p,s), b=exec(p,s); det++; if (a.hist!=b.hist) { detbad++; fprintf(stderr,"nondeterministic run idx=%llu\n",(unsigned long long)i); } } }
  int rc = 0; std::string replay; uint64_t nviol = viols.size();
  if (!viols.empty()) {
    std::sort(viols.begin(), viols.end());
    uint64_t i = viols[0].first; size_t nl = viols[0].second.find('\n'); std::string cls = viols[0].second.substr(0,nl), det0 = viols[0].second.substr(nl+1);
    printf("violation found at run %llu (class %s): %s\n",(unsigned long long)i, cls.c_str(), det0.c_str());
    Scenario s = make(p,seed,i,thorough);
    Verdict a = exec(p,s), b = exec(p,s);
    for (int k=0;k<6 && (!a.violation || !b.violation || a.cls != cls || a.hist != b.hist);k++) { a = b; b = exec(p,s); }
    if (!a.violation && !b.violation) { // never seen again: not an execution the simulator controls, so it decides nothing; search again
      const char* rt = getenv("SIM_RETRY"); int n = rt ? atoi(rt) : 0;
      if (n < 3) { printf("that run did not happen again in eight repetitions and is discarded; the search starts over\n"); fflush(stdout); setenv("SIM_RETRY", S(n+1).c_str(), 1); execv("/proc/self/exe", g_argv); }
    }
    if (!a.violation || !b.violation || a.cls != cls || a.hist != b.hist) { printf("ERROR: the run does not repeat exactly (class %s/%s, history %llx/%llx)\n", a.cls.c_str(), b.cls.c_str(), (unsigned long long)a.hist,(unsigned long long)b.hist); return 2; }
    int tries=0; size_t before = s.l.size();
    if (!a.sw.empty()) { // the seeded schedule becomes an explicit one, so that it can be minimised
      Scenario x = s; x.l.clear(); for (auto& l : s.l) if (l.key != "sched") x.l.push_back(l); x.add("explicit", {"1"}, true); for (auto& q : a.sw) x.add("sw", {q.first, q.second});
      Verdict e = exec(p, x); if (e.violation && e.cls == cls) { s = x; before = s.l.size(); }
    }
    Scenario m = minimise(p,s,cls, thorough ? 240 : 60, tries);
    mkdir((verif+"/replays").c_str(),0777);
    auto gate = [&](const Scenario& x, std::string& path) {
      Verdict v = exec(p,x);
      path = verif + "/replays/" + id + "-" + what + "-" + S(seed) + "-" + S(i) + ".replay";
      char hb[64]; snprintf(hb,sizeof hb,"%016llx",(unsigned long long)v.hist);
      std::string txt = "# minimised simulation trace; replay with: /verif/run.sh replay <this file>\n# class: " + cls + "\n# seed " + S(seed) + " run " + S(i) + "\n#expect-class " + esc(cls) + "\n#expect-history " + hb + "\n";
      { std::string dd = v.detail; size_t q=0; while (q<=dd.size()) { size_t e=dd.find('\n',q); if (e==std::string::npos) e=dd.size(); txt += "# " + dd.substr(q,e-q) + "\n"; q=e+1; } }
      txt += x.text(); spit(path, txt);
      fflush(nullptr);
      pid_t pid=fork(); if (pid==0) { execl(self_path().c_str(),"simlt","replay",path.c_str(),"--quiet",(char*)nullptr); _exit(127); }
      int st=0; waitpid(pid,&st,0); return WIFEXITED(st) && WEXITSTATUS(st)==1;
    };
    bool ok = gate(m, replay);
    if (!ok) { printf("minimised trace did not reproduce in a fresh process; trying the full one\n"); ok = gate(s, replay); m = s; }
    if (!ok) { printf("ERROR: replay in a fresh process does not reproduce the violation\n"); return 2; }
    Verdict f = exec(p,m);
    printf("minimised %zu -> %zu lines in %d runs\nclass: %s\n%s\n", before, m.l.size(), tries, cls.c_str(), f.detail.c_str());
    printf("VIOLATION property=%s replay=%s\n", id.c_str(), replay.c_str());
    rc = 1;
  }
  double wall = now()-t0;
  // evidence
  std::string e = "{\n";
  auto kv = [&](const std::string& k, const std::string& v, bool last=false) { e += "  " + json_str(k) + ": " + v + (last ? "\n" : ",\n"); };
  auto mp = [&](std::map<std::string,uint64_t>& m) { std::string r="{"; bool f=true; for (auto& k : m) { r += (f?"":", ") + json_str(k.first) + ": " + S(k.second); f=false; } return r+"}"; };
  auto lst = [&](const std::vector<std::string>& m) { std::string r="["; bool f=true; for (auto& k : m) { r += (f?"":", ") + json_valid(k); f=false; } return r+"]"; };
  kv("property", json_str(id)); kv("tier", json_str(tier)); kv("seed", S(seed)); kv("level", json_str(p.level));
  e += "  \"coverage\": {\n";
  auto kc = [&](const std::string& k, const std::string& v, bool last=false) { e += "    " + json_str(k) + ": " + v + (last ? "\n" : ",\n"); };
  kc("evaluations", S(num["done"])); kc("distinct_nontrivial", S(sigs.size())); kc("rule", json_str(p.rule + " Distinct: by hash of the basic-block coverage sets of the simulated processes (and, where threads or pipelines run, of the interleaving trace). Vacuous runs (dictionary did not compile, or the workload never reached the condition under test) are not counted."));
  kc("vacuous_runs", S(num["vacuous"])); kc("simulated_processes", S(num["procs"])); kc("simulated_time_basic_blocks", S(num["steps"])); kc("seeds_per_hour", S((long)(num["done"]/std::max(0.001,search)*3600)));
  kc("bytes_delivered", S(num["bytes_in"])); kc("bytes_produced", S(num["bytes_out"])); kc("history_events", S(num["events"])); kc("blocks", S(num["blocks"]));
  kc("faults_fired", mp(fired)); kc("probes", mp(probes)); kc("code_edges_reached", S(edges)); kc("code_edges_total", S(rt_cov_edges_total())); kc("determinism_checked_runs", S(det));
  kc("components_real", lst(p.real)); kc("components_stubbed", lst(p.stub));
  std::vector<std::string> smp; for (int k=0;k<2;k++) smp.push_back(make(p,seed,mix(seed,100+k)%runs,thorough).text().substr(0,3000));
  kc("samples", lst(smp), true);
  e += "  },\n";
  kv("assumptions", lst(p.assumptions)); { char wb[32]; snprintf(wb,sizeof wb,"%.2f",wall); kv("wall_s", wb); } kv("violations", S(nviol), true); e += "}\n";
  mkdir((verif+"/evidence").c_str(),0777);
  spit(verif+"/evidence/"+id+".json", e);
  printf("%s: %llu runs (%llu vacuous, %llu distinct), %llu simulated processes, %.1f s search, edges %llu/%llu\n", id.c_str(), (unsigned long long)num["done"],(unsigned long long)num["vacuous"],(unsigned long long)sigs.size(),(unsigned long long)num["procs"],search,(unsigned long long)edges,(unsigned long long)rt_cov_edges_total());
  for (auto& k : fired) printf("  fault %-28s %llu\n", k.first.c_str(), (unsigned long long)k.second);
  for (auto& k : probes) printf("  probe %-28s %llu\n", k.first.c_str(), (unsigned long long)k.second);
  if (rc == 0) {
    if (workerfail) { printf("ERROR: a worker died\n"); return 2; }
    if (num["infra"] * 50 > num["done"] + 50) { printf("ERROR: too many runs without verdict (%llu): %s\n",(unsigned long long)num["infra"], infras.empty()?"":infras[0].c_str()); return 2; }
    if (num["infra"]) printf("  runs without verdict: %llu (%s)\n",(unsigned long long)num["infra"], infras.empty()?"":infras[0].c_str());
    if (detbad) { printf("ERROR: simulation is not deterministic\n"); return 2; }
    if (num["done"] == 0 || num["vacuous"] == num["done"]) { printf("ERROR: nothing was explored\n"); return 2; }
    printf("OK property=%s held on everything explored\n", id.c_str());
  }
  return rc;
}

int main(int argc, char** argv)
{
  g_argv = argv;
  setenv("LC_ALL","C.UTF-8",1); setenv("LANG","C.UTF-8",1); unsetenv("LT_JOBS"); unsetenv("LT_MAX_SECTION_ENTRIES");
  setlocale(LC_ALL, "C.UTF-8");
  rt_init(); load_tools();
  { UFILE* u = u_finit(stderr,nullptr,nullptr); (void)u; UErrorCode ec=U_ZERO_ERROR; UConverter* cv = ucnv_open(nullptr,&ec); if (U_SUCCESS(ec)) ucnv_close(cv); xmlInitParser(); }
  std::vector<std::string> a(argv+1, argv+argc); std::map<std::string,std::string> opt; std::vector<std::string> pos;
  for (size_t i=0;i<a.size();i++) if (a[i].rfind("--",0)==0) { if (a[i]=="--quiet" || a[i]=="--show") opt[a[i]]="1"; else if (i+1<a.size()) { opt[a[i]]=a[i+1]; i++; } } else pos.push_back(a[i]);
  std::string cmd = pos.empty() ? "" : pos[0];
  const char* ev = getenv("VERIF_SEED"); uint64_t seed = opt.count("--seed") ? strtoull(opt["--seed"].c_str(),nullptr,10) : ev ? strtoull(ev,nullptr,10) : 1;
  if (cmd == "list") { for (auto& p : registry()) printf("%s %s\n", p.id.c_str(), p.title.c_str()); return 0; }
  if (cmd == "check" && pos.size() > 1) {
    const char* et = getenv("VERIF_TIER"); std::string tier = opt.count("--tier") ? opt["--tier"] : et ? et : "quick";
    uint64_t runs = opt.count("--runs") ? strtoull(opt["--runs"].c_str(),nullptr,10) : 0;
    int w = opt.count("--workers") ? atoi(opt["--workers"].c_str()) : 8;
    std::string verif = opt.count("--verif") ? opt["--verif"] : "/verif";
    double cap = opt.count("--cap") ? atof(opt["--cap"].c_str()) : tier == "thorough" ? 3000 : 100;
    return cmd_check(pos[1], tier, seed, runs, w, verif, cap, tier);
  }
  if (cmd == "replay" && pos.size() > 1) {
    std::string t = slurp(pos[1]); Scenario s; if (!Scenario::parse(t, s)) { fprintf(stderr,"bad replay file\n"); return 2; }
    const Property& p = find_prop(s.prop);
    Verdict v = exec(p, s); bool q = opt.count("--quiet");
    char hb[64]; snprintf(hb,sizeof hb,"%016llx",(unsigned long long)v.hist);
    std::string ec, eh; size_t k = t.find("#expect-class "); if (k != std::string::npos) ec = unesc(t.substr(k+14, t.find('\n',k)-k-14)); k = t.find("#expect-history "); if (k != std::string::npos) eh = t.substr(k+16, 16);
    if (!q) { printf("verdict: %s class=%s history=%s%s\n%s\n", v.violation?"violation":v.infra?"no verdict":"holds", v.cls.c_str(), hb, eh.empty()?"":(eh==hb?" (identical to the recorded one)":" (DIFFERS from the recorded one)"), v.detail.c_str()); if (v.violation) printf("VIOLATION property=%s replay=%s\n", p.id.c_str(), pos[1].c_str()); }
    if (v.violation && (ec.empty() || ec == v.cls) && (eh.empty() || eh == hb)) return 1;
    return v.violation ? 2 : 0;
  }
  if (cmd == "one" && pos.size() > 2) {
    const Property& p = find_prop(pos[1]); uint64_t i = strtoull(pos[2].c_str(),nullptr,10);
    Scenario s = make(p, seed, i, opt["--tier"]=="thorough"); printf("%s", s.text().c_str());
    std::string iw; Verdict v = exec(p, s, nullptr, &iw); printf("=> violation=%d infra=%d(%s) vacuous=%d cls=%s\n%s\nhist=%llx\n", v.violation, v.infra, iw.c_str(), v.vacuous, v.cls.c_str(), v.detail.c_str(), (unsigned long long)v.hist);
    return 0;
  }
  if (cmd == "survey" && pos.size() > 1) { // classes of violations over many runs (development aid)
    const Property& p = find_prop(pos[1]); uint64_t n = opt.count("--runs") ? strtoull(opt["--runs"].c_str(),nullptr,10) : 500, from = opt.count("--from") ? strtoull(opt["--from"].c_str(),nullptr,10) : 0; std::map<std::string,std::pair<int,std::string>> cl; int vac=0, inf=0;
    for (uint64_t i=from;i<from+n;i++) { Scenario s=make(p,seed,i,opt["--tier"]=="thorough"); std::string iw; Verdict v=exec(p,s,nullptr,&iw); if (v.infra) { inf++; printf("infra %llu %s\n",(unsigned long long)i,iw.c_str()); continue; } if (v.vacuous) { vac++; if (opt.count("--show")) printf("vacuous %llu %s\n",(unsigned long long)i,v.detail.c_str()); } if (v.violation) { auto& c=cl[v.cls]; if (c.first++ < 3) c.second += "  idx " + S(i) + ": " + v.detail + "\n"; } }
    printf("runs %llu vacuous %d infra %d\n",(unsigned long long)n,vac,inf); for (auto& c : cl) printf("%s: %d\n%s", c.first.c_str(), c.second.first, c.second.second.c_str());
    return 0;
  }
  if (cmd == "min" && pos.size() > 2) { // minimise a given run (development aid)
    const Property& p = find_prop(pos[1]); Scenario s = make(p, seed, strtoull(pos[2].c_str(),nullptr,10), opt["--tier"]=="thorough"); Verdict v = exec(p,s); if (!v.violation) { printf("no violation\n"); return 0; } int t=0; Scenario m = minimise(p,s,v.cls,30,t); v = exec(p,m); printf("%s=> %s\n%s\n", m.text().c_str(), v.cls.c_str(), v.detail.c_str()); return 0;
  }
  fprintf(stderr, "usage: simlt list | check ID | replay FILE | one ID IDX | survey ID\n");
  return 2;
}
