#include "core.h"
#include <cstdio>
uint64_t hash_str(const std::string& s, uint64_t h) { for (unsigned char c : s) { h ^= c; h *= 0x100000001b3ull; } return h; }
uint64_t mix(uint64_t a, uint64_t b) { uint64_t z = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15ull + (a<<6) + (a>>2)); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
std::string S(long n) { return std::to_string(n); }
std::string esc(const std::string& s)
{
  std::string r; static const char* hx = "0123456789abcdef";
  for (unsigned char c : s) { if (c <= ' ' || c == '%' || c == 0x7f) { r += '%'; r += hx[c>>4]; r += hx[c&15]; } else r += (char)c; }
  if (r.empty()) r = "%-";
  return r;
}
std::string unesc(const std::string& s)
{
  if (s == "%-") return "";
  std::string r; auto v = [](char c) { return c >= 'a' ? c-'a'+10 : c-'0'; };
  for (size_t i=0;i<s.size();i++) if (s[i]=='%' && i+2 < s.size()) { r += (char)(v(s[i+1])*16+v(s[i+2])); i += 2; } else r += s[i];
  return r;
}
std::string show(const Bytes& b, size_t max)
{
  std::string r; for (size_t i=0;i<b.size() && r.size() < max;i++) { unsigned char c=b[i]; if (c=='\n') r += "\\n"; else if (c=='\0') r += "\\0"; else if (c < 32) { char t[8]; snprintf(t,sizeof t,"\\x%02x",c); r += t; } else r += (char)c; }
  if (r.size() >= max) r += "...";
  return r;
}
std::string Scenario::text() const
{
  std::string r = "property " + prop + "\n";
  for (auto& x : l) { r += (x.fixed ? "!" : "") + x.key; for (auto& t : x.t) { r += ' '; r += esc(t); } r += '\n'; }
  return r;
}
bool Scenario::parse(const std::string& text, Scenario& out)
{
  size_t p = 0;
  while (p < text.size()) {
    size_t e = text.find('\n', p); if (e == std::string::npos) e = text.size();
    std::string ln = text.substr(p, e-p); p = e+1;
    if (ln.empty() || ln[0]=='#') continue;
    std::vector<std::string> t; size_t q = 0;
    while (q <= ln.size()) { size_t w = ln.find(' ', q); if (w == std::string::npos) w = ln.size(); if (w > q) t.push_back(unesc(ln.substr(q,w-q))); q = w+1; }
    if (t.empty()) continue;
    std::string k = t[0]; t.erase(t.begin());
    if (k == "property") { out.prop = t.empty() ? "" : t[0]; continue; }
    bool f = k[0]=='!'; if (f) k = k.substr(1);
    out.l.push_back({k, t, f});
  }
  return !out.prop.empty();
}
void Stats::merge(const Stats& o)
{
  procs += o.procs; steps += o.steps; blocks += o.blocks; bytes_in += o.bytes_in; bytes_out += o.bytes_out; events += o.events;
  for (auto& k : o.fired) fired[k.first] += k.second;
  for (auto& k : o.probes) probes[k.first] += k.second;
}
static std::string fault_kind(const std::string& f)
{ // "w name errno" -> kind
  switch (f[0]) { case 'w': return "write error"; case 'r': return "read error"; case 'c': return "close error"; case 'o': return "open error"; case 'x': return "crash during write"; case 'n': return "allocation failure"; case 's': return "seek error"; case 't': return "thread creation failure"; }
  return f;
}
void RunCtx::fire(const ProcResult& r)
{
  st.procs++; st.steps += r.steps; st.bytes_out += r.out.size(); st.events += r.log.size();
  for (auto& k : r.fired) st.fired[fault_kind(k.first)]++;
  if (r.switches) st.fired["thread preemption"] += r.switches;
  hist = mix(hist, r.loghash);
  sig = mix(sig, r.covhash);
  if (r.infra) { infra = true; infra_why += r.status() + " code=" + S(r.code) + " sig=" + S(r.sig) + "; "; }
}
ProcResult RunCtx::run(const ProcSpec& s, const Disk& d)
{
  ProcResult r = rt_run(s, d);
  st.bytes_in += s.input.size();
  if (!s.chunks.empty()) st.fired["input delivery split"] += s.chunks.size() - 1;
  if (!s.file_read_sizes.empty()) st.fired["short file reads"]++;
  if (s.alloc_mode) st.fired["heap layout perturbed"]++;
  fire(r);
  return r;
}
PipeResult RunCtx::pipe(const PipeSpec& s, const Disk& d)
{
  PipeResult p = rt_pipeline(s, d);
  st.bytes_in += s.input.size();
  st.events += p.events;
  if (p.killed) st.fired["process killed"]++;
  if (p.epipes) st.fired["broken pipe"] += p.epipes;
  for (auto& r : p.res) fire(r);
  hist = mix(hist, hash_str(p.trace)); sig = mix(sig, hash_str(p.trace));
  return p;
}
std::vector<Property>& registry() { static auto* r = new std::vector<Property>(); return *r; }
