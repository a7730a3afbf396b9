#include "fst.h"
#include <cmath>

std::string utf8(int c) { std::string r; if (c < 0x80) r += (char)c; else if (c < 0x800) { r += (char)(0xC0|(c>>6)); r += (char)(0x80|(c&63)); } else if (c < 0x10000) { r += (char)(0xE0|(c>>12)); r += (char)(0x80|((c>>6)&63)); r += (char)(0x80|(c&63)); } else { r += (char)(0xF0|(c>>18)); r += (char)(0x80|((c>>12)&63)); r += (char)(0x80|((c>>6)&63)); r += (char)(0x80|(c&63)); } return r; }
std::vector<int> cps(const std::string& s)
{
  std::vector<int> v; for (size_t i=0;i<s.size();) { unsigned char c = s[i]; int n = c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : c >= 0xC0 ? 2 : 1; int x = n == 4 ? c & 7 : n == 3 ? c & 15 : n == 2 ? c & 31 : c; for (int k=1;k<n && i+k<s.size();k++) x = (x << 6) | ((unsigned char)s[i+k] & 63); v.push_back(x); i += n; } return v;
}
std::string RefDict::sym(int s) const { if (s == 0) return ""; if (s < 0) return (size_t)(-s-1) < tags.size() ? tags[-s-1] : "<?>"; return utf8(s); }

namespace {
struct Rd {
  const Bytes& b; size_t p = 0; bool bad = false;
  int byte() { if (p >= b.size()) { bad = true; return 0; } return (unsigned char)b[p++]; }
  uint32_t mb() { int u = byte(); int n = u >> 6; uint32_t v = u & 0x3f; for (int i=0;i<n;i++) v = (v << 8) | (uint32_t)byte(); return v; }
  uint64_t u64() { uint64_t v = 0; for (int i=0;i<8;i++) v = (v << 8) | (uint64_t)byte(); return v; }
  uint32_t half() { uint32_t u = mb(); if (u < 0x04000000) return u; uint32_t lo = mb(); return ((u & 0x03ffffff) << 26) | lo; }
  double dbl() { uint32_t m = half(), e = half(); if (m == 0xffffffffu && e >= 0xfffffffeu) return e == 0xffffffffu ? INFINITY : -INFINITY; return std::ldexp((double)(int32_t)m / 0x40000000, (int32_t)e); }
  bool head(const char* h) { if (p + 4 <= b.size() && !b.compare(p, 4, h)) { p += 4; return true; } return false; }
  std::string str() { std::string r; uint32_t n = mb(); for (uint32_t i=0;i<n && !bad;i++) r += utf8((int)mb()); return r; }
};
struct Wr {
  Bytes b;
  void mb(uint32_t v) { if (v < 0x40) b += (char)v; else if (v < 0x4000) { b += (char)(0x40 | (v >> 8)); b += (char)v; } else if (v < 0x400000) { b += (char)(0x80 | (v >> 16)); b += (char)(v >> 8); b += (char)v; } else { b += (char)(0xc0 | (v >> 24)); b += (char)(v >> 16); b += (char)(v >> 8); b += (char)v; } }
  void u64(uint64_t v) { for (int i=7;i>=0;i--) b += (char)(v >> (8*i)); }
  void half(uint32_t v) { if (v < 0x04000000) mb(v); else { mb((v >> 26) | 0x04000000); mb(v & 0x03ffffff); } }
  void dbl(double d) { int e = 0; uint32_t m = (uint32_t)(int32_t)(0x40000000 * std::frexp(d, &e)); uint32_t ee = (uint32_t)e; if (std::isinf(d)) { m = 0xffffffffu; ee = d < 0 ? 0xfffffffeu : 0xffffffffu; } half(m); half(ee); }
  void str(const std::string& s) { auto v = cps(s); mb(v.size()); for (int c : v) mb(c); }
};
}
bool ref_decode(const Bytes& b, RefDict& o, std::string& why)
{
  o = RefDict(); Rd r{b};
  if (r.head("LTTB")) { if (r.u64() != 0) { why = "unknown features in the file header"; return false; } }
  uint32_t n = r.mb(); for (uint32_t i=0;i<n && !r.bad;i++) o.letters.insert((int)r.mb());
  n = r.mb(); for (uint32_t i=0;i<n && !r.bad;i++) o.tags.push_back("<" + r.str() + ">");
  int bias = (int)o.tags.size();
  n = r.mb(); for (uint32_t i=0;i<n && !r.bad;i++) { int x = (int)r.mb() - bias, y = (int)r.mb() - bias; o.pairs.push_back({x,y}); }
  n = r.mb();
  for (uint32_t i=0;i<n && !r.bad;i++) {
    std::string name = r.str(); RefTrans& t = o.sec[name]; bool w = false;
    if (r.head("LTTD")) { uint64_t f = r.u64(); if (f > 1) { why = "unknown features in section " + name; return false; } w = f & 1; }
    t.initial = (int)r.mb(); uint32_t k = r.mb(); int base = 0;
    for (uint32_t j=0;j<k && !r.bad;j++) { base += (int)r.mb(); t.finals[base] = w ? r.dbl() : 0.0; }
    int ns = (int)r.mb(); if (r.bad || ns > 4000000) break; t.st.resize(ns);
    for (int s=0;s<ns && !r.bad;s++) { uint32_t m = r.mb(); int tag = 0; for (uint32_t j=0;j<m && !r.bad;j++) { tag += (int)r.mb(); int dst = (int)((s + (int64_t)r.mb()) % ns); double x = w ? r.dbl() : 0.0; if ((size_t)tag >= o.pairs.size()) { why = "transition label out of range in section " + name; return false; } t.st[s].push_back({tag, dst, x}); } }
    for (auto& f : t.finals) if (f.first >= ns) { why = "final state out of range in section " + name; return false; }
    if (t.initial >= ns) { why = "initial state out of range in section " + name; return false; }
  }
  if (r.bad) { why = "the file ends too early"; return false; }
  if (r.p != b.size()) { why = S(b.size() - r.p) + " bytes after the end of the dictionary"; return false; }
  return true;
}
Bytes ref_encode(const RefDict& d, bool old)
{
  Wr w; if (!old) { w.b += "LTTB"; w.u64(0); }
  w.mb(d.letters.size()); for (int c : d.letters) w.mb(c);
  w.mb(d.tags.size()); for (auto& t : d.tags) w.str(t.substr(1, t.size()-2));
  w.mb(d.pairs.size()); for (auto& p : d.pairs) { w.mb(p.first + (int)d.tags.size()); w.mb(p.second + (int)d.tags.size()); }
  w.mb(d.sec.size());
  for (auto& kv : d.sec) {
    const RefTrans& t = kv.second; w.str(kv.first);
    bool wt = false; for (auto& f : t.finals) if (f.second != 0) wt = true; for (auto& s : t.st) for (auto& e : s) if (e.w != 0) wt = true;
    if (!old) { w.b += "LTTD"; w.u64(wt ? 1 : 0); } else wt = false;
    w.mb(t.initial); w.mb(t.finals.size()); int base = 0; for (auto& f : t.finals) { w.mb(f.first - base); base = f.first; if (wt) w.dbl(f.second); }
    int ns = (int)t.st.size(); w.mb(ns);
    for (int s=0;s<ns;s++) { w.mb(t.st[s].size()); int tb = 0; for (auto& e : t.st[s]) { w.mb(e.label - tb); tb = e.label; w.mb(e.dst >= s ? e.dst - s : e.dst + ns - s); if (wt) w.dbl(e.w); } }
  }
  return w.b;
}
static std::string shown(const std::string& s) { return s.empty() ? "ε" : s; }
std::string RefDict::print() const
{
  std::string o; bool first = true;
  for (auto& kv : sec) {
    if (!first) o += "--\n"; first = false;
    RefTrans t = kv.second;
    if (t.finals.size() > 1) { // the printed form has one final state
      int n = (int)t.st.size(); t.st.push_back({});
      for (auto& f : t.finals) { RefEdge e{0, n, f.second}; auto& v = t.st[f.first]; size_t k = 0; while (k < v.size() && v[k].label <= 0) k++; v.insert(v.begin() + k, e); }
      t.finals.clear(); t.finals[n] = 0;
    }
    char b[64];
    for (size_t s=0;s<t.st.size();s++) for (auto& e : t.st[s]) { o += S((long)s) + "\t" + S(e.dst) + "\t" + shown(sym(pairs[e.label].first)) + "\t" + shown(sym(pairs[e.label].second)) + "\t"; snprintf(b, sizeof b, "%f", e.w); o += b; o += "\n"; }
    for (auto& f : t.finals) { snprintf(b, sizeof b, "%f", f.second); o += S(f.first) + "\t" + b + "\n"; }
  }
  return o;
}
std::string RefDict::print_alpha() const { std::string o; for (int c : letters) o += utf8(c) + "\n"; for (auto& t : tags) o += t + "\n"; return o; }
bool RefDict::relation(const std::string& name, std::set<Entry>& out, size_t cap, int maxlen) const
{
  auto it = sec.find(name); if (it == sec.end()) return true;
  const RefTrans& t = it->second; if (t.st.empty()) return true;
  struct It { int st; std::string l, r; double w; int n; };
  std::vector<It> q{{t.initial, "", "", 0, 0}}; bool full = true; size_t work = 0;
  while (!q.empty()) {
    It x = q.back(); q.pop_back();
    if (++work > cap * 20) return false;
    auto f = t.finals.find(x.st); if (f != t.finals.end()) { out.insert({x.l, x.r, x.w + f->second}); if (out.size() > cap) return false; }
    if (x.n >= maxlen) { if (!t.st[x.st].empty()) full = false; continue; }
    for (auto& e : t.st[x.st]) q.push_back({e.dst, x.l + sym(pairs[e.label].first), x.r + sym(pairs[e.label].second), x.w + e.w, x.n + 1});
  }
  return full;
}
bool RefDict::strings(std::set<std::pair<std::string,std::string>>& out, size_t cap) const
{
  bool ok = true; for (auto& kv : sec) { std::set<Entry> e; ok = relation(kv.first, e, cap) && ok; for (auto& x : e) out.insert({x.l, x.r}); } return ok;
}
