#include "model.h"
#include <unicode/uchar.h>
#include <cmath>
bool m_upper(int c) { return c > 0 && u_isupper(c); }
int m_lower(int c) { return c > 0 ? u_tolower(c) : c; }
bool m_alnum(int c) { return c > 0 && u_isalnum(c); }
bool m_space(int c) { return c > 0 && u_isspace(c); }
static int m_up(int c) { return c > 0 ? u_toupper(c) : c; }
static bool special(int c) { return c > 0 && c < 128 && strchr("[]{}^$/\\@<>", c); }
std::string m_escape(const std::string& s) { std::string r; for (char c : s) { if (special((unsigned char)c)) r += '\\'; r += c; } return r; }
Machine::Machine(const RefDict& d) : d(d), syms(d.tags) { for (auto& kv : d.sec) { names.push_back(kv.first); tr.push_back(&kv.second); } }
void Machine::closure(Set& s)
{
  for (size_t i=0;i<s.size();i++) {
    if (s.size() > 4000) { over = true; return; }
    const RefTrans& t = *tr[s[i].sec];
    for (auto& e : t.st[s[i].st]) if (d.pairs[e.label].first == 0) {
      Cfg n = s[i]; n.st = e.dst; int o = d.pairs[e.label].second;
      if (o) { n.out.push_back(o); n.w += e.w; } // the weight of a transition that neither reads nor writes is not counted (the test suite pins this)
      if (n.out.size() > 400) { over = true; return; }
      s.push_back(n);
    }
  }
}
Machine::Set Machine::initial() { Set s; for (size_t i=0;i<tr.size();i++) if (!tr[i]->st.empty()) s.push_back({(int)i, tr[i]->initial, {}, 0, false}); closure(s); return s; }
Machine::Set Machine::step(const Set& s, int v, const std::set<int>& alts)
{
  Set r; if (v == 0) return r;
  for (auto& c : s) for (auto& e : tr[c.sec]->st[c.st]) {
    int in = d.pairs[e.label].first; if (in == 0) continue;
    bool alt = in != v; if (alt && !alts.count(in)) continue;
    Cfg n = c; n.st = e.dst; int o = d.pairs[e.label].second; if (o) n.out.push_back(o); n.w += e.w; n.dirty = n.dirty || alt; r.push_back(n);
    if (r.size() > 4000) { over = true; return r; }
  }
  closure(r); return r;
}
Machine::Set Machine::step_case(const Set& s, int v, const Opts& o)
{
  std::set<int> alts; bool fold = m_upper(v) && !o.case_sensitive;
  auto it = o.restore.find(v);
  if (it != o.restore.end()) { alts = it->second; if (fold) { alts.insert(m_lower(v)); auto l = o.restore.find(m_lower(v)); if (l != o.restore.end()) alts.insert(l->second.begin(), l->second.end()); } }
  else if (fold) alts.insert(m_lower(v));
  return step(s, v, alts);
}
double Machine::final_weight(const Cfg& c, bool& fin) const { auto f = tr[c.sec]->finals.find(c.st); fin = f != tr[c.sec]->finals.end(); return fin ? f->second : 0; }
static bool ends(const std::string& s, const char* e) { size_t n = strlen(e); return s.size() >= n && !s.compare(s.size()-n, n, e); }
int Machine::final_kind(const Set& s) { int k = 0; for (auto& c : s) { bool f; final_weight(c, f); if (f) k = std::max(k, ends(names[c.sec], "@standard") ? 1 : 2); } return k; }
int Machine::final_section(const Set& s) { int k = 3; for (auto& c : s) { bool f; final_weight(c, f); const std::string& n = names[c.sec]; if (f) k = std::min(k, ends(n, "@inconditional") ? 0 : ends(n, "@postblank") ? 1 : ends(n, "@preblank") ? 2 : 3); } return k; }
std::string Machine::text(const Cfg& c, bool up, bool first) const
{
  std::vector<std::string> parts; bool d1 = c.dirty && up; std::string t;
  for (int x : c.out) { if (special(x)) t += '\\'; t += x < 0 ? syms[-x-1] : utf8(d1 ? m_up(x) : x); }
  if (c.dirty && first && !t.empty()) { auto v = cps(t); size_t k = v[0] == '~' && v.size() > 1 ? 1 : 0; if (v[k] < 0x10000) { int u = m_up(v[k]); if (u < 0x10000) v[k] = u; } t.clear(); for (int x : v) t += utf8(x); }
  return t;
}
std::vector<Reading> Machine::readings(const Set& s, bool up, bool first)
{
  std::vector<Reading> r; for (auto& c : s) { bool f; double w = final_weight(c, f); if (f) r.push_back({text(c, up, first), w + c.w}); } return r;
}
int Machine::code(const std::string& t) const { for (size_t i=0;i<d.tags.size();i++) if (d.tags[i] == t) return -(int)i-1; return 0; }

static bool near(double a, double b) { return std::fabs(a-b) <= 1e-9 * (1 + std::fabs(a)); }
std::string check_readings(const std::vector<Reading>& all0, const std::vector<std::string>& shown0, const Opts& o)
{
  std::vector<Reading> all = all0; std::stable_sort(all.begin(), all.end(), [](const Reading& a, const Reading& b) { return a.w < b.w; });
  std::vector<std::string> shown; std::vector<double> sw;
  for (auto& x : shown0) { if (!o.weights) { shown.push_back(x); continue; } size_t p = x.rfind("<W:"); if (p == std::string::npos || x.back() != '>') return "a reading without its weight: " + x; shown.push_back(x.substr(0,p)); sw.push_back(atof(x.c_str()+p+3)); }
  // weight classes of paths
  std::vector<std::vector<Reading>> cl; for (auto& x : all) { if (cl.empty() || !near(cl.back()[0].w, x.w)) cl.push_back({}); cl.back().push_back(x); }
  if ((int)cl.size() > o.max_l) cl.resize(o.max_l);
  long left = o.max_n; std::set<std::string> seen; size_t k = 0;
  for (auto& c : cl) {
    if (left <= 0) break;
    std::set<std::string> must; std::map<std::string,int> mult; for (auto& x : c) { mult[x.s]++; if (!seen.count(x.s)) must.insert(x.s); }
    std::set<std::string> got; bool cut = (long)c.size() > left;
    while (k < shown.size() && must.count(shown[k]) && !got.count(shown[k])) { if (o.weights && std::fabs(sw[k] - c[0].w) > 1e-5) return "reading " + shown[k] + " has weight " + shown0[k].substr(shown[k].size()) + " but its path weighs " + std::to_string(c[0].w); got.insert(shown[k++]); }
    if (!cut) { if (got.size() != must.size()) { for (auto& x : must) if (!got.count(x)) return "reading " + x + " is missing or out of order"; } }
    else { // any `left` of the paths of this class
      std::vector<int> m; for (auto& x : mult) m.push_back(x.second); std::sort(m.rbegin(), m.rend()); long need = left; size_t least = 0; for (int x : m) { if (need <= 0) break; need -= x; least++; }
      size_t old = mult.size() - must.size(); // readings already shown with a lower weight
      if (got.size() + old < least) return "too few readings for the limit"; if ((long)got.size() > left) return "more readings than the limit";
    }
    left -= (long)c.size(); for (auto& x : mult) seen.insert(x.first);
  }
  if (k < shown.size()) return "unexpected reading " + shown0[k];
  return "";
}
Opts opts_of(const Scenario& s)
{
  Opts o; auto* t = s.one("tool"); bool noign = false, rest = false, ign = false; if (!t) return o;
  auto chars = [&](const std::string& f, const char* tag, std::vector<std::pair<int,int>>& out) { std::string x; for (auto* l : s.all("file")) if (l->str(0) == f) x += l->str(1); int cur = 0; for (size_t p = 0; (p = x.find("value=\"", p)) != std::string::npos; ) { size_t b = x.rfind('<', p); bool sub = x.compare(b, 8, "<restore") == 0; p += 7; int c = cps(x.substr(p, x.find('"',p)-p))[0]; if (sub) out.push_back({cur, c}); else { cur = c; out.push_back({c, 0}); } } (void)tag; };
  for (size_t i=1;i<t->t.size();i++) { const std::string& a = t->t[i];
    if (a == "-c") o.case_sensitive = true; else if (a == "-w") o.dict_case = true; else if (a == "-W") o.weights = true; else if (a == "-C") o.careful = true;
    else if (a == "-N" && i + 1 < t->t.size()) o.max_n = atoi(t->t[++i].c_str()); else if (a == "-L" && i + 1 < t->t.size()) o.max_l = atoi(t->t[++i].c_str());
    else if (a == "-I") noign = true; else if (a == "-e") o.compound = true; else if (a == "-M" && i + 1 < t->t.size()) o.max_parts = atoi(t->t[++i].c_str());
    else if (a == "-i" && i + 1 < t->t.size()) { ign = true; std::vector<std::pair<int,int>> v; chars(t->t[++i], "char", v); for (auto& p : v) o.ignored.insert(p.first); }
    else if (a == "-r" && i + 1 < t->t.size()) { rest = true; std::vector<std::pair<int,int>> v; chars(t->t[++i], "char", v); for (auto& p : v) if (p.second) o.restore[p.first].insert(p.second); }
  }
  (void)ign; if (!noign && !rest) o.ignored.insert(0xAD);
  return o;
}

// ---- analysis ------------------------------------------------------------------
bool a_parse(const std::string& b, const Opts& o, std::vector<int>& in)
{
  auto v = cps(b);
  for (size_t i=0;i<v.size();i++) {
    int c = v[i]; if (c == 0) return false; if (o.ignored.count(c)) continue;
    if (c == '\\') { if (++i >= v.size()) return false; in.push_back(v[i]); continue; }
    if (c == '[') {
      if (i + 1 < v.size() && v[i+1] == '[') { size_t k = i + 2; while (k + 1 < v.size() && !(v[k] == ']' && v[k+1] == ']')) { if (v[k] == '\\') k++; k++; } if (k + 1 >= v.size()) return false; i = k + 1; }
      else { size_t k = i + 1; while (k < v.size() && v[k] != ']') { if (v[k] == '\\') k++; k++; } if (k >= v.size()) return false; i = k; }
      in.push_back(' '); continue;
    }
    if (special(c)) return false;
    in.push_back(c);
  }
  return true;
}
static std::vector<uint16_t> u16(const std::vector<int>& v) { std::vector<uint16_t> r; for (int c : v) if (c < 0x10000) r.push_back((uint16_t)c); else { r.push_back((uint16_t)(0xD800 + ((c-0x10000) >> 10))); r.push_back((uint16_t)(0xDC00 + ((c-0x10000) & 0x3FF))); } return r; }
// a word that is looked up whole: its own readings, or else the compounds with the fewest parts
static bool last_part_has(const std::vector<int>& out, int sym) { for (size_t n=out.size();n-- > 0;) { if (out[n] == sym) return true; if (out[n] == '+') return false; } return false; }
static bool compound_word(Machine& m, const std::vector<int>& w, const Opts& o, int L, int R, std::vector<Reading>& br)
{
  auto u = u16(w); bool first = false, up = false; if (!o.dict_case) { first = m_upper(u[0]); up = u.size() > 1 && first && m_upper(u.back()); }
  Machine::Set s = m.initial(); for (int c : w) { s = m.step_case(s, c, o); if (m.over) return false; }
  Machine::Set k; for (auto& c : s) if (std::find(c.out.begin(), c.out.end(), L) == c.out.end()) k.push_back(c);
  br = m.readings(k, up, first); if (!br.empty()) return true;
  Opts oc = o; oc.restore.clear(); s = m.initial(); const Machine::Set init = s;
  for (size_t i=0;i<w.size();i++) {
    s = m.step_case(s, w[i], oc); if (m.over || s.size() > 3000) { m.over = true; return false; }
    if (i + 1 < w.size()) { size_t n = s.size(); for (size_t j=0;j<n;j++) { bool f; m.final_weight(s[j], f); if (f && last_part_has(s[j].out, L)) for (auto& b : init) { if (!b.out.empty()) { m.over = true; return false; } Cfg x = s[j]; x.sec = b.sec; x.st = b.st; x.out.push_back('+'); s.push_back(x); } } }
  }
  int least = o.max_parts; std::vector<int> parts; for (auto& c : s) { int n = -1; if (last_part_has(c.out, R)) { n = 0; for (size_t j=1;j+1<c.out.size();j++) if (c.out[j] == '+') n++; least = std::min(least, n); bool f; m.final_weight(c, f); if (!f) { m.over = true; return false; } } parts.push_back(n); }
  k.clear(); for (size_t j=0;j<s.size();j++) if (parts[j] >= 0 && parts[j] <= least) k.push_back(s[j]);
  br = m.readings(k, up, first); return true;
}
bool a_compound(Machine& m, const std::vector<int>& in, const Opts& o, std::vector<AItem>& out, std::string* skel)
{ // words are maximal runs of alphabetic characters; dictionaries and texts where an entry could reach over the end of a word are outside
  int L = m.code("<compound-only-L>"), R = m.code("<compound-R>"); if (!L || !R) return false;
  m.syms[-L-1] = m.syms[-R-1] = ""; for (auto& n : m.names) if (!ends(n, "@standard")) return false;
  for (size_t i=0;i<in.size();) {
    if (!m.alphabetic(in[i])) { if (!m.step_case(m.initial(), in[i], o).empty()) return false; AItem a; a.ch = in[i]; if (skel) *skel += utf8(in[i]); if (!m_space(in[i])) out.push_back(a); i++; continue; }
    if (skel) *skel += '\1';
    AItem a; a.unit = true; Machine::Set s = m.initial(); while (i < in.size() && m.alphabetic(in[i])) { if (in[i] > 0xffff) return false; s = m.step_case(s, in[i], o); a.surf.push_back(in[i++]); if (m.over) return false; }
    if (i < in.size() && !m.step_case(s, in[i], o).empty()) return false;
    if (!compound_word(m, a.surf, o, L, R, a.all)) return false;
    a.unknown = a.all.empty(); out.push_back(a);
  }
  return true;
}
bool a_model(Machine& m, const std::vector<int>& in, const Opts& o, std::vector<AItem>& out, std::string* skel)
{ // left to right, longest match
  if (o.compound) return a_compound(m, in, o, out, skel);
  for (size_t i=0;i<in.size();) {
    Machine::Set s = m.initial(); size_t best = 0; int sec = 3; std::vector<Reading> br; std::vector<int> surf;
    for (size_t j=i;!s.empty();j++) {
      int next = j < in.size() ? in[j] : 0; int k = m.final_kind(s);
      if (k == 2 || (k == 1 && !m.alphabetic(next))) {
        auto u = u16(surf); bool first = false, up = false;
        if (!o.dict_case && !u.empty()) { first = m_upper(u[0]); up = u.size() > 1 && first && m_upper(u.back()); }
        best = j; sec = m.final_section(s); br = m.readings(s, up, first);
      }
      if (next == 0) break;
      s = m.step_case(s, next, o); surf.push_back(next);
      if (m.over) return false;
    }
    if (best > i) { if (skel) *skel += sec == 2 ? " \1" : sec == 1 ? "\1 " : "\1"; AItem a; a.unit = true; a.surf.assign(in.begin()+i, in.begin()+best); a.all = br; out.push_back(a); i = best; continue; }
    if (!m.alphabetic(in[i])) { if (skel) *skel += utf8(in[i]); AItem a; a.ch = in[i]; if (!m_space(in[i])) out.push_back(a); i++; continue; }
    if (skel) *skel += '\1';
    AItem a; a.unit = a.unknown = true; while (i < in.size() && m.alphabetic(in[i])) a.surf.push_back(in[i++]);
    out.push_back(a);
  }
  return true;
}
bool o_parse(const std::string& r, std::vector<OItem>& out, std::string& why, std::string* skel)
{
  auto v = cps(r);
  for (size_t i=0;i<v.size();i++) {
    int c = v[i];
    if (c == '[') { bool w = i + 1 < v.size() && v[i+1] == '['; size_t k = i + (w ? 2 : 1); while (k < v.size() && !(v[k] == ']' && (!w || (k + 1 < v.size() && v[k+1] == ']')))) { if (v[k] == '\\') k++; k++; } if (k >= v.size()) { why = "unfinished blank"; return false; } i = k + (w ? 1 : 0); continue; }
    if (c == '^') {
      OItem u; u.unit = true; std::vector<std::string> f(1); size_t k = i + 1; bool done = false;
      for (;k<v.size();k++) { if (v[k] == '\\' && k + 1 < v.size()) { f.back() += '\\'; f.back() += utf8(v[++k]); continue; } if (v[k] == '$') { done = true; break; } if (v[k] == '/') { f.push_back(""); continue; } if (v[k] == '^') { why = "a unit inside a unit"; return false; } f.back() += utf8(v[k]); }
      if (!done) { why = "unfinished unit"; return false; }
      u.surf = f[0]; u.readings.assign(f.begin()+1, f.end()); out.push_back(u); if (skel) *skel += '\1'; i = k; continue;
    }
    if (c == '\\') { if (++i >= v.size()) { why = "trailing backslash"; return false; } OItem u; u.ch = v[i]; if (skel) *skel += utf8(v[i]); if (!m_space(u.ch)) out.push_back(u); continue; }
    if (special(c)) { why = std::string("unescaped ") + utf8(c); return false; }
    if (skel) *skel += utf8(c);
    if (m_space(c)) continue;
    OItem u; u.ch = c; out.push_back(u);
  }
  return true;
}

// ---- lexical units ----------------------------------------------------------------
LReading l_word(const std::string& w, const Machine& m)
{
  LReading r; auto v = cps(w); size_t i = 0; static const std::string M = "*@#=%";
  if (!v.empty() && v[0] < 128 && M.find((char)v[0]) != std::string::npos) { r.mark = v[0]; i = 1; }
  for (;i<v.size();i++) {
    if (v[i] == '\\' && i + 1 < v.size()) { r.content += '\\'; r.content += utf8(v[++i]); r.syms.push_back(v[i]); r.texts.push_back(utf8(v[i])); }
    else if (v[i] == '<') { std::string t = "<"; while (++i < v.size() && v[i] != '>') t += utf8(v[i]); t += '>'; r.content += t; r.syms.push_back(m.code(t)); r.texts.push_back(t); r.tags = true; }
    else { r.content += utf8(v[i]); r.syms.push_back(v[i]); r.texts.push_back(utf8(v[i])); }
  }
  return r;
}
bool l_parse(const std::string& b, const Machine& m, std::vector<LItem>& out)
{
  size_t i = 0; LItem cur;
  while (i < b.size()) {
    char c = b[i];
    if (c == '\\') { cur.blank += b.substr(i,2); i += 2; continue; }
    if (c == '[' && i + 1 < b.size() && b[i+1] == '[') { size_t e = b.find("]]", i); if (e == std::string::npos) return false; std::string w = b.substr(i, e + 2 - i); i = e + 2; if (i < b.size() && b[i] == '^') cur.wblank = w; else return false; continue; }
    if (c == '[') { size_t k = i + 1; while (k < b.size() && b[k] != ']') { if (b[k] == '\\') k++; k++; } if (k >= b.size()) return false; cur.blank += b.substr(i, k + 1 - i); i = k + 1; continue; }
    if (c != '^') { if (special((unsigned char)c)) return false; cur.blank += c; i++; continue; }
    cur.unit = true; std::string w; bool done = false;
    for (i++;i<b.size();i++) { if (b[i] == '\\') { w += b[i++]; if (i < b.size()) w += b[i]; continue; } if (b[i] == '{' || b[i] == '}' || b[i] == '^') return false; if (b[i] == '/' || b[i] == '$') { cur.r.push_back(l_word(w, m)); w.clear(); if (b[i] == '$') { done = true; i++; break; } continue; } w += b[i]; }
    if (!done) return false;
    out.push_back(cur); cur = LItem();
  }
  out.push_back(cur); return true;
}
bool render(const std::vector<Reading>& all0, const Opts& o, std::vector<std::string>& out)
{
  std::vector<Reading> all = all0; std::stable_sort(all.begin(), all.end(), [](const Reading& a, const Reading& b) { return a.w < b.w; });
  std::vector<std::vector<std::string>> cl; std::vector<double> cw; for (auto& x : all) { if (cl.empty() || !near(cw.back(), x.w)) { cl.push_back({}); cw.push_back(x.w); } cl.back().push_back(x.s); }
  if ((int)cl.size() > o.max_l) cl.resize(o.max_l);
  struct P { std::string t; std::set<std::string> seen; }; std::vector<P> cur(1); long left = o.max_n;
  for (size_t k=0;k<cl.size() && left > 0;k++) {
    auto& c = cl[k]; if (c.size() > 5) return false; std::sort(c.begin(), c.end()); char wb[400] = ""; if (o.weights) snprintf(wb, sizeof wb, "<W:%f>", cw[k]);
    std::vector<P> nx; std::set<std::string> have;
    do { for (auto& p : cur) { P q = p; for (long j=0;j<(long)c.size() && j<left;j++) if (q.seen.insert(c[j]).second) { if (q.seen.size() > 1) q.t += '/'; q.t += c[j] + wb; } std::string key = q.t; for (auto& x : q.seen) key += "\n" + x; if (have.insert(key).second) nx.push_back(q); } if (nx.size() > 400) return false; } while (std::next_permutation(c.begin(), c.end()));
    cur = nx; left -= (long)c.size();
  }
  std::set<std::string> u; for (auto& p : cur) u.insert(p.t); out.assign(u.begin(), u.end()); return true;
}

// ---- rewriting ---------------------------------------------------------------------
Machine::Set Machine::step_keep(const Set& s, int v, const Opts& o)
{
  if (!m_upper(v) || o.case_sensitive) return step(s, v, {});
  int lo = m_lower(v); Set r;
  for (auto& c : s) for (auto& e : tr[c.sec]->st[c.st]) {
    int in = d.pairs[e.label].first; if (in != v && in != lo) continue;
    Cfg n = c; n.st = e.dst; int x = d.pairs[e.label].second; if (x == lo) x = v; if (x) n.out.push_back(x); n.w += e.w; n.dirty = n.dirty || in != v; r.push_back(n);
    if (r.size() > 4000) { over = true; return r; }
  }
  closure(r); return r;
}
bool p_parse(const std::string& b, std::vector<int>& text, bool& plain, std::string& lead, std::string& tail)
{ // words with one ' ' for every blank between them; plain: every blank is one space
  auto v = cps(b); plain = true; bool inw = false; std::string blank; int words = 0; bool after_w = false;
  for (size_t i=0;i<v.size();) {
    if (m_space(v[i]) || (v[i] == '[' && !(i + 1 < v.size() && v[i+1] == '['))) {
      if (inw) return false;                     // a blank inside a word with a wordblank: outside
      if (v[i] == '[') { size_t k = i + 1; while (k < v.size() && v[k] != ']') { if (v[k] == '\\') k++; k++; } if (k >= v.size()) return false; for (;i<=k;i++) blank += utf8(v[i]); }
      else blank += utf8(v[i++]);
      after_w = false; continue;
    }
    if (v[i] == '[') { // wordblank: opens or closes
      plain = false; size_t k = i + 2; while (k + 1 < v.size() && !(v[k] == ']' && v[k+1] == ']')) k++; if (k + 1 >= v.size()) return false;
      bool close = k == i + 3 && v[i+2] == '/'; i = k + 2; if (close) { if (!inw) return false; inw = false; after_w = true; continue; }
      if (inw || (blank.empty() && !text.empty())) return false; inw = true; if (i < v.size() && v[i] == '[') return false; continue;
    }
    if (after_w) return false;
    if (!blank.empty() || text.empty()) { if (words) { text.push_back(' '); if (blank != " ") plain = false; } else lead = blank; blank.clear(); words++; }
    int c = v[i]; if (c == '\\') { if (++i >= v.size() || m_space(v[i])) return false; c = v[i]; } else if (special(c)) return false;
    text.push_back(c); i++;
  }
  tail = blank; return !inw;
}
bool p_model(Machine& m, std::vector<int> t, const Opts& o, bool drop, std::string& out, int& changes)
{
  changes = 0; const Machine::Set init = m.initial(); if (m.final_kind(init)) return false;
  for (size_t pos=0;pos<t.size();) {
    Machine::Set s = init; bool first = false, up = false, h1 = false, h2 = false; size_t best = 0; std::vector<int> rep; bool found = false;
    for (size_t j=pos;;j++) {
      std::vector<Cfg> fin; double lo = 0; for (auto& c : s) { bool f; double w = m.final_weight(c, f); if (f) { if (fin.empty() || w + c.w < lo) lo = w + c.w; fin.push_back(c); } }
      if (!fin.empty()) {
        std::set<std::string> cand; for (auto& c : fin) { bool f; double w = m.final_weight(c, f); if (near(w + c.w, lo)) cand.insert(m.text(c, up, first)); }
        if (cand.size() != 1) return false;      // which of several results is taken is not specified
        found = true; best = j; rep = cps(*cand.begin()); for (int c : rep) if (special(c)) return false;
        if (j > pos && t[j-1] == ' ' && !rep.empty() && rep.back() == ' ') { best = j - 1; rep.pop_back(); }
        else if (j > pos && t[j-1] == ' ') {}
      }
      if (j >= t.size()) break;
      int c = t[j]; if (m.alphabetic(c)) { if (!h1) { h1 = true; first = m_upper(c); if (!first) h2 = true; } else if (!h2) { h2 = true; up = m_upper(c); } }
      s = m.step_keep(s, c, o); if (m.over) return false; if (s.empty()) break;
    }
    if (!found) { pos++; continue; }
    size_t len = best - pos, k = 0; while (k < rep.size() && k + 1 < len && rep[rep.size()-1-k] == t[best-1-k]) k++;
    t.erase(t.begin()+pos, t.begin()+best); t.insert(t.begin()+pos, rep.begin(), rep.end()); pos += rep.size() - k; if (++changes > 3000) return false;
  }
  for (int c : t) { if (drop && c == '~') continue; if (special(c)) out += '\\'; out += utf8(c); }
  return true;
}
