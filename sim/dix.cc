#include "dix.h"
#include <unicode/uchar.h>
#include <cmath>
// ---- XML ---------------------------------------------------------------------
static std::string entities(const std::string& s)
{
  std::string r; for (size_t i=0;i<s.size();i++) { if (s[i] != '&') { r += s[i]; continue; } size_t e = s.find(';', i); if (e == std::string::npos) { r += s[i]; continue; } std::string n = s.substr(i+1, e-i-1);
    if (n == "amp") r += '&'; else if (n == "lt") r += '<'; else if (n == "gt") r += '>'; else if (n == "quot") r += '"'; else if (n == "apos") r += '\''; else if (n[0] == '#') r += utf8(n[1] == 'x' ? strtol(n.c_str()+2,nullptr,16) : atoi(n.c_str()+1)); i = e; }
  return r;
}
bool xml_tree(const std::string& s, XNode& root)
{
  std::vector<XNode> st(1); size_t i = 0;
  auto add = [&](XNode n) { st.back().c.push_back(std::move(n)); };
  while (i < s.size()) {
    if (s[i] != '<') { size_t e = s.find('<', i); if (e == std::string::npos) e = s.size(); XNode t; t.name = "#text"; t.text = entities(s.substr(i, e-i)); auto& c = st.back().c; if (!c.empty() && c.back().name == "#text") c.back().text += t.text; else add(t); i = e; continue; }
    if (s.compare(i,4,"<!--") == 0) { size_t e = s.find("-->", i); if (e == std::string::npos) return false; XNode t; t.name = "#comment"; add(t); i = e+3; continue; }
    if (s[i+1] == '?' || s[i+1] == '!') { size_t e = s.find('>', i); if (e == std::string::npos) return false; i = e+1; continue; }
    size_t e = s.find('>', i); if (e == std::string::npos) return false;
    if (s[i+1] == '/') { if (st.size() < 2 || st.back().name != s.substr(i+2, e-i-2)) return false; XNode n = std::move(st.back()); st.pop_back(); add(std::move(n)); i = e+1; continue; }
    bool empty = s[e-1] == '/'; std::string t = s.substr(i+1, e-i-1-(empty?1:0)); XNode n; size_t p = 0; while (p < t.size() && !isspace((unsigned char)t[p])) n.name += t[p++];
    while (p < t.size()) { while (p < t.size() && isspace((unsigned char)t[p])) p++; size_t q = t.find('=', p); if (q == std::string::npos) break; std::string k = t.substr(p, q-p); char d = t[q+1]; size_t z = t.find(d, q+2); if (z == std::string::npos) return false; n.a[k] = entities(t.substr(q+2, z-q-2)); p = z+1; }
    i = e+1; if (empty) add(std::move(n)); else st.push_back(std::move(n));
  }
  if (st.size() != 1) return false;
  for (auto& c : st[0].c) if (c.name[0] != '#') { root = c; return true; }
  return false;
}
// ---- symbols -----------------------------------------------------------------
static std::map<std::string,char32_t>& tagmap() { static std::map<std::string,char32_t> m; return m; }
static std::vector<std::string>& tagnames() { static std::vector<std::string> m; return m; }
char32_t tag_code(const std::string& t) { auto& m = tagmap(); auto i = m.find(t); if (i != m.end()) return i->second; char32_t c = 0x200000 + tagnames().size(); m[t] = c; tagnames().push_back(t); return c; }
bool is_tag_code(char32_t c) { return c >= 0x200000; }
std::string sym_text(const Sym& s) { std::string r; for (char32_t c : s) r += is_tag_code(c) ? tagnames()[c - 0x200000] : c == ' ' ? "_" : utf8(c); return r; }
static Sym to_sym(const std::string& s) { Sym r; for (int c : cps(s)) r += (char32_t)c; return r; }
static void put(Rel& r, const std::pair<Sym,Sym>& k, double w) { auto i = r.find(k); if (i == r.end()) r[k] = w; else if (w < i->second) i->second = w; }
static const size_t CAP = 6000;
static bool product(Rel& a, const Rel& b, int K)
{
  Rel r; for (auto& x : a) for (auto& y : b) { if ((int)(x.first.first.size() + y.first.first.size()) > K || (int)(x.first.second.size() + y.first.second.size()) > K) continue; put(r, {x.first.first + y.first.first, x.first.second + y.first.second}, x.second + y.second); if (r.size() > CAP) return false; }
  a.swap(r); return true;
}
// ---- regular expressions --------------------------------------------------------
struct Re {
  std::vector<int> in; size_t i = 0; int K; bool over = false;
  typedef std::set<Sym> L;
  L cat(const L& a, const L& b) { L r; for (auto& x : a) for (auto& y : b) if ((int)(x.size()+y.size()) <= K) { r.insert(x+y); if (r.size() > CAP) { over = true; return r; } } return r; }
  int peek() { return i < in.size() ? in[i] : -1; }
  L alt() { L r = seq(); while (peek() == '|') { i++; L b = seq(); r.insert(b.begin(), b.end()); } return r; }
  L seq() { L r = {Sym()}; while (peek() >= 0 && peek() != '|' && peek() != ')') r = cat(r, term()); return r; }
  int letter() { if (peek() == '\\') i++; return in[i++]; }
  L term() {
    L r;
    if (peek() == '(') { i++; r = alt(); i++; }
    else if (peek() == '[') { i++; bool neg = peek() == '^'; if (neg) i++; std::set<int> s; while (peek() != ']' && peek() >= 0) { int a = letter(), b = a; if (peek() == '-') { i++; b = letter(); } for (int k=a;k<=b;k++) s.insert(k); } i++;
      if (neg) { for (int k=1;k<256;k++) if (!s.count(k)) r.insert(Sym(1,k)); } else for (int k : s) r.insert(Sym(1,k)); }
    else r.insert(Sym(1, letter()));
    int p = peek();
    if (p == '?') { i++; r.insert(Sym()); }
    else if (p == '*' || p == '+') { i++; L acc = r, last = r; while (!last.empty() && !over) { L n = cat(last, r), fresh; for (auto& x : n) if (acc.insert(x).second) fresh.insert(x); if (acc.size() > CAP) over = true; last = fresh; } if (p == '*') acc.insert(Sym()); r = acc; }
    return r;
  }
};
// ---- dictionaries -----------------------------------------------------------------
static bool has(const std::string& list, const std::string& v) { size_t p = 0; while (p <= list.size()) { size_t e = list.find(' ', p); if (e == std::string::npos) e = list.size(); if (list.substr(p, e-p) == v) return true; p = e+1; } return false; }
struct DixCtx { DixOpt o; int K; bool over = false, weights = true, sep = false; std::map<std::string,Rel> par; };
static void side(const XNode& n, bool keep, Sym& out)
{
  for (auto& c : n.c) {
    if (c.name == "#text") out += to_sym(c.text);
    else if (c.name == "b") out += U' '; else if (c.name == "j") out += U'+'; else if (c.name == "a") out += U'~';
    else if (c.name == "m") { if (keep) out += U'>'; }
    else if (c.name == "g") { out += U'#'; side(c, keep, out); }
    else if (c.name == "s") out += tag_code("<" + c.at("n") + ">");
    else if (c.name == "d") out += tag_code(c.at("space") == "yes" ? "<$_>" : c.at("space") == "no" ? "<$->" : "<$>");
    else if (c.name == "f") out += tag_code("</>");
    else if (c.name == "t") out += tag_code("<ANY_TAG>");
    else if (c.name == "w") out += tag_code("<ANY_CHAR>");
  }
}
static bool selected(const XNode& e, const DixOpt& o)
{
  bool rl = o.dir == "rl"; std::string r = e.at("r"), D = rl ? "RL" : "LR";
  if (e.at("i") == "yes") return false;
  if (!r.empty() && r != D) return false;
  if (!e.at("alt").empty() && !has(e.at("alt"), o.alt)) return false;
  if (!e.at("v").empty() && !o.var.empty() && !has(e.at("v"), o.var)) return false;
  if (rl && !e.at("vl").empty() && !has(e.at("vl"), o.vl)) return false;
  if (!rl && !e.at("vr").empty() && !has(e.at("vr"), o.vr)) return false;
  return true;
}
static void accents(Rel& t, const std::map<int,std::set<int>>& acx, bool& over)
{
  if (acx.empty()) return; Rel r;
  for (auto& x : t) { std::vector<Sym> ls = {Sym()}; for (char32_t c : x.first.first) { std::vector<Sym> n; for (auto& p : ls) { n.push_back(p + c); auto i = acx.find((int)c); if (i != acx.end()) for (int y : i->second) n.push_back(p + (char32_t)y); } ls.swap(n); if (ls.size() > CAP) { over = true; return; } } for (auto& l : ls) put(r, {l, x.first.second}, x.second); if (r.size() > CAP) { over = true; return; } }
  t.swap(r);
}
// the pairs of one entry; none when the entry is not selected or refers to an empty paradigm
static Rel entry_rel(const XNode& e, DixCtx& x)
{
  Rel r; if (!selected(e, x.o)) return r;
  double w = e.at("w").empty() ? 0 : atof(e.at("w").c_str()); int weighted = 0; bool first = true, any = false;
  r[{Sym(),Sym()}] = 0;
  for (auto& c : e.c) {
    Rel t;
    if (c.name == "p" || c.name == "i" || c.name == "ig") {
      Sym l, rr; if (c.name == "p") { for (auto& d : c.c) { if (d.name == "l") side(d, x.o.keep, l); if (d.name == "r") side(d, x.o.keep, rr); } } else { side(c, x.o.keep, l); rr = (c.name == "ig" ? Sym(U"#") : Sym()) + l; }
      t[{l,rr}] = 0; if (x.sep && c.name == "i") { // a wildcard stands for one or more
        t.clear(); std::set<Sym> v = {Sym()}; for (char32_t ch : l) { std::set<Sym> n; for (auto& q : v) { Sym z = q + ch; n.insert(z); if (ch == tag_code("<ANY_TAG>") || ch == tag_code("<ANY_CHAR>")) while ((int)z.size() < x.K) { z += ch; n.insert(z); } } v = n; } for (auto& q : v) t[{q,q}] = 0; }
      accents(t, x.o.acx, x.over); any = true; if (!l.empty() || !rr.empty()) weighted++;
      if (l.empty() && rr.empty() && w != 0) x.weights = false;
    } else if (c.name == "re") {
      Re q; q.K = x.K; std::string s; for (auto& d : c.c) s += d.text; q.in = cps(s); for (auto& l : q.alt()) t[{l,l}] = 0; if (q.over) x.over = true; any = true;
    } else if (c.name == "par") { t = x.par[c.at("n")]; any = true; if (t.empty()) return Rel(); }
    else continue;
    if (!product(r, t, x.K)) x.over = true; if (x.over) return r; first = false;
  }
  (void)first; if (!any) return Rel();
  if (w != 0) { if (weighted != 1) x.weights = false; for (auto& p : r) p.second += w; }   // the weight of an entry counts once
  return r;
}
bool dix_loops(const std::string& xml) { if (xml.find("<t/>") != std::string::npos || xml.find("<w/>") != std::string::npos) return true; size_t p = 0; while ((p = xml.find("<re>", p)) != std::string::npos) { size_t e = xml.find("</re>", p); std::string s = xml.substr(p, e-p); for (size_t i=0;i<s.size();i++) { if (s[i] == '\\') { i++; continue; } if (s[i] == '+' || s[i] == '*') return true; } p = e; } return false; }
MDict dix_model(const std::string& xml, const DixOpt& o, int K)
{
  MDict m; m.K = K; XNode root; if (!xml_tree(xml, root)) { m.over = true; m.why = "the model cannot read the source"; return m; }
  DixCtx x; x.o = o; x.K = K; x.sep = root.at("type") == "separable" || root.at("type") == "sequential";
  auto merge = [&](Rel& to, const Rel& f) { for (auto& p : f) put(to, p.first, p.second); if (to.size() > CAP) x.over = true; };
  for (auto& c : root.c) {
    if (c.name == "alphabet") { std::string t; for (auto& d : c.c) t += d.text; bool sp = true; for (int k : cps(t)) if (!u_isUWhiteSpace(k)) sp = false; if (!sp) for (int k : cps(t)) m.letters.insert(k); }
    if (c.name == "pardefs") for (auto& p : c.c) if (p.name == "pardef") { for (auto& e : p.c) if (e.name == "e") { Rel r = entry_rel(e, x); merge(x.par[p.at("n")], r); } if (x.over) break; }
    if (c.name == "section") for (auto& e : c.c) if (e.name == "e") { Rel r = entry_rel(e, x); if (!r.empty()) merge(m.sec[c.at("id") + "@" + c.at("type")], r); if (x.over) break; }
    if (x.over) { m.over = true; m.why = "too many forms"; return m; }
  }
  if (x.sep) { x.weights = false; for (auto& sc : m.sec) { Rel more; for (auto& p : sc.second) more[{p.first.first + tag_code("<$>"), p.first.second + tag_code("<$>")}] = p.second; for (auto& p : more) if ((int)p.first.first.size() <= K && (int)p.first.second.size() <= K) put(sc.second, p.first, p.second); } }
  if (o.dir == "rl") m = op_invert(m);
  m.weights = x.weights;
  return m;
}
// ---- lt-expand -----------------------------------------------------------------------
static std::string esc_text(const std::string& s) { std::string r; for (char c : s) { if (strchr("^$/<>{}\\*@#+~:", c) && c) r += '\\'; r += c; } return r; }
static void esc_side(const XNode& n, bool keep, std::string& out)
{
  for (auto& c : n.c) {
    if (c.name == "#text") out += esc_text(c.text);
    else if (c.name == "b") out += ' '; else if (c.name == "j") out += '+'; else if (c.name == "a") out += '~';
    else if (c.name == "m") { if (keep) out += '>'; }
    else if (c.name == "g") { out += '#'; esc_side(c, keep, out); }
    else if (c.name == "s") out += "<" + c.at("n") + ">";
  }
}
struct XItem { std::string l, r; int d; };   // d: 0 both, 1 LR, 2 RL
static std::string esc_re(const std::string& s) { std::string r; bool e = false; for (char c : s) { if (e) { r += c; e = false; continue; } if (strchr("^$/<>{}*@#+~:", c)) r += '\\'; else if (c == '\\') e = true; r += c; } return r; }
std::vector<std::string> dix_expand(const std::string& xml, const DixOpt& o, bool& over)
{
  std::vector<std::string> out; XNode root; if (!xml_tree(xml, root)) { over = true; return out; }
  std::map<std::string,std::vector<XItem>> par;
  auto items = [&](const XNode& e) {
    std::vector<XItem> r; if (e.at("i") == "yes" || (!e.at("alt").empty() && e.at("alt") != o.alt)) return r;
    r.push_back({"","", e.at("r") == "LR" ? 1 : e.at("r") == "RL" ? 2 : 0}); bool any = false;
    for (auto& c : e.c) {
      std::vector<XItem> t;
      if (c.name == "p" || c.name == "i" || c.name == "ig") { std::string l, q; if (c.name == "p") { for (auto& d : c.c) { if (d.name == "l") esc_side(d, o.keep, l); if (d.name == "r") esc_side(d, o.keep, q); } } else { esc_side(c, o.keep, l); q = (c.name == "ig" ? "#" : "") + l; } t.push_back({l,q,0}); }
      else if (c.name == "re") { std::string s; for (auto& d : c.c) s += d.text; s = "__REGEXP__" + esc_re(s); t.push_back({s,s,0}); }
      else if (c.name == "par") t = par[c.at("n")];
      else continue;
      any = true; std::vector<XItem> n;
      for (auto& a : r) for (auto& b : t) { if (a.d && b.d && a.d != b.d) continue; n.push_back({a.l+b.l, a.r+b.r, a.d ? a.d : b.d}); }
      r.swap(n); if (r.size() > CAP) { over = true; return r; }
    }
    if (!any) r.clear();
    return r;
  };
  for (auto& c : root.c) {
    if (c.name == "pardefs") for (auto& p : c.c) if (p.name == "pardef") for (auto& e : p.c) if (e.name == "e") { auto v = items(e); auto& q = par[p.at("n")]; q.insert(q.end(), v.begin(), v.end()); }
    if (c.name == "section") for (auto& e : c.c) if (e.name == "e") for (auto& i : items(e)) out.push_back(i.l + (i.d == 1 ? ":>:" : i.d == 2 ? ":<:" : ":") + i.r);
    if (over) break;
  }
  std::sort(out.begin(), out.end()); return out;
}
// ---- automata -------------------------------------------------------------------------
struct Graph { struct E { Sym l, r; int to; double w; }; std::map<int,std::vector<E>> e; std::map<int,double> fin; int start = 0; };
static bool paths(const Graph& g, int K, Rel& out)
{
  // states from which a final state can be reached
  std::map<int,std::vector<int>> back; for (auto& s : g.e) for (auto& e : s.second) back[e.to].push_back(s.first);
  std::set<int> live; std::vector<int> st; for (auto& f : g.fin) { live.insert(f.first); st.push_back(f.first); }
  while (!st.empty()) { int s = st.back(); st.pop_back(); for (int p : back[s]) if (live.insert(p).second) st.push_back(p); }
  if (!live.count(g.start)) return true;
  struct C { int s; Sym l, r; double w; int idle; }; std::vector<C> todo = {{g.start,{},{},0,0}}; size_t n = 0;
  while (!todo.empty()) {
    C c = todo.back(); todo.pop_back(); if (++n > 400000) return false;
    auto f = g.fin.find(c.s); if (f != g.fin.end()) { put(out, {c.l,c.r}, c.w + f->second); if (out.size() > CAP * 2) return false; }
    auto es = g.e.find(c.s); if (es == g.e.end()) continue;
    for (auto& e : es->second) { if (!live.count(e.to)) continue; int idle = e.l.empty() && e.r.empty() ? c.idle + 1 : 0; if (idle > 200) return false; if ((int)(c.l.size()+e.l.size()) > K || (int)(c.r.size()+e.r.size()) > K) continue; todo.push_back({e.to, c.l+e.l, c.r+e.r, c.w+e.w, idle}); }
  }
  return true;
}
bool bin_model(const Bytes& b, int K, MDict& m, std::string& why)
{
  RefDict d; if (!ref_decode(b, d, why)) return false;
  m = MDict(); m.K = K; m.letters = d.letters; 
  auto sy = [&](int s) { return s == 0 ? Sym() : s > 0 ? Sym(1,(char32_t)s) : Sym(1, tag_code(d.tags[-s-1])); };
  for (auto& t : d.sec) {
    Graph g; g.start = t.second.initial; g.fin = t.second.finals;
    for (size_t s=0;s<t.second.st.size();s++) for (auto& e : t.second.st[s]) { auto& p = d.pairs[e.label]; g.e[s].push_back({sy(p.first), sy(p.second), e.dst, e.w}); }
    Rel r; if (!paths(g, K, r)) { m.over = true; m.why = "too many paths in section " + t.first; return true; }
    m.sec[t.first] = r;
  }
  return true;
}
MDict att_model(const std::string& att, bool rl, bool split, int K)
{
  MDict m; m.K = K; Graph g; int off = 1, mx = 0; bool first = true; std::set<int> ini; std::string line; size_t p = 0; g.start = 0;
  auto sy = [&](const std::string& s) { if (s == "@0@" || s == "ε" || s == "@_EPSILON_SYMBOL_@") return Sym(); if (s == "@_SPACE_@") return Sym(U" "); if (s.size() > 2 && s[0] == '<' && s.back() == '>') return Sym(1, tag_code(s)); return to_sym(s); };
  while (p < att.size()) {
    size_t e = att.find('\n', p); if (e == std::string::npos) e = att.size(); line = att.substr(p, e-p); p = e+1; if (line.empty()) continue;
    if (line[0] == '-') { off = mx + 1; first = true; continue; }
    std::vector<std::string> t(1); for (char c : line) { if (c == '\t') t.push_back(""); else t.back() += c; }
    int from = atoi(t[0].c_str()) + off; mx = std::max(mx, from); if (first) { g.e[0].push_back({{},{},from,0}); ini.insert(from); first = false; }
    if (t.size() <= 2) { double w = t.size() > 1 ? atof(t[1].c_str()) : 0; if (!g.fin.count(from)) g.fin[from] = w; continue; }
    if (t.size() < 4) { m.over = true; m.why = "columns"; return m; }
    int to = atoi(t[1].c_str()) + off; mx = std::max(mx, to); Sym a = sy(t[2]), b = sy(t[3]); if (rl) std::swap(a,b);
    g.e[from].push_back({a,b,to,t.size() > 4 ? atof(t[4].c_str()) : 0});
  }
  // which section a path belongs to is decided by its first character; where an initial state is entered again
  // a path may come to lie in both sections; paths that begin without a character are not judged
  for (auto& n : g.e) for (auto& a : n.second) { if (n.first && ini.count(a.to)) m.loose = true; if (ini.count(n.first) && (a.l.empty() || is_tag_code(a.l[0])) && split) { m.over = true; m.why = "starts without a character"; } }
  Rel r; if (!paths(g, K, r)) { m.over = true; m.why = "too many paths"; return m; }
  if (!split) { m.sec["main@standard"] = r; return m; }
  for (auto& x : r) { bool found = false; for (char32_t c : x.first.first) { if (is_tag_code(c)) continue; bool mark = (c >= 0x300 && c <= 0x36f); if (u_ispunct(c) && !mark) { m.sec["final@inconditional"][x.first] = x.second; found = true; } else if (!u_isUWhiteSpace(c) && !u_ispunct(c)) { m.sec["main@standard"][x.first] = x.second; found = true; } break; } if (!found) { m.over = true; m.why = "neither word nor punctuation"; } }
  return m;
}
std::map<int,std::set<int>> acx_table(const std::string& xml)
{
  std::map<int,std::set<int>> r; XNode n; if (!xml_tree(xml, n)) return r;
  for (auto& c : n.c) if (c.name == "char") { auto k = cps(c.at("value")); if (k.empty() || r.count(k[0])) continue; for (auto& e : c.c) if (e.name == "equiv-char") { auto v = cps(e.at("value")); if (!v.empty()) r[k[0]].insert(v[0]); } }
  return r;
}
// ---- operations -----------------------------------------------------------------------
MDict op_invert(const MDict& a) { MDict r = a; for (auto& s : r.sec) { Rel n; for (auto& x : s.second) n[{x.first.second, x.first.first}] = x.second; s.second.swap(n); } return r; }
MDict op_append(const MDict& a, const MDict& b, bool keep) { MDict r = a; r.letters.insert(b.letters.begin(), b.letters.end()); r.K = std::min(a.K,b.K); r.weights = a.weights && b.weights; for (auto& s : b.sec) if (!keep || !r.sec.count(s.first)) r.sec[s.first] = s.second; return r; }
MDict op_acx(const MDict& a, const std::map<int,std::set<int>>& t) { MDict r = a; for (auto& s : r.sec) accents(s.second, t, r.over); return r; }
Rel rel_union(const MDict& a) { Rel r; for (auto& s : a.sec) for (auto& x : s.second) put(r, x.first, x.second); return r; }
MDict op_compose(const MDict& f, const MDict& g, bool inv)
{
  MDict r; r.letters = f.letters; r.K = std::min(f.K, g.K); r.weights = f.weights && g.weights; Rel u = rel_union(g); std::map<Sym,std::vector<std::pair<Sym,double>>> by; for (auto& x : u) by[x.first.first].push_back({x.first.second, x.second});
  for (auto& s : f.sec) { Rel n; for (auto& x : s.second) { const Sym& mid = inv ? x.first.first : x.first.second; auto i = by.find(mid); if (i != by.end()) for (auto& y : i->second) put(n, inv ? std::make_pair(y.first, x.first.second) : std::make_pair(x.first.first, y.first), x.second + y.second); } if (!n.empty()) r.sec[s.first] = n; }
  return r;
}
// every output of f with any disjoint stretches of it replaced by what g makes of them
MDict op_compose_anywhere(const MDict& f, const MDict& g, bool inv)
{
  MDict r; r.letters = f.letters; r.K = std::min(f.K, g.K); r.weights = f.weights && g.weights; Rel u = rel_union(g);
  for (auto& x : u) if (x.first.first.empty()) { r.over = true; r.why = "an insertion"; return r; }
  size_t work = 0;
  for (auto& s : f.sec) { Rel n; for (auto& x : s.second) {
    const Sym& mid = inv ? x.first.first : x.first.second;
    std::vector<std::map<Sym,double>> at(mid.size() + 1); at[0][Sym()] = x.second; auto add = [](std::map<Sym,double>& m, const Sym& k, double w) { auto q = m.find(k); if (q == m.end()) m[k] = w; else if (w < q->second) q->second = w; };
    for (size_t i=0;i<mid.size();i++) for (auto& y : at[i]) { if (++work > 200000) { r.over = true; r.why = "too many"; return r; } add(at[i+1], y.first + mid[i], y.second); for (auto& z : u) { const Sym& d = z.first.first; if (mid.compare(i, d.size(), d) == 0) add(at[i+d.size()], y.first + z.first.second, y.second + z.second); } }
    for (auto& y : at[mid.size()]) put(n, inv ? std::make_pair(y.first, x.first.second) : std::make_pair(x.first.first, y.first), y.second);
  } if (!n.empty()) r.sec[s.first] = n; }
  return r;
}
std::string rel_diff(const Rel& want, const Rel& got, bool weights)
{
  for (auto& x : want) { auto i = got.find(x.first); if (i == got.end()) return "missing " + sym_text(x.first.first) + ":" + sym_text(x.first.second); if (weights && std::fabs(i->second - x.second) > 1e-3 * (1 + std::fabs(x.second))) { char b[80]; snprintf(b,80," has weight %g, expected %g", i->second, x.second); return "weight: " + sym_text(x.first.first) + ":" + sym_text(x.first.second) + b; } }
  for (auto& x : got) if (!want.count(x.first)) return "extra " + sym_text(x.first.first) + ":" + sym_text(x.first.second);
  return "";
}
std::string dict_diff(const MDict& want, const MDict& got, bool sections, bool weights)
{
  if (sections && want.loose) { std::string e = rel_diff(rel_union(want), rel_union(got), weights); if (!e.empty()) return e; for (auto& n : want.sec) { auto b = got.sec.find(n.first); for (auto& x : n.second) if (!x.first.first.empty() && !is_tag_code(x.first.first[0]) && (b == got.sec.end() || !b->second.count(x.first))) return "missing " + sym_text(x.first.first) + ":" + sym_text(x.first.second) + " in section " + n.first; } return ""; }
  if (!sections) return rel_diff(rel_union(want), rel_union(got), weights);
  static const Rel none; std::set<std::string> names; for (auto& s : want.sec) names.insert(s.first); for (auto& s : got.sec) names.insert(s.first);
  for (auto& n : names) { auto a = want.sec.find(n), b = got.sec.find(n); std::string e = rel_diff(a == want.sec.end() ? none : a->second, b == got.sec.end() ? none : b->second, weights); if (!e.empty()) return e + " in section " + n; }
  return "";
}
int trim_rule(const Sym& t0, const std::set<Sym>& bi, const std::set<char32_t>& tags)
{
  Sym t; for (char32_t c : t0) if (c != tag_code("<compound-only-L>") && c != tag_code("<compound-R>")) t += c;
  auto is_tags = [&](const Sym& s) { for (char32_t c : s) if (!tags.count(c)) return false; return true; };
  auto starts = [&](const Sym& s, const Sym& p) { return s.size() >= p.size() && s.compare(0, p.size(), p) == 0; };
  // a bilingual entry with a group, as it looks in an analysis: the tags come first
  struct Bi { Sym head, group; bool g; }; std::vector<Bi> B; bool plus = false;
  for (auto& b : bi) { size_t h = b.find(U'#'); if (b.find(U'+') != Sym::npos) plus = true; if (h == Sym::npos) B.push_back({b,{},false}); else { size_t e = h+1; while (e < b.size() && !is_tag_code(b[e])) e++; Sym rest = b.substr(e); for (char32_t c : rest) if (!is_tag_code(c)) return 0; if (rest.empty()) return 0; B.push_back({b.substr(0,h) + rest, b.substr(h, e-h), true}); } }
  auto accept = [&](const Sym& u) { size_t h = u.find(U'#'); Sym head = u.substr(0,h), grp = h == Sym::npos ? Sym() : u.substr(h); for (auto& b : B) { if (b.g != (h != Sym::npos)) continue; if (starts(head, b.head) && is_tags(head.substr(b.head.size())) && grp == b.group) return true; } return false; };
  auto viable = [&](const Sym& u) { for (auto& b : B) { if (b.g) { if (starts(b.head, u) || (starts(u, b.head))) return true; } else if (starts(b.head, u) || (starts(u, b.head) && is_tags(u.substr(b.head.size())))) return true; } return false; };
  if (plus || (t.find(U'#') != Sym::npos && t.find(U'+') != Sym::npos)) return 0;
  std::vector<Sym> u; size_t p = 0; while (true) { size_t e = t.find(U'+', p); u.push_back(t.substr(p, e == Sym::npos ? e : e-p)); if (e == Sym::npos) break; p = e+1; }
  bool all = true; for (auto& x : u) if (!accept(x)) all = false;
  if (all) return 1;
  if (u.size() == 1) return -1;
  if (!accept(u.back())) return -1;
  for (auto& x : u) if (!viable(x)) return -1;
  return 0;
}
