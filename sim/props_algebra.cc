// Operations on transducers against a reference automaton.
#include "props.h"
#include <cmath>
#include <queue>

struct NEdge { std::string l; int to; double w; };
struct Nfa { std::vector<std::vector<NEdge>> e; int init = 0; std::map<int,double> fin; bool open = true, weighted = false;
  Nfa() { e.resize(1); }
  int add() { e.push_back({}); return (int)e.size() - 1; }
  void arc(int a, const std::string& l, int b, double w = 0) { e[a].push_back({l,b,w}); if (w != 0) weighted = true; }
  void fin_at(int s, double w) { auto it = fin.find(s); if (it == fin.end()) fin[s] = w; else it->second = std::min(it->second, w); if (w != 0) weighted = true; }
  int embed(const Nfa& o) { int b = (int)e.size(); for (auto& x : o.e) { e.push_back(x); for (auto& y : e.back()) y.to += b; } weighted |= o.weighted; return b; }
  int join() { int s = add(); for (auto& f : fin) arc(f.first, "", s, f.second); fin.clear(); fin[s] = 0; return s; }
};
typedef std::map<int,double> WSet;   // states with the smallest weight they are reached with
static WSet w_close(const Nfa& n, WSet s)
{
  typedef std::pair<double,int> P; std::priority_queue<P,std::vector<P>,std::greater<P>> q; for (auto& x : s) q.push({x.second,x.first});
  while (!q.empty()) { auto p = q.top(); q.pop(); if (s[p.second] < p.first) continue; for (auto& y : n.e[p.second]) if (y.l.empty()) { double w = p.first + y.w; auto it = s.find(y.to); if (it == s.end() || it->second > w) { s[y.to] = w; q.push({w,y.to}); } } }
  return s;
}
static WSet w_step(const Nfa& n, const WSet& s, const std::string& l) { WSet r; for (auto& x : s) for (auto& y : n.e[x.first]) if (y.l == l) { double w = x.second + y.w; auto it = r.find(y.to); if (it == r.end() || it->second > w) r[y.to] = w; } return w_close(n, r); }
static double w_final(const Nfa& n, const WSet& s) { double b = INFINITY; for (auto& x : s) { auto it = n.fin.find(x.first); if (it != n.fin.end()) b = std::min(b, x.second + it->second); } return b; }
static void w_labels(const Nfa& n, const WSet& s, std::set<std::string>& o) { for (auto& x : s) for (auto& y : n.e[x.first]) if (!y.l.empty()) o.insert(y.l); }
// the states from which a final one can be reached
static std::vector<bool> w_live(const Nfa& n)
{
  std::vector<std::vector<int>> back(n.e.size()); for (size_t i=0;i<n.e.size();i++) for (auto& y : n.e[i]) back[y.to].push_back((int)i);
  std::vector<bool> l(n.e.size()); std::vector<int> q; for (auto& f : n.fin) { l[f.first] = true; q.push_back(f.first); }
  while (!q.empty()) { int s = q.back(); q.pop_back(); for (int b : back[s]) if (!l[b]) { l[b] = true; q.push_back(b); } }
  return l;
}
static WSet w_trim(const WSet& s, const std::vector<bool>& l) { WSet r; for (auto& x : s) if (l[x.first]) r.insert(x); return r; }
static bool empty_lang(const Nfa& n) { auto l = w_live(n); return !l[n.init]; }
static std::string word_text(const std::vector<std::string>& w) { std::string o; for (auto& x : w) o += (o.empty() ? "" : " ") + x; return "[" + o + "]"; }
// "" or a word on which the two differ
static std::string differ(const Nfa& a, const Nfa& b, uint64_t& compared, bool& complete)
{
  struct Q { WSet a, b; std::vector<std::string> w; }; auto la = w_live(a), lb = w_live(b); std::set<std::pair<WSet,WSet>> seen; std::vector<Q> todo; complete = true;
  todo.push_back({w_trim(w_close(a, {{a.init,0}}), la), w_trim(w_close(b, {{b.init,0}}), lb), {}});
  for (size_t i=0;i<todo.size();i++) {
    if (i > 900) { complete = false; break; }
    Q q = todo[i]; double base = 0; if (!q.a.empty()) { base = INFINITY; for (auto& x : q.a) base = std::min(base, x.second); }
    auto norm = [&](WSet s) { for (auto& x : s) x.second -= base; return s; }; if (!seen.insert({norm(q.a), norm(q.b)}).second) continue; compared++;
    double fa = w_final(a, q.a), fb = w_final(b, q.b);
    if (std::isinf(fa) != std::isinf(fb)) return word_text(q.w) + (std::isinf(fa) ? " should not be accepted" : " should be accepted");
    if (!std::isinf(fa) && std::fabs(fa - fb) > 1e-6) return word_text(q.w) + " should weigh " + std::to_string(fa) + ", not " + std::to_string(fb);
    std::set<std::string> ls; w_labels(a, q.a, ls); w_labels(b, q.b, ls);
    for (auto& l : ls) { Q n{w_trim(w_step(a, q.a, l), la), w_trim(w_step(b, q.b, l), lb), q.w}; if (n.a.empty() && n.b.empty()) continue; n.w.push_back(l); todo.push_back(n); }
  }
  return "";
}
// number of states of the smallest deterministic automaton of the language (no weights), 0 if too large
static int minimal_states(const Nfa& n)
{
  auto lv = w_live(n); std::map<WSet,int> id; std::vector<WSet> st; std::vector<std::map<std::string,int>> tr;
  auto get = [&](const WSet& s) { auto it = id.find(s); if (it != id.end()) return it->second; int k = (int)st.size(); id[s] = k; st.push_back(s); tr.push_back({}); return k; };
  WSet z = w_trim(w_close(n, {{n.init,0}}), lv); if (z.empty()) return 0; get(z);
  for (size_t i=0;i<st.size();i++) { if (i > 600) return 0; std::set<std::string> ls; WSet s = st[i]; w_labels(n, s, ls); for (auto& l : ls) { WSet x = w_trim(w_step(n, s, l), lv); if (!x.empty()) { int k = get(x); tr[i][l] = k; } } }
  std::vector<int> c(st.size()); for (size_t i=0;i<st.size();i++) c[i] = !std::isinf(w_final(n, st[i])); int k = 0;
  for (;;) { std::map<std::pair<int,std::map<std::string,int>>,int> m; std::vector<int> d(st.size()); for (size_t i=0;i<st.size();i++) { std::map<std::string,int> x; for (auto& e : tr[i]) x[e.first] = c[e.second]; d[i] = m.insert({{c[i],x},(int)m.size()}).first->second; } int nk = (int)m.size(); c = d; if (nk == k) return k; k = nk; }
}
static bool parse_dump(const std::string& s, Nfa& n, int& states)
{
  size_t p = 0; int line = 0; std::map<int,int> id; auto node = [&](int k) { auto it = id.find(k); if (it != id.end()) return it->second; int v = n.add(); id[k] = v; return v; }; n.e.clear();
  while (p < s.size()) {
    size_t e = s.find('\n', p); std::string l = s.substr(p, e - p); p = e + 1; line++;
    if (line == 1) { n.init = node(atoi(l.c_str())); continue; } if (line == 2) { states = atoi(l.c_str()); continue; }
    std::vector<std::string> f(1); for (char c : l) if (c == '\1') f.push_back(""); else f.back() += c;
    if (f[0] == "f" && f.size() == 3) n.fin[node(atoi(f[1].c_str()))] = atof(f[2].c_str());
    else if (f[0] == "e" && f.size() == 5) { int a = node(atoi(f[2].c_str())), b = node(atoi(f[3].c_str())); double w = atof(f[4].c_str()); n.e[a].push_back({f[1] == ":" ? "" : f[1], b, w}); }
    else return false;
  }
  return line >= 2;
}
static Scenario c30_gen(Rng& r, bool th)
{
  Scenario s; s.prop = "C30"; bool wt = r.chance(2,5);
  static const std::vector<std::string> T = {"<n>","<v>","<sg>"}; for (int g=0;g<2;g++) for (int i=0;i<r.range(0,3);i++) s.add("sym", {S(g), r.pick(T)});
  std::vector<std::string> L = {"a","b"}; static const std::vector<std::string> ML = {"c","ñ","😀","<n>","<v>","<sg>"}; for (int i=0;i<r.range(0,2);i++) L.push_back(r.pick(ML));
  auto labels = [&](std::vector<std::string>& o, int n) { o.push_back(S(n)); for (int i=0;i<n;i++) { std::string x = r.chance(1,6) ? "" : r.pick(L), y = r.chance(1,2) ? x : r.chance(1,4) ? "" : r.pick(L); if (x.empty() && y.empty()) x = L[0]; o.insert(o.end(), {x, y, wt && r.chance(1,4) ? S(r.range(1,16)) : std::string("0")}); } };
  auto word = [&](int reg) { std::vector<std::string> o = {"word", S(reg), S(r.chance(1,6))}; labels(o, r.range(0, r.chance(1,8) ? 7 : 3)); o.push_back(wt && r.chance(1,4) ? S(r.range(1,16)) : std::string("0")); s.add("do", o); };
  int steps = r.range(3, th ? 26 : 18);
  for (int k=0;k<4;k++) for (int i=0;i<r.range(1,3);i++) word(k);
  static const std::vector<std::string> U = {"optional","oneOrMore","zeroOrMore","reverse","determinize","minimize","minimize","joinFinals","invert","file","serialise"};
  for (int i=0;i<steps;i++) {
    int reg = r.range(0,3), o = r.range(0,19);
    if (o < 4) word(reg);
    else if (o < 7) { int j = reg ^ 1; std::vector<std::string> v = {"insert", S(reg)}; labels(v, r.range(0,2)); v.push_back(S(j)); labels(v, r.range(0,2)); v.push_back("0"); s.add("do", v); }
    else if (o < 9) { int j = r.range(0,3); s.add("do", {"union", S(reg), S(j == reg ? reg ^ 1 : j)}); }
    else if (o < 10) s.add("do", {r.chance(1,2) ? "copy" : "assign", S(reg), S(reg ^ 1)});
    else if (o < 11) s.add("do", {"reset", S(reg)});
    else if (o < 12) { std::vector<std::string> v = {r.chance(1,2) ? "delete" : "epsilonize", S(reg)}; int n = r.range(1,2); v.push_back(S(n)); for (int k=0;k<n;k++) { const std::string& x = r.pick(L); v.insert(v.end(), {x, r.chance(3,4) ? x : r.pick(L)}); } s.add("do", v); }
    else s.add("do", {r.pick(U), S(reg)});
  }
  if (r.chance(1,3)) s.add("fread", {S(r.range(1,30))});
  s.add("heap", {S(r.range(1,60000))});
  return s;
}
static Verdict c30_run(const Scenario& s, RunCtx& c)
{
  Verdict v; ProcSpec p; p.tool = "api:transducers"; p.alloc_mode = 1; p.alloc_seed = s.num("heap",1); for (auto* l : s.all("fread")) p.file_read_sizes.push_back((int)l->num(0,1));
  for (auto* l : s.all("sym")) p.api_args.insert(p.api_args.end(), {"sym", l->str(0), l->str(1)});
  Nfa R[4]; struct Want { int reg; Nfa n; std::string op; }; std::vector<Want> want; std::set<std::string> paths[4];
  auto look = [&](int reg, const std::string& op) { p.api_args.insert(p.api_args.end(), {"dump", S(reg)}); want.push_back({reg, R[reg], op}); };
  auto path = [&](Nfa& n, int st, const Line& l, size_t& i) { int k = (int)l.num(i++,0); for (int q=0;q<k;q++,i+=3) { double w = l.num(i+2,0) / 4.0; int t = n.add(); n.arc(st, l.str(i) + ":" + l.str(i+1), t, w); st = t; } return st; };
  auto pass = [&](const Line& l, size_t from, size_t to) { for (size_t i=from;i<to;i++) p.api_args.push_back(l.str(i)); };
  auto labels_to_args = [&](const Line& l, size_t& i) { int k = (int)l.num(i,0); p.api_args.push_back(l.str(i++)); for (int q=0;q<k;q++,i+=3) { pass(l, i, i+2); p.api_args.push_back(std::to_string(l.num(i+2,0) / 4.0)); } };
  for (auto* l : s.all("do")) {
    const std::string& op = l->str(0); int reg = (int)l->num(1,0) & 3; Nfa& N = R[reg]; if (N.e.size() > 500) continue;
    if (op == "word") {
      if (!N.open) continue; size_t i = 3; std::string key; for (size_t k=3;k+1<l->t.size();k++) key += l->t[k] + "\1";
      if (!paths[reg].insert(key).second && (!l->num(2,0) || !l->num(3,0))) continue;   // the weight of a word is set once
      size_t j = i; int st = path(N, N.init, *l, j); N.fin_at(st, l->num(j,0) / 4.0);
      p.api_args.insert(p.api_args.end(), {"word", S(reg), l->str(2)}); labels_to_args(*l, i); p.api_args.push_back(std::to_string(l->num(i,0) / 4.0));
    } else if (op == "insert") {
      size_t i = 2, j = 2; int k0 = (int)l->num(2,0), src = (int)l->num(3 + 3*k0,0) & 3; if (!N.open || src/2 != reg/2 || src == reg || R[src].fin.empty() || R[src].e.size() > 200) continue;
      R[src].join(); R[src].open = false; int st = path(N, N.init, *l, j); j++; int b = N.embed(R[src]); N.arc(st, "", b + R[src].init); st = N.add(); N.arc(b + R[src].fin.begin()->first, "", st, R[src].fin.begin()->second); st = path(N, st, *l, j); N.fin_at(st, 0);
      p.api_args.insert(p.api_args.end(), {"insert", S(reg)}); labels_to_args(*l, i); p.api_args.push_back(S(src)); i++; labels_to_args(*l, i); p.api_args.push_back("0");
      look(src, "being inserted elsewhere");
    } else if (op == "union") {
      int j = (int)l->num(2,0) & 3; if (j == reg || R[j].fin.empty() || R[j].e.size() > 200) continue; if (reg/2 == j/2) { R[j].join(); R[j].open = false; }
      Nfa o; o.weighted = N.weighted; int a = o.embed(N); for (auto& f : N.fin) o.fin_at(a + f.first, f.second); int b = o.embed(R[j]); for (auto& f : R[j].fin) o.fin_at(b + f.first, f.second); o.arc(0, "", a + N.init); o.arc(0, "", b + R[j].init); o.open = false; N = o;
      p.api_args.insert(p.api_args.end(), {"union", S(reg), S(j)}); look(j, "being united with another");
    } else if (op == "copy" || op == "assign") { int j = (int)l->num(2,0) & 3; if (j/2 != reg/2 || j == reg) continue; R[j] = N; paths[j] = paths[reg]; p.api_args.insert(p.api_args.end(), {op, S(reg), S(j)}); look(j, op); }
    else if (op == "reset") { N = Nfa(); paths[reg].clear(); p.api_args.insert(p.api_args.end(), {op, S(reg)}); }
    else if (op == "delete" || op == "epsilonize") {
      N.open = false; int k = (int)l->num(2,0); for (int q=0;q<k;q++) { std::string x = l->str(3+2*q) + ":" + l->str(4+2*q); for (auto& e : N.e) for (size_t m=0;m<e.size();) if (e[m].l == x) { if (op == "delete") { e.erase(e.begin() + m); continue; } e[m].l.clear(); m++; } else m++; }
      p.api_args.insert(p.api_args.end(), {op, S(reg)}); pass(*l, 2, l->t.size());
    } else {
      bool keeps = op == "minimize" || op == "invert" || op == "file" || op == "serialise" || op == "determinize"; if (!keeps && N.fin.empty()) continue; N.open = N.open && (op == "file" || op == "serialise");
      if (op == "minimize" && empty_lang(N)) { if (N.fin.empty()) continue; N = Nfa(); N.open = false; }
      else if (op == "determinize" && empty_lang(N)) { N = Nfa(); N.open = false; }
      else if (op == "joinFinals") N.join();
      else if (op == "invert") { for (auto& e : N.e) for (auto& x : e) if (!x.l.empty()) { size_t m = x.l.find(':', 1); if (x.l[0] == ':') m = 0; x.l = x.l.substr(m+1) + ":" + x.l.substr(0,m); } }
      else if (op == "reverse") { int f = N.join(); Nfa o; o.weighted = N.weighted; o.e.assign(N.e.size(), {}); for (size_t q=0;q<N.e.size();q++) for (auto& x : N.e[q]) o.e[x.to].push_back({x.l,(int)q,x.w}); o.init = f; o.fin[N.init] = 0; o.open = false; N = o; }
      else if (op == "optional" || op == "oneOrMore" || op == "zeroOrMore") { int f = N.join(), a = N.add(), b = N.add(); N.arc(a, "", N.init); N.arc(f, "", b); N.init = a; N.fin.clear(); N.fin[b] = 0; if (op != "optional") N.arc(f, "", N.e[a][0].to); if (op != "oneOrMore") N.arc(a, "", b); }
      p.api_args.insert(p.api_args.end(), {op, S(reg)});
    }
    look(reg, op);
  }
  for (int k=0;k<4;k++) look(k, "the end");
  ProcResult r = c.run(p, Disk()); if (r.infra) return v; c.st.blocks++;
  if (!r.ok()) return viol("algebra-" + r.status(), "operations on transducers: " + r.status() + " " + show(r.err));
  uint64_t cmp = 0; bool nontriv = false;
  for (size_t i=0;i<want.size();i++) {
    if (i >= r.api.size()) return viol("algebra-silent", "no result " + S((long)i+1));
    Nfa g; int states = 0; if (!parse_dump(r.api[i], g, states)) return viol("algebra-dump", "unreadable state of a transducer");
    bool full; std::string d = differ(want[i].n, g, cmp, full); const std::string& op = want[i].op; if (!want[i].n.fin.empty()) nontriv = true;
    if (!d.empty()) return viol("algebra:" + op, "transducer " + S(want[i].reg) + " after " + op + " (result " + S((long)i+1) + "): " + d);
    c.st.probes[full ? "comparisons complete" : "comparisons cut at a bound"]++;
    if (op == "determinize" || op == "minimize") {
      for (size_t q=0;q<g.e.size();q++) { std::set<std::pair<std::string,double>> u; for (auto& x : g.e[q]) if ((x.l.empty() && x.w == 0) || !u.insert({x.l,x.w}).second) return viol("algebra-nondet:" + op, "after " + op + " a state has two transitions with the same label, or an empty one"); }
      // the initial state may have a second copy
      if (op == "minimize" && !want[i].n.weighted && !empty_lang(want[i].n)) { int m = minimal_states(want[i].n); if (m && (states < m || states > m + 1)) return viol("algebra-size", "minimize leaves " + S(states) + " states, the smallest automaton has " + S(m)); if (m) c.st.probes["minimality checked"]++; }
    }
  }
  c.st.probes["words compared"] += cmp; if (!nontriv) v.vacuous = true;
  return v;
}
static Reg c30({"C30","Operations on transducers do to their language what they say", c30_gen, c30_run, 1500, 60000,
  "One case = four transducers over two alphabets and a seeded history of library operations (adding words, inserting, uniting, copying, closures, reversal, determinisation, minimisation, inversion, deleting and emptying symbols, storing and loading with short reads), with weights in two cases out of five and a perturbed heap.  After every operation the whole automaton is read out and compared, word by word with weights, with a reference automaton built by textbook constructions.", real_list(), stub_list(),
  {"weights are not negative","words are added one by one only to transducers that have not been through other operations"}});
