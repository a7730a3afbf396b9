// Sessions checked against the reference model of dictionary look-up.
#include "props.h"
#include "model.h"

static void delivery(Rng& r, Scenario& s)
{
  static const std::vector<int> bufs = {1,3,16,64,512,4096};
  if (r.chance(1,2)) { s.add("ibuf", {S(r.pick(bufs))}); s.add("obuf", {S(r.pick(bufs))}); }
  if (r.chance(1,2)) for (int i=0;i<r.range(1,5);i++) s.add("chunk", {S(r.range(1,60))});
}
static void deliver(const Scenario& s, ProcSpec& p)
{
  p.ibuf = s.num("ibuf",4096); p.obuf = s.num("obuf",4096);
  p.chunks = read_chunks(s); size_t tot = 0; for (auto& k : p.chunks) tot += k.n;
  if (tot > p.input.size()) p.chunks.clear(); else if (tot < p.input.size() && !p.chunks.empty()) p.chunks.push_back({p.input.size()-tot,-1});
}
// what a session looks like to the client: replies per request
struct Session { bool ok = false; std::vector<std::string> req, rep; };
static Session session(const Scenario& s, RunCtx& c, const Disk& d, Verdict& v, const char* what)
{
  Session q; auto bl = s.all("block"); if (bl.empty()) { v.vacuous = true; return q; }
  ProcSpec ps = tool_spec(s); for (auto* b : bl) { q.req.push_back(b->str(0)); ps.input += b->str(0); ps.input += '\0'; }
  bool hang = s.num("hangup",0); if (hang) ps.input.pop_back();   // the client goes away without ending its last request
  deliver(s, ps); for (auto& a : ps.args) if (a == "-e") ps.step_budget = 1500000000ull;   // decompounding is slow, not endless
  ProcResult r = c.run(ps, d); c.st.blocks += bl.size(); if (r.infra) return q;
  std::string b = bad_end(r); if (!b.empty()) { v = viol(std::string(what) + "-" + b.substr(0,8) + ":" + mode_name(s), b); return q; }
  if (!r.ok()) { v = viol("refused", "a valid request is refused: " + r.status() + " " + show(r.err)); return q; }
  auto f = split_nul(r.out);
  for (size_t i=0;i<q.req.size();i++) { if (hang && i + 1 == q.req.size()) q.rep.push_back(f.back().empty() && f.size() > q.req.size() ? f[i] : f.back()); else if (i + 1 < f.size()) q.rep.push_back(f[i]); else { v = viol(std::string(what) + "-no-reply:" + mode_name(s), "no reply to request " + S(i+1)); return q; } }
  if (hang) c.st.fired["client hang-up"]++;
  q.ok = true; return q;
}

static bool has_flag(const Scenario& s, const char* f) { auto* t = s.one("tool"); if (t) for (auto& x : t->t) if (x == f) return true; return false; }
// ---- C21 --------------------------------------------------------------------
static Scenario c21_gen(Rng& r, bool th)
{
  ServerCase c = gen_server(r, "C21", true, r.chance(1,4) ? 14 : r.range(0,2));
  if (r.chance(1,5) && has_flag(c.s, "-e")) { for (auto& l : c.s.l) if (l.key == "tool") l.t.insert(l.t.end()-1, {"-M", S(r.range(1,3))}); }
  int n = r.range(1, th ? 10 : 5);
  for (int i=0;i<n;i++) {
    std::string b = gen_block(r, c.kind, c.d, r.chance(1,30) ? r.range(60,200) : r.range(1,10), c.flags);
    if (r.chance(1,3)) { std::string x; for (size_t j=0;j<b.size();j++) { if (b[j] == '\\') { x += b[j++]; if (j < b.size()) x += b[j]; continue; } if (b[j] == '[') { size_t k = j; bool w = k + 1 < b.size() && b[k+1] == '['; while (k < b.size() && !(b[k] == ']' && (!w || (k + 1 < b.size() && b[k+1] == ']')))) { if (b[k] == '\\') k++; k++; } j = k + w; x += ' '; continue; } x += b[j] == '\n' || b[j] == '\t' ? ' ' : b[j]; } b = x; } // plain spaces: compared exactly
    c.s.add("block", {b});
  }
  if (r.chance(1,6)) c.s.add("hangup", {"1"});
  delivery(r, c.s);
  return c.s;
}
static Verdict c21_run(const Scenario& s, RunCtx& c)
{
  Verdict v; Prepared p = prepare(s, c); if (!p.ok) { v.vacuous = true; v.detail = p.why; return v; }
  RefDict D; std::string why; if (!ref_decode(p.disk["d.bin"], D, why)) { v.vacuous = true; v.detail = why; return v; }
  Opts o = opts_of(s); Session q = session(s, c, p.disk, v, "analysis"); if (!q.ok) return v;
  Machine m(D); size_t units = 0, known = 0, many = 0, recased = 0, comp = 0;
  for (size_t i=0;i<q.req.size();i++) {
    std::vector<int> in; std::vector<AItem> want; std::vector<OItem> got; std::string ws, gs;
    if (!a_parse(q.req[i], o, in) || !a_model(m, in, o, want, &ws) || m.over) { m.over = false; c.st.probes["request outside the model"]++; continue; }
    auto bad = [&](const std::string& cls, const std::string& t) { return viol(cls + ":" + mode_name(s), "request " + S(i+1) + " \"" + show(q.req[i]) + "\" -> \"" + show(q.rep[i]) + "\": " + t); };
    if (!o_parse(q.rep[i], got, why, &gs)) return bad("malformed-reply", why);
    for (size_t k=0;k<want.size() || k<got.size();k++) {
      if (k >= got.size()) { std::string w; if (want[k].unit) for (int x : want[k].surf) w += utf8(x); else w = utf8(want[k].ch); return bad("missing", "nothing for \"" + w + "\""); }
      if (k >= want.size()) return bad("extra", "unexpected " + (got[k].unit ? got[k].surf : utf8(got[k].ch)));
      const AItem& a = want[k]; const OItem& g = got[k]; std::string w; for (int x : a.surf) w += utf8(x);
      if (a.unit != g.unit || (!a.unit && a.ch != g.ch)) return bad("segmentation", "expected " + (a.unit ? "a unit for \"" + w + "\"" : "the character " + utf8(a.ch)) + ", found " + (g.unit ? "the unit " + g.surf : "the character " + utf8(g.ch)));
      if (!a.unit) continue;
      if (g.surf != m_escape(w)) return bad("segmentation", "expected the longest match \"" + w + "\", found the unit " + g.surf);
      units++;
      if (a.unknown) { if (g.readings.size() != 1 || g.readings[0] != "*" + m_escape(w)) return bad("unknown-word", "\"" + w + "\" has no entry but is shown as " + (g.readings.empty() ? "nothing" : g.readings[0])); continue; }
      known++; if (o.compound && g.readings[0].find('+') != std::string::npos) comp++; if (a.all.size() > 1) many++; if (m_upper(a.surf[0])) recased++;
      std::string e = check_readings(a.all, g.readings, o); if (!e.empty()) return bad("readings", "\"" + w + "\": " + e);
    }
    // text with plain spaces only: the spaces of the reply too, with the one that a postblank or preblank entry brings
    bool plain = true; for (size_t k=0;k<q.req[i].size();k++) { unsigned char ch = q.req[i][k]; if (ch == '[' || ch == '\n' || ch == '\t' || (ch == '\\' && k + 1 < q.req[i].size() && (q.req[i][++k] == ' ' || q.req[i][k] == '['))) plain = false; }
    for (int x : in) if (x != ' ' && m_space(x)) plain = false;
    if (plain && !o.compound) { c.st.probes["replies whose spaces were compared"]++; auto vis = [](std::string x) { for (auto& ch : x) if (ch == 1) ch = 'U'; return x; }; if (ws != gs) return bad("spaces", "spaces around the units (U): expected \"" + vis(ws) + "\", found \"" + vis(gs) + "\""); }
  }
  c.st.probes["units compared with the model"] += units; c.st.probes["compounds"] += comp; c.st.probes["units with an entry"] += known; c.st.probes["units with several readings"] += many; c.st.probes["capitalised units with an entry"] += recased;
  if (!units) v.vacuous = true;
  return v;
}
static Reg c21({"C21","Analysis gives the longest dictionary match and exactly its readings", c21_gen, c21_run, 2600, 100000,
  "One case = generated dictionary, analysis options, a history of 1-10 requests in one session with a seeded delivery schedule, sometimes ended by the client hanging up inside a request; every reply is compared with an executable reference model that decodes the compiled dictionary itself. Non-trivial: at least one lexical unit was compared.", real_list(), stub_list(),
  {"readings of equal weight may come in any order","the weight of a transition that neither reads nor writes a symbol is not counted (pinned by the test suite)","white space outside units is exempt unless the request has plain spaces only","character classes and case mapping are ICU's"}});

// ---- C22 --------------------------------------------------------------------
static Scenario c22_gen(Rng& r, bool th)
{
  if (r.chance(1,4)) { // a program with the library: one processor, many look-ups
    bool bil = r.chance(2,3); ServerCase c = gen_server(r, "C22", true, bil ? 6 : r.chance(1,2) ? 0 : 4); Scenario s; s.prop = "C22";
    for (auto& l : c.s.l) if (l.key == "file" || l.key == "compile") s.l.push_back(l);
    bool gen = false; for (auto* l : s.all("compile")) if (l->str(1) == "rl") gen = true;
    s.add("api", {bil ? "bil" : gen ? "gen" : "ana", std::string(r.chance(1,4) ? "c" : "") + (r.chance(1,4) ? "W" : "") + (r.chance(1,5) ? "1" : "") + (r.chance(1,6) ? "L" : "")}, true);
    static const std::vector<std::string> B = {"bil","biln","queue","queuen","noq","noqn"};
    int n = r.range(1, th ? 30 : 12);
    for (int i=0;i<n;i++) {
      std::string op = bil ? r.pick(B) : "look", w; auto& f = r.pick(c.d.forms);
      if (bil || gen) { w = bil ? f.surf : f.lex; if (w.empty() || w.find_first_of("[]{}^$/\\@#*=%") != std::string::npos) w = gen_word(r, c.d.letters, 1, 4) + "<" + r.pick(c.d.tags) + ">"; if (r.chance(1,3)) w += "<" + r.pick(c.d.tags) + ">"; if (r.chance(1,8)) w += "<unktag>"; if (r.chance(1,6)) { size_t k = w.rfind('<'); if (k != std::string::npos && k > 0) w = w.substr(0,k); } if (r.chance(1,5)) w = gen_word(r, c.d.letters, 1, 4) + "<" + r.pick(c.d.tags) + ">"; if (r.chance(1,8)) w = gen_word(r, c.d.letters, 1, 3); if (bil && r.chance(1,8)) w = (r.chance(1,2) ? "*" : "=") + w; }
      else { w = r.chance(2,3) ? f.surf : gen_word(r, c.d.letters, 1, 5); if (w.find_first_of("[]{}^$/\\@") != std::string::npos) w = gen_word(r, c.d.letters, 1, 4); }
      int k = r.range(0,9); if (k < 2) { size_t m = 0; for (size_t q=0;q<w.size() && w[q] != '<';q++) if (w[q] >= 'a' && w[q] <= 'z' && (k == 1 || m++ == 0)) w[q] -= 32; else if (k == 0) break; }
      if (bil && op.back() != 'n') w = "^" + w + "$";
      s.add("ask", {op, w});
    }
    return s;
  }
  ServerCase c = gen_server(r, "C22", true, r.range(4,7));
  int n = r.range(1, th ? 10 : 5);
  for (int i=0;i<n;i++) {
    std::string b = gen_block(r, c.kind, c.d, r.range(1,8), c.flags);
    if (c.kind == SK_BIL && r.chance(1,3)) for (size_t q = b.find(">$"); q != std::string::npos; q = b.find(">$", q + 2)) if (r.chance(1,3) && b.rfind('^', q) != std::string::npos && b.substr(b.rfind('^', q), q - b.rfind('^', q)).find_first_of("/\\#*@") == std::string::npos) b.insert(q + 1, r.chance(1,2) ? "# " + gen_word(r, c.d.letters, 1, 3) : gen_word(r, c.d.letters, 1, 2));   // text behind the tags
    c.s.add("block", {b});
  }
  delivery(r, c.s);
  return c.s;
}
static bool case_flags(const std::string& content, bool need_first, bool& up, bool& first)
{ // from the first two characters; false: not specified
  auto v = cps(content); first = !v.empty() && v[0] < 0x10000 && m_upper(v[0]); bool second = v.size() > 1 && v[0] < 0x10000 && v[1] < 0x10000 && m_upper(v[1]);
  if (!need_first && second && !first) return false;
  up = first && second; return true;
}
static std::string no_tags(const std::string& c) { for (size_t i=0;i<c.size();i++) { if (c[i] == '\\') { i++; continue; } if (c[i] == '<' && i > 0) return c.substr(0,i); } return c; }
static std::string esc_content(const std::string& c, bool keep_tags)
{
  std::string r; for (size_t i=0;i<c.size();i++) { if (c[i] == '\\' && i + 1 < c.size()) { r += c[i++]; r += c[i]; continue; } if (keep_tags && c[i] == '<' && i > 0) { r += c.substr(i); break; } if (strchr("[]{}^$/\\@<>", c[i])) r += '\\'; r += c[i]; } return r;
}
// what generation writes for one unit; false: not specified here
static bool gen_unit(Machine& m, const LReading& rd, const Opts& o, char mode, std::vector<std::string>& alt)
{
  std::string pre, c = rd.content; std::string mark = rd.mark ? std::string(1,(char)rd.mark) : "";
  if (rd.mark == '=') pre = "=";
  if (rd.mark == '*' || rd.mark == '%') {
    if (mode == 'm') alt = {"^" + esc_content(no_tags(c),false) + "/" + mark + esc_content(c,true) + "$"};
    else alt = {(mode == 'n' ? "" : mark) + esc_content(c,false)};
    return true;
  }
  if (rd.mark == '@') {
    if (mode == 'd') alt = {"@" + esc_content(c,false)}; else if (mode == 'n') alt = {esc_content(no_tags(c),false)};
    else if (mode == 'm') alt = {"^" + esc_content(no_tags(c),false) + "/@" + esc_content(c,true) + "$"}; else alt = {"@" + esc_content(no_tags(c),false)};
    return true;
  }
  Machine::Set s = m.initial();
  for (int y : rd.syms) {
    if (y > 0 && m_upper(y) && !o.case_sensitive) {
      if (!o.careful) s = m.step(s, y, {m_lower(y)});
      else { Machine::Set n; for (auto& g : s) { Machine::Set one = m.step({g}, y, {}); bool own = false; for (auto& e : m.tr[g.sec]->st[g.st]) if (m.d.pairs[e.label].first == y) own = true; if (!own) one = m.step({g}, y, {m_lower(y)}); n.insert(n.end(), one.begin(), one.end()); } s = n; }
    } else s = m.step(s, y, {});
    if (m.over) return false;
  }
  if (m.final_kind(s)) {
    bool up = false, first = false; if (!o.dict_case && !case_flags(c, false, up, first)) return false;
    std::vector<std::string> f; if (!render(m.readings(s, up, first), o, f)) return false;
    for (auto& x : f) alt.push_back(pre + (mode == 'l' || mode == 'm' ? "^" + x + "/" + esc_content(c,true) + "$" : x));
    return true;
  }
  if (mode == 'd') alt = {pre + "#" + esc_content(c,false)}; else if (mode == 'n') alt = {pre + esc_content(no_tags(c),false)};
  else if (mode == 'm') alt = {pre + "^" + esc_content(no_tags(c),false) + "/#" + esc_content(c,true) + "$"}; else alt = {pre + (c.empty() ? "" : "#") + esc_content(no_tags(c),false)};
  return true;
}
// longest prefix of the unit with an entry; the rest of the unit follows each reading
static bool bil_match(Machine& m, const LReading& rd, const Opts& o, bool whole, bool lower, std::vector<Reading>& best, size_t& used)
{
  best.clear(); used = 0; bool up = false, first = false; if (!lower) { auto& y = rd.syms; first = !y.empty() && m_upper(y[0]); up = first && y.size() > 1 && m_upper(y[1]); }
  Machine::Set s = m.initial(); if (rd.mark == '#') s = m.step(s, '#', {});
  for (size_t i=0;i<rd.syms.size();i++) {
    int y = rd.syms[i]; if (lower && y > 0 && !o.case_sensitive) y = m_lower(y);
    std::set<int> alts; if (!lower && !o.case_sensitive && y > 0 && m_lower(y) != y) alts.insert(m_lower(y));
    s = m.step(s, y, alts); if (m.over) return false;
    if (m.final_kind(s)) { best = m.readings(s, up, first); used = i + 1; }
  }
  if ((whole || !rd.tags) && used < rd.syms.size()) best.clear();
  return true;
}
static std::string lookup_want(Machine& m, const std::string& op, const std::string& w0, const Opts& o, const std::string& got, bool& skip)
{ // "" or what is wrong
  if (op == "look") {
    LReading rd; rd = l_word("x" + w0, m); rd.content.erase(0,1); rd.syms.erase(rd.syms.begin()); bool up, first; case_flags(w0, true, up, first);
    Machine::Set s = m.initial(); for (int y : rd.syms) s = y > 0 && m_upper(y) && !o.case_sensitive ? m.step(s, y, {m_lower(y)}) : m.step(s, y, {});
    if (m.over) { skip = true; return ""; }
    std::vector<std::string> shown; for (size_t i=1;i<got.size();) { size_t b = got.find('{', i), e = b == std::string::npos ? b : got.find('}', b); if (e == std::string::npos) break; shown.push_back(got.substr(b+1,e-b-1)); i = e + 1; }
    std::string e = check_readings(m.readings(s, up, first), shown, o); if (!e.empty()) return e;
    if ((got[0] == '+') != !shown.empty()) return "the result does not say whether there was a match"; return "";
  }
  bool delim = op.back() != 'n'; std::string w = delim ? w0.substr(1, w0.size()-2) : w0, g = got; long qn = -1;
  bool q = op.rfind("queue",0) == 0, noq = op.rfind("noq",0) == 0;
  if (q) { size_t k = g.rfind('|'); qn = atol(g.c_str()+k+1); g = g.substr(0,k); }
  if (w[0] == '*') return g == w0 ? "" : "a word marked unknown is not returned as it is";
  bool mark = w[0] == '='; LReading rd = l_word("x" + w.substr(mark ? 1 : 0), m); rd.syms.erase(rd.syms.begin()); rd.texts.erase(rd.texts.begin());
  bool up, first; case_flags(w.substr(mark ? 1 : 0), true, up, first);
  Machine::Set s = m.initial(); std::vector<Reading> best; size_t used = 0;
  for (size_t i=0;i<rd.syms.size();i++) { int y = rd.syms[i]; s = y > 0 && m_upper(y) && !o.case_sensitive ? m.step(s, y, {m_lower(y)}) : m.step(s, y, {}); if (m.over) { skip = true; return ""; } if (m.final_kind(s)) { best = m.readings(s, up, first); used = i + 1; } }
  std::string queue; size_t qu = 0; for (size_t i=used;i<rd.texts.size();i++) { queue += rd.texts[i]; for (int c : cps(rd.texts[i])) qu += c > 0xffff ? 2 : 1; }
  if (best.empty() || (noq && !queue.empty()) || (q && !rd.tags && !queue.empty())) { std::string want = delim ? "^@" + w0.substr(1) : "@" + w0; return g == want ? "" : "there is no entry, so the result should be " + want; }
  if (q && qn != (long)qu) return "the unmatched rest is " + queue + " but its length is given as " + S(qn);
  if (delim) { if (g.size() < 2 || g[0] != '^' || g.back() != '$') return "not delimited"; g = g.substr(1, g.size()-2); }
  if (mark) { if (g.empty() || g[0] != '=') return "the = mark is lost"; g.erase(0,1); }
  std::vector<std::string> f(1); for (size_t i=0;i<g.size();i++) { if (g[i] == '\\' && i + 1 < g.size()) { f.back() += g[i++]; f.back() += g[i]; } else if (g[i] == '/') f.push_back(""); else f.back() += g[i]; }
  for (auto& x : f) { if (x.size() < queue.size() || x.compare(x.size()-queue.size(), queue.size(), queue)) return "the unmatched rest " + queue + " does not follow the reading " + x; x.resize(x.size()-queue.size()); }
  return check_readings(best, f, o);
}
static Verdict c22_run(const Scenario& s, RunCtx& c)
{
  Verdict v; Prepared p = prepare(s, c); if (!p.ok) { v.vacuous = true; v.detail = p.why; return v; }
  RefDict D; std::string why; if (!ref_decode(p.disk["d.bin"], D, why)) { v.vacuous = true; v.detail = why; return v; }
  Machine m(D); if (m.code("<ANY_CHAR>")) { v.vacuous = true; return v; }
  if (auto* api = s.one("api")) {
    auto as = s.all("ask"); if (as.empty()) { v.vacuous = true; return v; }
    ProcSpec ps; ps.tool = "api:lookup"; ps.api_args = {"d.bin", api->str(0), api->str(1)}; for (auto* a : as) { ps.api_args.push_back(a->str(0)); ps.api_args.push_back(a->str(1)); }
    Opts o; for (char x : api->str(1)) { if (x == 'c') o.case_sensitive = true; if (x == 'W') o.weights = true; if (x == '1') o.max_n = 1; if (x == 'L') o.max_l = 1; }
    ProcResult r = c.run(ps, p.disk); c.st.blocks += as.size(); if (r.infra) return v;
    std::string b = bad_end(r); if (!b.empty()) return viol("lookup-" + b.substr(0,8), b);
    if (!r.ok()) return viol("refused", "a valid request is refused: " + r.status() + " " + show(r.err));
    for (size_t i=0;i<as.size();i++) {
      if (i >= r.api.size()) return viol("lookup-nothing:" + as[i]->str(0), "no result");
      bool skip = false; std::string e = lookup_want(m, as[i]->str(0), as[i]->str(1), o, r.api[i], skip); if (skip) { m.over = false; c.st.probes["request outside the model"]++; continue; }
      c.st.probes["library look-ups compared with the model"]++;
      if (!e.empty()) return viol("lookup:" + as[i]->str(0), "lookup " + S(i+1) + " (" + as[i]->str(0) + " " + as[i]->str(1) + ") -> " + show(r.api[i]) + ": " + e);
    }
    return v;
  }
  Opts o = opts_of(s); bool bil = has_flag(s,"-b") || has_flag(s,"-o") || has_flag(s,"-O"); if (bil) o.dict_case = false;
  char mode = 'g'; for (const char* f : {"-d","-l","-m","-n","-C"}) if (has_flag(s,f)) mode = f[1];
  Session q = session(s, c, p.disk, v, "lookup"); if (!q.ok) return v; size_t units = 0, known = 0;
  for (size_t i=0;i<q.req.size();i++) {
    auto bad = [&](const std::string& cls, const std::string& t) { return viol(cls + ":" + mode_name(s), "request " + S(i+1) + " \"" + show(q.req[i]) + "\" -> \"" + show(q.rep[i]) + "\": " + t); };
    std::vector<LItem> it; if (!l_parse(q.req[i], m, it)) { c.st.probes["request outside the model"]++; continue; }
    const std::string& out = q.rep[i]; std::set<size_t> pos{0}; bool skip = false;
    for (auto& u : it) {
      std::vector<std::string> alt;
      if (!u.unit) alt = {u.blank};
      else if (!bil) { std::vector<std::string> a; if (!gen_unit(m, u.r[0], o, mode, a)) { skip = true; break; } units++; for (auto& x : a) alt.push_back(u.blank + u.wblank + x); }
      else {
        size_t ix = has_flag(s,"-o") || has_flag(s,"-O") ? 1 : 0; std::string pre = u.blank + u.wblank; units++;
        if (has_flag(s,"-O")) pre += "^" + u.r[0].content + (u.r.size() > 1 ? "/" : "$"); 
        if (ix >= u.r.size()) alt = {pre};
        else {
          LReading& rd = u.r[ix]; if (!has_flag(s,"-O")) pre += "^";
          if (rd.mark == '*') alt = {pre + "*" + rd.content + "/" + (mode == 'n' ? "" : "*") + rd.content + "$"};
          else if (rd.syms.empty()) alt = {pre + "$"};
          else if (rd.mark && rd.mark != '#') { skip = true; break; }
          else {
            bool whole = mode == 'd' || has_flag(s,"-g"); std::vector<Reading> best; size_t used;
            if (!bil_match(m, rd, o, whole, false, best, used)) { skip = true; break; }
            if (best.empty() && whole && !bil_match(m, rd, o, whole, true, best, used)) { skip = true; break; }
            std::string src = rd.mark == '#' ? "#" : "", rest; for (size_t k=0;k<rd.texts.size();k++) { std::string t = rd.syms[k] <= 0 && rd.texts[k].size() > 1 && rd.texts[k][0] == '<' ? rd.texts[k] : m_escape(rd.texts[k]); if (k == 0 && t == "*") t = "\\*"; src += t; if (k >= used) rest += t; }
            if (best.empty()) alt = {pre + src + "/" + (mode == 'd' ? "#" : "@") + src + "$"};
            else { known++; for (auto& x : best) x.s += "\x01"; std::vector<std::string> f; Opts ow = o; if (!render(best, ow, f)) { skip = true; break; }
              for (auto& x : f) { std::string t; for (size_t k=0;k<x.size();k++) { if (x[k] == '\x01') { if (!o.weights) t += rest; } else if (o.weights && x[k] == '<' && x.compare(k,3,"<W:") == 0) { size_t e = x.find('>', k); t += x.substr(k, e + 1 - k) + rest; k = e; } else t += x[k]; } alt.push_back(pre + src + "/" + t + "$"); } }
          }
        }
      }
      std::set<size_t> nx; for (size_t a : pos) for (auto& x : alt) if (!out.compare(a, x.size(), x)) nx.insert(a + x.size());
      if (nx.empty()) { size_t a = *pos.begin(); return bad(bil ? "bilingual" : "generation", "expected \"" + show(alt.empty() ? "" : alt[0]) + "\" but the reply goes on \"" + show(out.substr(a)) + "\""); }
      pos = nx;
    }
    if (skip) { m.over = false; c.st.probes["request outside the model"]++; continue; }
    if (!pos.count(out.size())) return bad(bil ? "bilingual-extra" : "generation-extra", "something follows: \"" + show(out.substr(*pos.rbegin())) + "\"");
  }
  c.st.probes["units compared with the model"] += units; c.st.probes["units with an entry"] += known; if (!units) v.vacuous = true;
  return v;
}
static Reg c22({"C22","Generation, bilingual and library look-ups give exactly what the dictionary says", c22_gen, c22_run, 2600, 100000,
  "One case = generated dictionary and a session of lexical units through lt-proc in a generation or bilingual mode with a seeded delivery schedule, or a history of library look-ups through one processor object; everything is compared with an executable reference model that decodes the compiled dictionary itself. Non-trivial: at least one unit was compared.", real_list(), stub_list(),
  {"readings of equal weight may come in any order","units with mixed case (lower first letter, upper second) are not specified in generation","the = mark in bilingual streams is not specified"}});

// ---- C24 --------------------------------------------------------------------
static Scenario c24_gen(Rng& r, bool th)
{
  ServerCase c = gen_server(r, "C24", true, 8);
  for (auto& l : c.s.l) if (l.key == "tool") { std::vector<std::string> t; for (size_t i=0;i<l.t.size();i++) { if (l.t[i] == "-W") continue; t.push_back(l.t[i]); } l.t = t; }
  int n = r.range(1, th ? 8 : 4);
  for (int i=0;i<n;i++) {
    std::string b = gen_block(r, SK_POST, c.d, r.chance(1,30) ? r.range(40,120) : r.range(1,9), c.flags);
    if (r.chance(1,2)) { std::string x; for (size_t j=0;j<b.size();j++) { if (b[j] == '[') return c24_gen(r, th); if (isspace((unsigned char)b[j])) { if (x.empty() || x.back() != ' ') x += ' '; } else x += b[j]; } b = x; } // plain spacing: compared exactly
    c.s.add("block", {b});
  }
  if (r.chance(1,8)) c.s.add("hangup", {"1"});
  delivery(r, c.s);
  return c.s;
}
static Verdict c24_run(const Scenario& s, RunCtx& c)
{
  Verdict v; Prepared p = prepare(s, c); if (!p.ok) { v.vacuous = true; v.detail = p.why; return v; }
  RefDict D; std::string why; if (!ref_decode(p.disk["d.bin"], D, why)) { v.vacuous = true; v.detail = why; return v; }
  Opts o = opts_of(s); Session q = session(s, c, p.disk, v, "rewriting"); if (!q.ok) return v;
  Machine m(D); uint64_t same = 0, ch = 0; bool drop = has_flag(s, "-p");
  for (size_t i=0;i<q.req.size();i++) {
    std::vector<int> t; bool plain; std::string lead, tail, want; int n;
    if (!p_parse(q.req[i], t, plain, lead, tail) || !p_model(m, t, o, drop, want, n) || m.over) { m.over = false; c.st.probes["request outside the model"]++; continue; }
    auto squeeze = [](const std::string& x) { std::string o; auto v = cps(x); for (size_t i=0;i<v.size();i++) { if (v[i] == '[') { bool w = i + 1 < v.size() && v[i+1] == '['; size_t k = i + 1 + w; while (k < v.size() && !(v[k] == ']' && (!w || (k + 1 < v.size() && v[k+1] == ']')))) { if (v[k] == '\\') k++; k++; } i = k + w; continue; } if (m_space(v[i])) continue; if (v[i] == '\\' && i + 1 < v.size()) o += '\\', i++; o += utf8(v[i]); } return o; };
    std::string a = plain ? lead + want + tail : squeeze(want), b = plain ? q.rep[i] : squeeze(q.rep[i]);
    if (a != b) return viol("rewriting:" + mode_name(s), "request " + S(i+1) + " \"" + show(q.req[i]) + "\" -> \"" + show(q.rep[i]) + "\", expected " + (plain ? "" : "(up to blanks) ") + "\"" + show(a) + "\"");
    same++; ch += n; if (plain) c.st.probes["replies compared to the byte"]++; 
  }
  c.st.probes["requests compared with the model"] += same; c.st.probes["replacements"] += ch; if (!same) v.vacuous = true;
  return v;
}
static Reg c24({"C24","Postgeneration and transliteration replace exactly the longest matches", c24_gen, c24_run, 2600, 100000,
  "One case = generated rewriting dictionary, mode (-p, -x, -t) and options, a history of 1-8 requests in one session with a seeded delivery schedule, sometimes ended by a hang-up; every reply is compared with an executable model of leftmost-longest rewriting over the independently decoded dictionary. Non-trivial: at least one request was compared.", real_list(), stub_list(),
  {"matches whose best result is ambiguous are outside the model","where the blanks of a rewritten text go is compared only when every blank is one space"}});

// ---- C25 --------------------------------------------------------------------
// A translation memory: segments are rows of words (lower-case letters) and numbers.
struct TSeg { std::vector<std::string> src; std::vector<std::string> dst; };   // "#k" in dst: the k-th number of the match
static bool tnum(const std::string& w) { return !w.empty() && isdigit((unsigned char)w[0]); }
static Scenario c25_gen(Rng& r, bool th)
{
  Scenario s; s.prop = "C25"; std::vector<std::string> L = {"a","b","c"}; if (r.chance(1,3)) L.push_back("ñ"); if (r.chance(1,4)) L.push_back("𐐨");
  s.add("file", {"d.tmx", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<tmx version=\"1.4\"><header creationtool=\"f\" creationtoolversion=\"1\" segtype=\"phrase\" o-tmf=\"tmx\" adminlang=\"en\" srclang=\"en\" datatype=\"plaintext\"/><body>"}, true);
  std::vector<std::vector<std::string>> segs; int n = r.range(1, 7);
  for (int i=0;i<n;i++) {
    std::vector<std::string> a, b; if (!segs.empty() && r.chance(1,3)) a = r.pick(segs);
    int w = r.range(a.empty() ? 2 : 1, 3); for (int j=0;j<w;j++) a.push_back(r.chance(1,3) ? S(r.range(1,999)) : gen_word(r, L, 1, 3));
    if (r.chance(1,12)) for (int j=r.range(8,13);j>0;j--) { a.push_back(S(r.range(1,999))); if (r.chance(1,3)) a.push_back(gen_word(r, L, 1, 2)); } // more than nine numbers
    for (auto& x : a) if (tnum(x)) x = ""; int k = 100 + r.range(0,20); for (auto& x : a) if (x.empty()) x = S(k += r.range(1,40)); // numbers all different
    for (auto& x : a) if (tnum(x)) b.push_back(x); int t = r.range(1,3); for (int j=0;j<t;j++) b.insert(b.begin() + r.below(b.size()+1), gen_word(r, L, 3, 5)); if (r.chance(1,4)) std::reverse(b.begin(), b.end());
    std::string sa, sb; for (auto& x : a) sa += (sa.empty() ? "" : " ") + x; for (auto& x : b) sb += (sb.empty() ? "" : " ") + x;
    s.add("file", {"d.tmx", "<tu><tuv xml:lang=\"aa\"><seg>" + sa + "</seg></tuv><tuv xml:lang=\"bb\"><seg>" + sb + "</seg></tuv></tu>"}); s.add("seg", {sa, sb}); segs.push_back(a);
  }
  s.add("file", {"d.tmx", "</body></tmx>"}, true); s.add("compile", {"lt-tmxcomp","aa-bb","d.tmx","d.bin"}, true);
  std::vector<std::string> t = {"lt-tmxproc"}; if (r.chance(1,2)) t.push_back("-s"); t.push_back("d.bin"); s.add("tool", t, true);
  int nb = r.range(1, th ? 6 : 3);
  for (int i=0;i<nb;i++) {
    std::string b; int m = r.range(1, 7);
    for (int j=0;j<m;j++) {
      std::vector<std::string> w; if (r.chance(3,4)) { w = r.pick(segs); if (r.chance(1,5)) w.resize(r.range(1,(int)w.size())); if (r.chance(1,6)) w.push_back(r.chance(1,2) ? S(r.range(1,50)) : gen_word(r, L, 1, 3)); } else w = {gen_word(r, L, 1, 3)};
      for (auto& x : w) { if (tnum(x)) x = S(r.range(0, 12345)); b += (b.empty() || strchr(" ,.", b.back()) ? "" : " ") + x; if (r.chance(1,12) && b.back() >= 'a' && b.back() <= 'c') b.back() -= 32; }
      b += r.chance(2,3) ? r.chance(1,2) ? ". " : ", " : r.chance(1,3) ? "." : " ";
    }
    s.add("block", {b});
  }
  if (r.chance(1,8)) s.add("hangup", {"1"});
  delivery(r, s); return s;
}
static Verdict c25_run(const Scenario& s, RunCtx& c)
{
  Verdict v; Prepared p = prepare(s, c); if (!p.ok) { v.vacuous = true; v.detail = p.why; return v; }
  // the memory, from its source
  struct M { std::vector<int> in; std::string out; }; std::vector<M> mem; std::set<std::string> keys; std::string all; for (auto* f : s.all("file")) all += f->str(1);
  auto syms = [](const std::string& x, std::vector<std::string>* nums, std::vector<std::string>* texts) { std::vector<int> o; auto v = cps(x); for (size_t i=0;i<v.size();i++) { std::string t = utf8(v[i]); if (v[i] < 128 && isdigit(v[i])) { while (i + 1 < v.size() && v[i+1] < 128 && isdigit(v[i+1])) t += utf8(v[++i]); if (nums) nums->push_back(t); o.push_back(-1); } else o.push_back(v[i]); if (texts) texts->push_back(t); } return o; };
  for (auto* g : s.all("seg")) {
    if (all.find("<seg>" + g->str(0) + "</seg></tuv><tuv xml:lang=\"bb\"><seg>" + g->str(1) + "</seg>") == std::string::npos) continue;   // its line was dropped
    std::vector<std::string> nums; M m; m.in = syms(g->str(0), &nums, nullptr); std::string key; for (int x : m.in) key += S(x) + ","; if (!keys.insert(key).second) { v.vacuous = true; return v; }   // two translations of one segment
    auto d = syms(g->str(1), nullptr, nullptr); std::vector<std::string> dn; syms(g->str(1), &dn, nullptr); size_t k = 0; std::string o; size_t size = 0;
    for (int x : d) { if (x == -1) { size_t w = std::find(nums.begin(), nums.end(), dn[k++]) - nums.begin(); o += "#" + S((long)w) + ";"; size += 4; } else { o += utf8(x); size++; } }
    if (m.in.size() < 5 || size < 5) continue; // too short to be kept
    m.out = o; mem.push_back(m);
  }
  size_t tus = 0, pos = 0; while ((pos = all.find("<tu>", pos)) != std::string::npos) { tus++; pos++; } if (tus != keys.size()) { v.vacuous = true; return v; }
  Session q = session(s, c, p.disk, v, "memory"); if (!q.ok) return v;
  bool sp = has_flag(s, "-s"); uint64_t hits = 0, cmp = 0;
  for (size_t bi=0;bi<q.req.size();bi++) {
    std::vector<std::string> tx; auto in = syms(q.req[bi], nullptr, &tx); std::string want; bool outside = false;
    auto punct = [](int x) { return x == '.' || x == ','; };
    for (size_t i=0;i<in.size() && !outside;) {
      if (in[i] == ' ' || punct(in[i])) { want += tx[i++]; continue; }
      // how far can some segment follow the text, and what is the longest stored segment on the way
      size_t far = i, best = 0; const M* bm = nullptr;
      for (auto& m : mem) { size_t k = 0; while (k < m.in.size() && i + k < in.size() && (m.in[k] == in[i+k] || m.in[k] == m_lower(in[i+k]))) k++; far = std::max(far, i + k); if (k == m.in.size() && i + k < in.size() && (punct(in[i+k]) || (sp && in[i+k] == ' ')) && i + k > best) { best = i + k; bm = &m; } }
      if (bm) {
        // a longer segment that goes on and fails right behind a number is resolved in favour of the text (outside)
        // so is the rest of a text that ends inside a longer segment: it is not searched again
        if (far > best && far == in.size()) { outside = true; break; }
        if (far > best && far < in.size() && in[far-1] == -1 && in[far] != ' ' && !punct(in[far])) { outside = true; break; }
        std::vector<std::string> nm; for (size_t k=i;k<best;k++) if (in[k] == -1) nm.push_back(tx[k]);
        want += "["; for (size_t k=0;k<bm->out.size();k++) { if (bm->out[k] == '#') { size_t e = bm->out.find(';', k); want += nm[atoi(bm->out.c_str()+k+1)]; k = e; } else want += bm->out[k]; } want += "]"; i = best; hits++; continue;
      }
      // no stored segment: the text that was followed, to the end of its last word, is passed on
      for (;i<far;i++) want += tx[i];
      if (far < in.size() && in[far] != ' ' && !punct(in[far])) while (i < in.size() && in[i] != ' ' && !punct(in[i])) want += tx[i++];
    }
    if (outside) { c.st.probes["request outside the model"]++; continue; }
    cmp++; if (want != q.rep[bi]) return viol("memory:lt-tmxproc", "request " + S(bi+1) + " \"" + show(q.req[bi]) + "\" -> \"" + show(q.rep[bi]) + "\", expected \"" + show(want) + "\"");
  }
  c.st.probes["requests compared"] += cmp; c.st.probes["stored segments found"] += hits; if (!cmp) v.vacuous = true;
  return v;
}
static Reg c25({"C25","A translation memory translates stored segments and leaves other text alone", c25_gen, c25_run, 2600, 100000,
  "One case = generated TMX file (segments of words and numbers, some the beginning of others), lt-tmxcomp, then a session of lt-tmxproc (with and without -s) over requests made of stored segments with other numbers, pieces of segments and other words, under a seeded delivery schedule; every reply is compared with a model that reads the TMX itself. Non-trivial: at least one request was compared.", real_list(), stub_list(),
  {"segments and translations of at least five symbols; every number of a translation occurs in its source","text followed into a segment that then fails is passed on to the end of the word (no second attempt inside it), as the tool does"}});
