#include "gen.h"
#include "fst.h"
#include <unordered_map>

static std::string xml(const std::string& s) { std::string r; for (char c : s) { if (c=='&') r += "&amp;"; else if (c=='<') r += "&lt;"; else if (c=='>') r += "&gt;"; else if (c=='"') r += "&quot;"; else r += c; } return r; }
static std::string xmlb(const std::string& s) { std::string r; for (char c : s) { if (c == ' ') r += "<b/>"; else r += xml(std::string(1,c)); } return r; }

std::string gen_word(Rng& r, const std::vector<std::string>& L, int a, int b) { std::string s; int n = r.range(a,b); for (int i=0;i<n;i++) s += r.pick(L); return s; }

GenOpt gen_opt(Rng& r)
{
  GenOpt o;
  o.compounds = r.chance(1,4); o.weights = r.chance(1,4); o.regex = r.chance(1,5); o.multiword = r.chance(2,3);
  o.nonbmp = r.chance(1,4); o.sections = r.chance(1,2); o.cases = r.chance(3,4); o.restrict_dir = r.chance(1,4);
  o.entries = r.range(2, r.chance(1,6) ? 40 : 10);
  return o;
}
static std::vector<std::string> letter_pool(Rng& r, const GenOpt& o)
{
  std::vector<std::string> L = {"a","b","c"};
  if (r.chance(2,3)) { L.push_back("d"); L.push_back("e"); }
  if (r.chance(1,3)) L.push_back("ñ");
  if (r.chance(1,4)) L.push_back("д");
  if (r.chance(1,6)) L.push_back("ʼ");
  if (o.nonbmp) { L.push_back("𐐨"); if (r.chance(1,2)) L.push_back("𐅁"); }
  return L;
}
static std::string upper1(const std::string& s)
{ // uppercase first letter (ASCII, ñ, д, Deseret)
  if (s.empty()) return s;
  if (s[0] >= 'a' && s[0] <= 'z') { std::string t = s; t[0] = t[0]-32; return t; }
  if (s.rfind("ñ",0)==0) return "Ñ" + s.substr(2);
  if (s.rfind("д",0)==0) return "Д" + s.substr(2);
  if (s.rfind("𐐨",0)==0) return "𐐀" + s.substr(4);
  return s;
}
static std::string upperall(const std::string& s)
{
  std::string r; for (size_t i=0;i<s.size();) { size_t n = 1; unsigned char c = s[i]; if (c >= 0xF0) n = 4; else if (c >= 0xE0) n = 3; else if (c >= 0xC0) n = 2; r += upper1(s.substr(i,n)); i += n; } return r;
}
static const char* TAGS[] = {"n","vblex","adj","sg","pl","def","ind","pr","np","num"};

GenDict gen_mono(Rng& r, const GenOpt& o)
{
  GenDict d; d.kind = "mono"; d.letters = letter_pool(r, o);
  int nt = r.range(2, 8); for (int i=0;i<nt;i++) d.tags.push_back(TAGS[i]);
  auto& X = d.lines; auto F = [&](const std::string& s) { X.push_back({s, true}); };
  std::string alpha; for (auto& l : d.letters) { alpha += l; if (r.chance(2,3)) alpha += upper1(l); }
  if (r.chance(1,8)) alpha += "-";
  F("<dictionary><alphabet>" + alpha + "</alphabet><sdefs>");
  for (auto& t : d.tags) F("<sdef n=\"" + t + "\"/>");
  if (o.compounds) { F("<sdef n=\"compound-only-L\"/>"); F("<sdef n=\"compound-R\"/>"); }
  F("</sdefs><pardefs>");
  // paradigms
  struct Par { std::string name; std::vector<Form> f; };
  std::vector<Par> pars; int np = r.range(0,3);
  auto tagseq = [&](int mx) { std::string t; int n = r.range(1,mx); for (int i=0;i<n;i++) t += "<" + r.pick(d.tags) + ">"; return t; };
  auto stags = [&](const std::string& t) { std::string x; size_t p=0; while ((p=t.find('<',p)) != std::string::npos) { size_t e=t.find('>',p); x += "<s n=\"" + t.substr(p+1,e-p-1) + "\"/>"; p=e; } return x; };
  auto wattr = [&]() { return o.weights && r.chance(1,2) ? " w=\"" + std::string(r.chance(1,5)?"-":"") + S(r.range(0,5)) + "." + S(r.range(0,9)) + "\"" : std::string(); };
  for (int i=0;i<np;i++) {
    Par p; p.name = "p" + S(i) + "__n";
    F("<pardef n=\"" + p.name + "\">");
    int ne = r.range(1,3);
    for (int j=0;j<ne;j++) {
      std::string suf = r.chance(1,4) ? "" : gen_word(r, d.letters, 1, 2), t = tagseq(3);
      bool cl = o.compounds && r.chance(1,3), cr = o.compounds && r.chance(1,4);
      X.push_back({"<e" + wattr() + "><p><l>" + suf + "</l><r>" + stags(t) + (cl ? "<s n=\"compound-only-L\"/>" : "") + (cr ? "<s n=\"compound-R\"/>" : "") + "</r></p></e>", false});
      p.f.push_back({suf, t + (cl ? "<compound-only-L>" : "") + (cr ? "<compound-R>" : "")});
    }
    // a paradigm must not be left without entries when lines are dropped
    F("<e><p><l>" + d.letters[0] + d.letters[1] + d.letters[0] + "</l><r>" + stags("<" + d.tags[0] + ">") + "</r></p></e>");
    p.f.push_back({d.letters[0] + d.letters[1] + d.letters[0], "<" + d.tags[0] + ">"});
    if (!pars.empty() && r.chance(1,4)) { // nested paradigm reference
      std::string suf = gen_word(r,d.letters,1,1);
      X.push_back({"<e><p><l>" + suf + "</l><r>" + stags("<" + d.tags[0] + ">") + "</r></p><par n=\"" + pars[0].name + "\"/></e>", false});
      for (auto& f : pars[0].f) p.f.push_back({suf + f.surf, "<" + d.tags[0] + ">" + f.lex});
    }
    F("</pardef>");
    pars.push_back(p);
  }
  F("</pardefs>");
  auto entry = [&](const std::string& sectype) {
    std::string dir = o.restrict_dir && r.chance(1,3) ? (r.chance(1,2) ? " r=\"LR\"" : " r=\"RL\"") : "";
    std::string w = wattr();
    int k = r.range(0,11);
    if (!pars.empty() && k < 4) {
      std::string st = gen_word(r, d.letters, 1, 4); if (o.cases && r.chance(1,5)) st = upper1(st);
      auto& p = r.pick(pars);
      X.push_back({"<e lm=\"" + xml(st) + "\"" + dir + w + "><i>" + xmlb(st) + "</i><par n=\"" + p.name + "\"/></e>", false});
      for (auto& f : p.f) d.forms.push_back({st + f.surf, st + f.lex});
      return;
    }
    if (o.regex && k == 4) {
      const char* re = r.chance(1,2) ? "[0-9]+" : "(ab|ba)+[0-9]*"; std::string t = tagseq(1);
      X.push_back({std::string("<e") + w + "><re>" + re + "</re><p><l/><r>" + stags(t) + "</r></p></e>", false});
      d.forms.push_back({S(r.range(0,999)), ""}); d.forms.push_back({"abba12", ""});
      return;
    }
    std::string s, lem, t = tagseq(3), lx, rx;
    if (o.multiword && k == 5) { s = gen_word(r,d.letters,1,3) + " " + gen_word(r,d.letters,1,3); if (r.chance(1,3)) s += " " + gen_word(r,d.letters,1,2); lem = s; lx = xmlb(s); rx = xmlb(lem) + stags(t); }
    else if (o.multiword && k == 6) { std::string a = gen_word(r,d.letters,1,3), b = gen_word(r,d.letters,1,3); s = a + " " + b; lx = xmlb(s); rx = a + "<g><b/>" + b + "</g>" + stags(t); lem = a + "# " + b; }
    else if (k == 7) { std::string a = gen_word(r,d.letters,1,2), b = gen_word(r,d.letters,1,2), t2 = tagseq(2); s = a + b; lx = s; rx = a + stags(t) + "<j/>" + b + stags(t2); lem = a; t = t + "+" + b + t2; }
    else if (k == 8 && !o.flagged) { s = gen_word(r,d.letters,1,2) + (r.chance(1,2) ? "-" : "'") + gen_word(r,d.letters,0,2); lem = s; lx = s; rx = s + stags(t); }
    else if (k == 9 && !o.flagged) {
      int q = r.range(0,3);
      if (q == 0) s = "😀" + gen_word(r,d.letters,1,2); else if (q == 1) { s = std::string(1, "[]{}^$/\\@"[r.below(9)]); if (r.chance(1,2)) s = (r.chance(1,2) ? gen_word(r,d.letters,1,1) : "") + s + gen_word(r,d.letters,1,2); } else s = std::string(1, ".,;!?"[r.below(5)]);
      lem = s; lx = s; rx = s + stags(t); }
    else { s = gen_word(r,d.letters,1,5);
      if (!d.forms.empty() && r.chance(1,3)) { // shares its beginning with another entry: shorter, longer or with another end
        auto v = cps(r.pick(d.forms).surf); bool ok = !v.empty(); for (int x : v) { bool in = false; for (auto& l : d.letters) in |= cps(l) == std::vector<int>{x}; ok &= in; }
        if (ok) { std::string t; size_t n = r.chance(1,2) ? v.size() : 1 + r.below(v.size()); for (size_t i=0;i<n;i++) t += utf8(v[i]); if (n == v.size() || r.chance(1,2)) t += gen_word(r,d.letters,1,2); s = t; }
      }
      if (o.cases && r.chance(1,6)) s = upper1(s); lem = r.chance(2,3) ? s : gen_word(r,d.letters,1,4); lx = xmlb(s); rx = xmlb(lem) + stags(t); }
    bool cl = o.compounds && r.chance(1,o.flagged ? 2 : 3), cr = o.compounds && !(o.flagged && cl) && r.chance(1,o.flagged ? 2 : 3);
    if (cl) { rx += "<s n=\"compound-only-L\"/>"; t += "<compound-only-L>"; }
    if (cr) { rx += "<s n=\"compound-R\"/>"; t += "<compound-R>"; }
    X.push_back({"<e" + dir + w + "><p><l>" + lx + "</l><r>" + rx + "</r></p></e>", false});
    d.forms.push_back({s, lem + t});
    (void)sectype;
  };
  std::vector<std::string> sts = {"standard"};
  if (o.sections) { if (r.chance(2,3)) sts.push_back("inconditional"); if (r.chance(1,3)) sts.push_back("postblank"); if (r.chance(1,3)) sts.push_back("preblank"); if (r.chance(1,4)) sts.push_back("standard"); }
  int si = 0; bool first = true;
  for (auto& t : sts) {
    F("<section id=\"s" + S(si++) + "\" type=\"" + t + "\">");
    if (first) { // never empty
      F("<e><p><l>" + d.letters[0] + d.letters[1] + "</l><r>" + d.letters[0] + d.letters[1] + stags("<" + d.tags[0] + ">") + "</r></p></e>");
      d.forms.push_back({d.letters[0] + d.letters[1], d.letters[0] + d.letters[1] + "<" + d.tags[0] + ">"});
    } else F("<e><p><l>" + std::string(1, "()*%"[si%4]) + "</l><r>q" + S(si) + stags("<" + d.tags[0] + ">") + "</r></p></e>");
    int ne = first ? o.entries : r.range(1, 4);
    for (int i=0;i<ne;i++) entry(t);
    F("</section>");
    first = false;
  }
  d.nsections = si;
  F("</dictionary>");
  return d;
}

GenDict gen_bi(Rng& r, const GenOpt& o, const GenDict* mono)
{
  GenDict d; d.kind = "bi"; GenDict tmp;
  if (!mono) { GenOpt o2 = o; o2.compounds = false; tmp = gen_mono(r, o2); mono = &tmp; }
  d.letters = mono->letters; d.tags = mono->tags;
  auto& X = d.lines; auto F = [&](const std::string& s) { X.push_back({s, true}); };
  F("<dictionary><alphabet></alphabet><sdefs>");
  for (auto& t : d.tags) F("<sdef n=\"" + t + "\"/>");
  F("<sdef n=\"xt\"/></sdefs><section id=\"main\" type=\"standard\">");
  auto half = [&](const std::string& lex) { // lemma + tags -> xml
    std::string x; size_t p = 0;
    while (p < lex.size()) {
      if (lex[p]=='<') { size_t e = lex.find('>',p); if (e == std::string::npos) break; x += "<s n=\"" + lex.substr(p+1,e-p-1) + "\"/>"; p = e+1; }
      else if (lex[p]=='#') { x += "<g>"; p++; std::string g; while (p < lex.size() && lex[p] != '<') g += lex[p++]; x += xmlb(g) + "</g>"; }
      else if (lex[p]=='+') { x += "<j/>"; p++; }
      else { size_t n = 1; x += xmlb(lex.substr(p,n)); p += n; }
    }
    return x;
  };
  F("<e><p><l>zz<s n=\"" + d.tags[0] + "\"/></l><r>yy<s n=\"" + d.tags[0] + "\"/></r></p></e>");
  d.forms.push_back({"zz<" + d.tags[0] + ">", "yy<" + d.tags[0] + ">"});
  for (auto& f : mono->forms) {
    if (f.lex.empty() || f.lex.find("compound") != std::string::npos) continue;
    if (!r.chance(3,4)) continue;
    std::string lex = f.lex; size_t nt = std::count(lex.begin(), lex.end(), '<');
    if (nt > 1 && r.chance(1,2) && lex.find('+') == std::string::npos) lex = lex.substr(0, lex.rfind('<')); // partial tags: queue
    std::string tgt = gen_word(r, d.letters, 1, 4); if (r.chance(1,6)) tgt = upper1(tgt);
    size_t lt = lex.find('<'); std::string tags = lt == std::string::npos ? "" : lex.substr(lt); size_t pl = tags.find('+'); if (pl != std::string::npos) tags = tags.substr(0,pl);
    if (r.chance(1,5)) tags += "<xt>";
    std::string dir = o.restrict_dir && r.chance(1,4) ? (r.chance(1,2) ? " r=\"LR\"" : " r=\"RL\"") : "";
    std::string w = o.weights && r.chance(1,2) ? " w=\"" + S(r.range(0,3)) + "." + S(r.range(0,9)) + "\"" : "";
    X.push_back({"<e" + dir + w + "><p><l>" + half(lex) + "</l><r>" + half(tgt + tags) + "</r></p></e>", false});
    d.forms.push_back({lex, tgt + tags});
  }
  F("</section></dictionary>");
  return d;
}

GenDict gen_post(Rng& r, const GenOpt& o)
{
  GenDict d; d.kind = "post"; GenOpt oo = o; d.letters = letter_pool(r, oo);
  auto& X = d.lines; auto F = [&](const std::string& s) { X.push_back({s, true}); };
  F("<dictionary><alphabet></alphabet><sdefs><sdef n=\"t\"/></sdefs><section id=\"main\" type=\"standard\">");
  F("<e><p><l><a/>zz</l><r>z</r></p></e>"); d.forms.push_back({"~zz","z"});
  int n = r.range(1, o.entries);
  for (int i=0;i<n;i++) {
    bool tilde = r.chance(3,4);
    std::string a = r.chance(1,12) ? gen_word(r,d.letters,16,24) : gen_word(r,d.letters,1,3), l = a, rr;
    if (r.chance(1,3)) { l += " "; if (r.chance(2,3)) l += gen_word(r,d.letters,1,2); }
    rr = r.chance(1,8) ? "" : gen_word(r,d.letters,1,3);
    if (r.chance(1,4) && !rr.empty()) rr += " " + gen_word(r,d.letters,0,2);
    if (l.find(' ') != std::string::npos && l.back()==' ' && r.chance(1,2)) rr += " ";
    X.push_back({std::string("<e><p><l>") + (tilde ? "<a/>" : "") + xmlb(l) + "</l><r>" + xmlb(rr) + "</r></p></e>", false});
    d.forms.push_back({(tilde ? "~" : "") + l, rr});
  }
  F("</section></dictionary>");
  return d;
}

GenDict gen_tmx(Rng& r, const GenOpt& o)
{
  GenDict d; d.kind = "tmx"; d.letters = letter_pool(r, o);
  auto& X = d.lines; auto F = [&](const std::string& s) { X.push_back({s, true}); };
  F("<?xml version=\"1.0\" encoding=\"UTF-8\"?>");
  F("<tmx version=\"1.4\"><header creationtool=\"foo\" creationtoolversion=\"1.0\" segtype=\"phrase\" o-tmf=\"tmx\" adminlang=\"en\" srclang=\"en\" datatype=\"plaintext\"/><body>");
  F("<tu><tuv xml:lang=\"aa\"><seg>zz 1 zz</seg></tuv><tuv xml:lang=\"bb\"><seg>yy 1</seg></tuv></tu>"); d.forms.push_back({"zz 1 zz","yy 1"});
  int n = r.range(1, o.entries);
  for (int i=0;i<n;i++) {
    std::string a, b; int w = r.range(1,3);
    for (int j=0;j<w;j++) { if (j) { a += " "; b += " "; } if (r.chance(1,4)) { std::string num = S(r.range(1,99)); a += num; b += num; } else { a += gen_word(r,d.letters,1,3); b += gen_word(r,d.letters,1,3); } }
    if (d.forms.size() > 1 && r.chance(1,4)) { auto& f = r.pick(d.forms); a = f.surf + " " + a; b = b + " " + f.lex; }   // one segment begins like another
    X.push_back({"<tu><tuv xml:lang=\"aa\"><seg>" + a + "</seg></tuv><tuv xml:lang=\"bb\"><seg>" + b + "</seg></tuv></tu>", false});
    d.forms.push_back({a,b});
  }
  F("</body></tmx>");
  return d;
}

void put_dict(Scenario& s, const std::string& fn, const GenDict& d) { for (auto& l : d.lines) s.add("file", {fn, l.first}, l.second); }

// ---- streams ----------------------------------------------------------------
static std::string stream_escape(const std::string& s) { std::string r; for (char c : s) { if (strchr("[]{}^$/\\@<>", c)) r += '\\'; r += c; } return r; }
static std::string superblank(Rng& r)
{
  static const char* c[] = {"[]","[<b>]","[<\\/b>]","[ ]","[\n]","[\\[x\\]]","[<br\\/> ]","[tab\t]","[ñ]","[\\@\\$]","[😀]"};
  return c[r.below(11)];
}
static std::string wblank(Rng& r) { static const char* c[] = {"[[t:i:a1]]","[[t:b:b2; t:i:c3]]","[[t:s:xyz789]]"}; return c[r.below(3)]; }
static std::string casing(Rng& r, const std::string& s0) {
  size_t lt = s0.find('<'); if (lt == std::string::npos) lt = s0.size();
  std::string s = s0.substr(0, lt), tail = s0.substr(lt);
  int k0 = r.range(0,7); return (k0 == 0 ? upper1(s) : k0 == 1 ? upperall(s) : s) + tail; }
[[maybe_unused]] static std::string casing_raw(Rng& r, const std::string& s) { int k = r.range(0,7); return k == 0 ? upper1(s) : k == 1 ? upperall(s) : s; }

std::string gen_block(Rng& r, StreamKind k, const GenDict& d, int size, const std::vector<std::string>& flags)
{
  std::string o;
  bool sb = r.chance(1,2), shy = r.chance(1,6), punct = r.chance(2,3), spaces = r.chance(5,6), esc = r.chance(1,4), wb = r.chance(1,4);
  bool osurf = false, dec = false; for (auto& f : flags) if (f == "-e") dec = true; for (auto& f : flags) if (f == "-o" || f == "-O") osurf = true;
  auto sep = [&]() {
    int q = r.range(0,9);
    if (sb && q < 2) return superblank(r) + (r.chance(1,6) ? superblank(r) : "");
    if (q == 2) return std::string("\n");
    if (q == 3) return std::string("  ");
    if (q == 4 && punct) return std::string(1, ".,;:!?-()"[r.below(9)]) + (r.chance(1,2) ? " " : "");
    if (q == 5) return std::string("\t");
    if (!spaces && q < 8) return std::string();
    return std::string(" ");
  };
  for (int i=0;i<size;i++) {
    switch (k) {
    case SK_ANALYSIS: case SK_SAO: {
      int q = r.range(0,11);
      std::string w;
      if (q < 6 && !d.forms.empty()) { w = casing(r, r.pick(d.forms).surf); if (r.chance(1,5)) w += r.pick(d.forms).surf; if (dec) for (int j=0;j<r.range(0,4) && w.size() < 10;j++) w += r.pick(d.forms).surf; if (r.chance(1,8) && w.size() > 1 && (w.back() & 0x80) == 0) w.pop_back(); }
      else if (q < 9) w = casing(r, gen_word(r,d.letters,1,6));
      else if (q == 9) w = S(r.range(0,9999));
      else if (q == 10 && esc) w = std::string(1, "[]{}^$/\\@<>"[r.below(11)]) ;
      else w = r.pick(d.letters);
      std::string e = k == SK_ANALYSIS ? stream_escape(w) : w;
      if (k == SK_SAO) { std::string t; for (char c : w) if (!strchr("[]{}^$/\\@<>",c)) t += c; e = t; }
      if (shy && k == SK_ANALYSIS && r.chance(1,3)) { size_t p = 0; if (!e.empty() && (e[0]&0x80)==0 && e[0] != '\\') p = 1; if (e.size() > p) e = e.substr(0,p) + "\xc2\xad" + e.substr(p); }
      if (wb && k == SK_ANALYSIS && r.chance(1,3)) o += wblank(r);
      o += e;
      if (k == SK_SAO) { o += r.chance(1,6) ? "<![CDATA[<x>]]>" : r.chance(1,4) ? ". " : " "; }
      else if (dec || r.chance(9,10)) { std::string x = sep(); o += dec && x.empty() ? " " : x; }   // (decompounding takes time exponential in the length of a word)
      break; }
    case SK_LEX: case SK_BIL: {
      if (r.chance(1,5)) o += sep();
      if (wb && r.chance(1,2)) o += wblank(r);
      int q = r.range(0,9);
      std::string w;
      auto escl = [&](const std::string& lex) { std::string t; for (char c : lex) { if (strchr("[]{}^$/\\@", c)) t += '\\'; t += c; } return t; };
      if (q < 6 && !d.forms.empty()) { w = k == SK_BIL ? r.pick(d.forms).surf : r.pick(d.forms).lex; if (w.empty()) w = "ab<n>"; w = escl(casing(r,w)); if (k == SK_BIL && r.chance(1,2)) w += "<" + r.pick(d.tags) + ">"; }
      else if (q == 6) w = "*" + gen_word(r,d.letters,1,4);
      else if (q == 7) w = (k == SK_LEX ? "@" : "#") + gen_word(r,d.letters,1,4) + "<" + r.pick(d.tags) + ">";
      else if (q == 8) w = gen_word(r,d.letters,1,4) + "<" + r.pick(d.tags) + "><unktag>";
      else w = gen_word(r,d.letters,1,3);
      if (osurf) w = gen_word(r,d.letters,1,3) + "/" + w;
      if (k == SK_BIL && r.chance(1,8)) w += "/" + gen_word(r,d.letters,1,3) + "<" + r.pick(d.tags) + ">";
      o += "^" + w + "$";
      if (r.chance(4,5)) o += sep();
      break; }
    case SK_POST: {
      int q = r.range(0,9); std::string w;
      if (q < 6 && !d.forms.empty()) { w = r.pick(d.forms).surf; if (!w.empty() && w[0]=='~') w = "~" + casing(r, w.substr(1)); else w = casing(r,w); if (!w.empty() && w.back()==' ') w.pop_back(); }
      else w = casing(r, gen_word(r,d.letters,1,4));
      if (r.chance(1,8)) w = gen_word(r,d.letters,1,2) + w;
      if (esc && r.chance(1,4)) w += stream_escape(std::string(1,"[]^$/"[r.below(5)]));
      if (wb && r.chance(1,2)) o += wblank(r) + (r.chance(1,6) ? std::string() : w) + "[[/]]"; else o += w;
      int s = r.range(0,7);
      o += s == 0 && sb ? superblank(r) : s == 1 ? std::string("  ") : s == 2 ? std::string("\n") : s == 3 && punct ? std::string(". ") : std::string(" ");
      break; }
    case SK_TM: {
      int q = r.range(0,9); std::string w;
      if (q < 6 && !d.forms.empty()) { w = r.pick(d.forms).surf; std::string t; for (size_t j=0;j<w.size();) { if (isdigit((unsigned char)w[j])) { while (j<w.size() && isdigit((unsigned char)w[j])) j++; t += S(r.range(1,200)); } else t += w[j++]; } w = t; }
      else if (q == 6) w = S(r.range(1,99));
      else w = gen_word(r,d.letters,1,4);
      o += w;
      int s = r.range(0,7);
      o += s == 0 && sb ? superblank(r) : s == 1 ? std::string(". ") : s == 2 ? std::string(",") : s == 3 ? std::string("\n") : std::string(" ");
      break; }
    case SK_MERGE: case SK_UNMERGE: {
      if (wb && r.chance(1,3)) o += wblank(r);
      int q = r.range(0,9); std::string s = stream_escape(gen_word(r,d.letters,1,3)), t = "<" + r.pick(d.tags) + ">";
      if (k == SK_UNMERGE) { if (q < 3) o += "^" + s + "<MERGED>/" + s + " " + s + "$"; else o += "^" + s + t + "/" + s + "$"; }
      else if (q < 2) o += "^" + s + "/" + s + t + "<MERGE_BEG>$";
      else if (q < 4) o += "^" + s + "/" + s + t + "<MERGE_END>$";
      else if (q == 4) o += "^" + s + "/*" + s + "$";
      else if (q == 5) o += "^$";
      else o += "^" + s + "/" + s + t + "$";
      if (r.chance(4,5)) o += sep();
      break; }
    case SK_PARADIGM: {
      int q = r.range(0,5); std::string lex = d.forms.empty() ? std::string("ab<n>") : r.pick(d.forms).lex; if (lex.empty()) lex = "ab<n>";
      if (q == 0) o += "*<*>"; else if (q == 1) { size_t lt = lex.find('<'); o += lex.substr(0, lt) + "<*>"; } else if (q == 2) o += "*<" + r.pick(d.tags) + ">"; else if (q == 3) o += "*<|" + r.pick(d.tags) + "|" + r.pick(d.tags) + "><*>"; else if (q == 4) o += "*<*-" + r.pick(d.tags) + ">"; else o += lex;
      if (i + 1 < size) o += "\n";
      break; }
    }
  }
  // half of the texts stop right behind their last word
  if ((k == SK_POST || k == SK_TM || k == SK_SAO || k == SK_ANALYSIS) && r.chance(1,2)) while (!o.empty() && (o.back() == ' ' || o.back() == '\n' || o.back() == '\t')) { size_t q = 0, e = o.size() - 1; while (e > q && o[e-1-q] == '\\') q++; if (q & 1) break; o.pop_back(); }
  return o;
}

ServerCase gen_server(Rng& r, const std::string& prop, bool nf, int only)
{
  ServerCase c; c.s.prop = prop; GenOpt o = gen_opt(r);
  auto& s = c.s; auto& fl = c.flags;
  int m = only >= 0 ? only : r.range(0, 13);
  if (only < 0 && !nf && m >= 12 && r.chance(1,3)) m = 15;
  std::vector<std::string> args;
  auto common = [&]() {
    if (nf) fl.push_back("-z");
    if (r.chance(1,5)) fl.push_back("-c");
    if (r.chance(1,5)) fl.push_back("-w");
    if (o.weights && r.chance(1,2)) fl.push_back("-W");
    if (r.chance(1,8)) { fl.push_back("-N"); fl.push_back(S(r.range(1,3))); }
    if (r.chance(1,10)) { fl.push_back("-L"); fl.push_back(S(r.range(1,2))); }
  };
  switch (m) {
  case 0: case 1: case 2: case 3: { // analysis
    bool e = m == 3; if (e) o.compounds = true;
    c.d = gen_mono(r, o); put_dict(s, "d.dix", c.d);
    s.add("compile", {"lt-comp","lr","d.dix","d.bin"}, true);
    c.kind = SK_ANALYSIS; c.tool = "lt-proc"; common(); if (e) fl.push_back("-e"); else if (r.chance(1,8)) fl.push_back("-a");
    if (r.chance(1,8)) { s.add("file", {"i.icx","<ignored-chars><char value=\"-\"/><char value=\"" + std::string(r.chance(1,2) ? "ʼ" : "e") + "\"/></ignored-chars>"}, true); fl.push_back("-i"); fl.push_back("i.icx"); }
    if (r.chance(1,8)) { s.add("file", {"r.rcx","<restore-chars><char value=\"a\"><restore-char value=\"b\"/></char><char value=\"c\"><restore-char value=\"ñ\"/></char></restore-chars>"}, true); fl.push_back("-r"); fl.push_back("r.rcx"); }
    if (r.chance(1,10)) fl.push_back("-I");
    break; }
  case 15: { // SAO annotation: has no null flush
    c.d = gen_mono(r, o); put_dict(s, "d.dix", c.d); s.add("compile", {"lt-comp","lr","d.dix","d.bin"}, true);
    c.kind = SK_SAO; c.tool = "lt-proc"; if (r.chance(1,4)) fl.push_back("-c"); fl.push_back("-s");
    break; }
  case 14: { // decompounding of single words
    o.compounds = true; o.multiword = o.sections = o.nonbmp = o.regex = false; o.flagged = true; o.entries = r.range(3,14);
    c.d = gen_mono(r, o); put_dict(s, "d.dix", c.d); s.add("compile", {"lt-comp","lr","d.dix","d.bin"}, true);
    c.kind = SK_ANALYSIS; c.tool = "lt-proc"; common(); fl.push_back("-e");
    break; }
  case 4: case 5: { // generation
    c.d = gen_mono(r, o); put_dict(s, "d.dix", c.d);
    s.add("compile", {"lt-comp","rl","d.dix","d.bin"}, true);
    c.kind = SK_LEX; c.tool = "lt-proc"; common();
    static const char* g[] = {"-g","-d","-l","-m","-n","-C"};
    fl.push_back(g[r.below(6)]);
    break; }
  case 6: case 7: { // bilingual
    c.d = gen_bi(r, o, nullptr); put_dict(s, "d.dix", c.d);
    s.add("compile", {"lt-comp","lr","d.dix","d.bin"}, true);
    c.kind = SK_BIL; c.tool = "lt-proc"; common();
    int q = r.range(0,5); if (q == 0) fl.push_back("-o"); else if (q == 1) fl.push_back("-O"); else fl.push_back("-b");
    if (r.chance(1,4)) { static const char* g[] = {"-d","-l","-m","-n","-g"}; if (fl.back() == "-b") fl.push_back(g[r.below(4)]); }
    break; }
  case 8: case 9: { // postgeneration, transliteration, intergeneration
    c.d = gen_post(r, o); put_dict(s, "d.dix", c.d);
    s.add("compile", {"lt-comp","lr","d.dix","d.bin"}, true);
    c.kind = SK_POST; c.tool = "lt-proc"; common();
    static const char* g[] = {"-p","-p","-t","-x"}; fl.push_back(g[r.below(4)]);
    break; }
  case 10: { // translation memory
    c.d = gen_tmx(r, o); put_dict(s, "d.tmx", c.d);
    s.add("compile", {"lt-tmxcomp","aa-bb","d.tmx","d.bin"}, true);
    c.kind = SK_TM; c.tool = "lt-tmxproc"; if (r.chance(1,2)) fl.push_back("-s"); if (nf && r.chance(1,2)) fl.push_back("-z");
    break; }
  case 11: { c.d.letters = letter_pool(r,o); c.d.tags = {"n","adv"}; c.kind = SK_MERGE; c.tool = "lt-merge"; if (r.chance(1,2)) fl.push_back("-z"); break; }
  case 12: { c.d.letters = letter_pool(r,o); c.d.tags = {"n","adv"}; c.kind = SK_UNMERGE; c.tool = "lt-merge"; fl.push_back("-u"); if (r.chance(1,2)) fl.push_back("-z"); break; }
  default: { // paradigm
    o.regex = false; c.d = gen_mono(r, o); put_dict(s, "d.dix", c.d);
    s.add("compile", {"lt-comp","rl","d.dix","d.bin"}, true);
    c.kind = SK_PARADIGM; c.tool = "lt-paradigm"; if (nf) fl.push_back("-z"); if (r.chance(1,3)) fl.push_back("-s"); if (r.chance(1,4)) { fl.push_back("-e"); fl.push_back("<" + r.pick(c.d.tags) + ">"); }
    break; }
  }
  args = fl; if (c.tool != "lt-merge") args.push_back("d.bin");
  std::vector<std::string> t = {c.tool}; t.insert(t.end(), args.begin(), args.end());
  s.add("tool", t, true);
  return c;
}

// ---- execution helpers --------------------------------------------------------
struct CacheEnt { Prepared p; uint64_t hist; };
static std::unordered_map<uint64_t, CacheEnt>* g_cache;
Prepared prepare(const Scenario& s, RunCtx& c)
{
  uint64_t key = 7; for (auto& l : s.l) if (l.key == "file" || l.key == "compile" || l.key == "bin") { key = mix(key, hash_str(l.key)); for (auto& t : l.t) key = mix(key, hash_str(t)); }
  if (!g_cache) g_cache = new std::unordered_map<uint64_t, CacheEnt>();
  auto it = g_cache->find(key);
  if (it != g_cache->end()) { c.hist = mix(c.hist, it->second.hist); return it->second.p; }
  uint64_t keep = c.hist; c.hist = 99;
  Prepared p; p.ok = true;
  for (auto& l : s.l) if (l.key == "file") { p.disk[l.str(0)] += l.str(1) + "\n"; }
  for (auto& l : s.l) if (l.key == "compile") {
    ProcSpec ps; ps.tool = l.str(0); ps.args.assign(l.t.begin()+1, l.t.end());
    ProcResult r = c.run(ps, p.disk);
    if (!r.ok()) { p.ok = false; p.why = l.str(0) + ": " + r.status() + " " + show(r.err); break; }
    p.disk = r.disk;
  }
  uint64_t h = c.hist; c.hist = mix(keep, h);
  if (g_cache->size() > 200) g_cache->clear();
  if (!c.infra) (*g_cache)[key] = {p, h};
  return p;
}
ProcSpec tool_spec(const Scenario& s)
{
  ProcSpec p; auto* t = s.one("tool"); if (t) { p.tool = t->str(0); p.args.assign(t->t.begin()+1, t->t.end()); }
  for (auto* e : s.all("env")) p.env.push_back({e->str(0), e->str(1)});
  return p;
}
std::vector<Chunk> read_chunks(const Scenario& s) { std::vector<Chunk> c; for (auto* l : s.all("chunk")) c.push_back({(uint64_t)l->num(0), (int)l->num(1,-1)}); return c; }
std::vector<Fault> read_faults(const Scenario& s, const char* key)
{ // fault <file> <op> <pos> <errno> <sticky>
  std::vector<Fault> f; for (auto* l : s.all(key)) { Fault x; x.file = l->str(0); x.op = l->str(1)[0]; x.pos = (uint64_t)l->num(2); x.err = (int)l->num(3,5); x.sticky = l->num(4,1) != 0; f.push_back(x); } return f;
}
std::vector<std::string> split_nul(const Bytes& b)
{
  std::vector<std::string> r; std::string cur; for (char c : b) { if (!c) { r.push_back(cur); cur.clear(); } else cur += c; } r.push_back(cur); return r;
}
