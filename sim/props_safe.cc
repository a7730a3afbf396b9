// C07: damaged streams and damaged sources.  The channel between the programs of a pipeline
// loses, doubles, changes and cuts bytes; the tool at the receiving end has to stay sane.
#include "props.h"

// damage lines:  dmg <kind> <position> <length> <text>     positions are taken modulo the length
static Bytes apply_damage(Bytes in, const std::vector<const Line*>& dm)
{
  for (auto* d : dm) {
    const std::string& k = d->str(0); size_t n = in.size(), p = n ? (size_t)d->num(1) % (n+1) : 0, len = std::min((size_t)d->num(2), n - p);
    if (k == "lose") in.erase(p, len);
    else if (k == "double") in.insert(p, in.substr(p, len));
    else if (k == "change") { if (p < n) in.replace(p, std::min((size_t)1, n-p), d->str(3)); }
    else if (k == "insert") in.insert(p, d->str(3));
    else if (k == "cut") in.resize(p);
    else if (k == "flip") { if (p < n) in[p] ^= (char)(1 << (d->num(2) & 7)); }
    else if (k == "move") { std::string m = in.substr(p, len); in.erase(p, len); size_t q = in.empty() ? 0 : (size_t)d->num(3) % (in.size()+1); in.insert(q, m); }
  }
  return in;
}
static const std::vector<std::string> STREAM_BITS = {"^","$","/","<",">","{","}","[","]","\\","@","#","+","~","*","[[","]]","[[/]]","[[t:b:1]]","\\^","\\","^^","$$","^$","^/$","^<n>$","^a<$","^a/$","/$","^*$","^@$","<>","[","]","\xff","\xc3","\xe2\x82","\xf0\x9f\x98","\xed\xa0\x80","\xef\xbb\xbf","\xc2\xad","\xcc\x81","\n","\r\n"," ","\t","",std::string(1,'\0'),std::string(2,'\0'),"#","# ","_","=","%","(",")","-","|","&","1","0","9999999999","^1$","^a+$","^+$","~a","~","^a#$","^#$","<MERGE_BEG>","<MERGE_END>","<MERGED>","<ANY_CHAR>","<*>","*<*>","<|n|adj>","<|","<*-n>","<*-"};
static void add_damage(Rng& r, Scenario& s, const char* key, size_t n, const std::vector<std::string>& bits, int many)
{
  int k = r.range(1, many);
  for (int i=0;i<k;i++) {
    std::string p = S((long)r.below(n+1));
    switch (r.below(9)) {
    case 0: s.add(key, {"lose", p, S(r.range(1,r.chance(1,4)?20:2))}); break;
    case 1: s.add(key, {"double", p, S(r.range(1,r.chance(1,4)?20:3))}); break;
    case 2: case 3: s.add(key, {"change", p, "0", r.pick(bits)}); break;
    case 4: case 5: case 6: s.add(key, {"insert", p, "0", r.pick(bits)}); break;
    case 7: if (r.chance(1,2)) s.add(key, {"flip", p, S((long)r.below(8))}); else s.add(key, {"move", p, S(r.range(1,6)), S((long)r.below(n+1))}); break;
    case 8: s.add(key, {"cut", p}); break;
    }
  }
}
static const std::vector<std::string> ATT_BITS = {"\t","\n","--\n","@0@","@_EPSILON_SYMBOL_@","<n>","<","+","0","1","99","-1","0.5","nan","inf","x","\t\t","#","%","~","ε","<<","@_SPACE_@"," ","\xff","4294967296","12 3","<n","<b/>"};

static Scenario c07_gen(Rng& r, bool th)
{
  int w = r.range(0,9);
  if (w < 6) {
    ServerCase c = gen_server(r, "C07", r.chance(1,2));
    int n = r.range(1, th ? 5 : 3); size_t total = 0;
    for (int i=0;i<n;i++) { int sz = r.range(1, r.chance(1,10) ? 60 : 7); std::string b = gen_block(r, c.kind, c.d, sz, c.flags); total += b.size() + 1; c.s.add("block", {b}); }
    add_damage(r, c.s, "dmg", total, STREAM_BITS, th ? 8 : 5);
    static const std::vector<int> bufs = {1,7,64,4096}; c.s.add("ibuf", {S(r.pick(bufs))});
    return c.s;
  }
  if (w < 8) { // damaged sources of the compilers: whole lines lost, doubled, exchanged, attributes and elements changed
    ServerCase c = gen_toolrun(r, "C07", (int)r.below(11)); Scenario& s = c.s;
    bool source_run = c.tool == "lt-comp" || c.tool == "lt-tmxcomp" || c.tool == "lt-expand";
    size_t total = 0; for (auto* f : s.all("file")) total += f->str(1).size() + 1;
    static const std::vector<std::string> XB = {"<e>","</e>","<p>","</p>","<l>","</l>","<r>","</r>","<i>","</i>","<par n=\"p0__n\"/>","<par n=\"nope\"/>","<par/>","<s n=\"n\"/>","<s n=\"zz\"/>","<s/>","<b/>","<j/>","<g>","</g>","<a/>","<re>[a-</re>","<re>(</re>","<re>a|</re>","<re>[^a]*</re>","<re>[]</re>","<re>a**</re>","<re>\\</re>","<re>)</re>","<re/>","<e/>","<pardef n=\"p0__n\">","</pardef>","<section id=\"x\" type=\"standard\">","<section>","</section>","<section id=\"x\" type=\"inconditional\"/>","<!-- -->","<t/>","<ig>","<m/>","&amp;","&lt;","x"," r=\"LR\""," w=\"x\""," w=\"1e400\""," w=\"nan\""," v=\"a\""," alt=\"b\""," i=\"yes\"","\"","<",">","/","\xc3","\xf0\x9f\x98\x80","<tu>","</tu>","<tuv xml:lang=\"aa\">","<tuv>","</tuv>","<seg>","</seg>","<bpt>","<ph/>","<seg/>","<hi>","</hi>","<alphabet/>","<sdefs/>","<char/>","<char value=\"\"/>","<equiv-char/>","12"};
    add_damage(r, s, "sdmg", total, XB, 3);
    if (r.chance(1,3)) s.add("sline", {S((long)r.below(100)), r.chance(1,2) ? "lose" : r.chance(1,2) ? "double" : "swap"});
    (void)source_run;
    return s;
  }
  if (w == 8) { // AT&T
    ServerCase c = gen_toolrun(r, "C07", 1); Scenario& s = c.s; add_damage(r, s, "sdmg", 120, ATT_BITS, th ? 8 : 4); return s;
  }
  // the little XML files of lt-proc
  ServerCase c = gen_server(r, "C07", false, 0); Scenario& s = c.s; std::vector<Line> keep; for (auto& l : s.l) if (l.key != "tool" && !(l.key == "file" && (l.str(0) == "i.icx" || l.str(0) == "r.rcx"))) keep.push_back(l); s.l = keep;
  bool icx = r.chance(1,2);
  s.add("file", {icx ? "z.icx" : "z.rcx", icx ? "<ignored-chars><char value=\"-\"/><char value=\"e\"/></ignored-chars>" : "<restore-chars><char value=\"a\"><restore-char value=\"b\"/></char><char value=\"c\"><restore-char value=\"ñ\"/></char></restore-chars>"}, true);
  s.add("tool", {"lt-proc", icx ? "-i" : "-r", icx ? "z.icx" : "z.rcx", "d.bin"}, true);
  s.add("block", {gen_block(r, SK_ANALYSIS, c.d, 5, c.flags)});
  static const std::vector<std::string> B = {"<char/>","<char value=\"\"/>","<char value=\"ab\"/>","<char value=\"😀\"/>","</char>","<restore-char/>","<restore-char value=\"\"/>","<x/>","y","\"","<!-- c -->","<ignored-chars>","value=\"\""};
  add_damage(r, s, "zdmg", 110, B, 3);
  return s;
}
static std::string insane(const ProcResult& r)
{
  if (r.hang) return "hang";
  if (r.runaway) return "endless";
  if (r.misuse) return "misuse";
  if (r.sig == SIGABRT) return "abort";
  if (r.sig) return "signal" + S(r.sig);
  if (r.exited && r.code == 77) return "memory";
  return "";
}
static std::string why(const ProcResult& r)
{
  std::string e = r.err; size_t p = e.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = e.find("runtime error:");
  if (p != std::string::npos) { size_t q = e.rfind('\n', p); e = e.substr(q == std::string::npos ? 0 : q+1); }
  return r.status() + " " + r.race_text + " stderr: " + show(e, 700);
}
static Verdict c07_run(const Scenario& s, RunCtx& c)
{
  Verdict v; auto dm = s.all("dmg"), sd = s.all("sdmg"), zd = s.all("zdmg"), sl = s.all("sline");
  auto guard = [&](const ProcResult& r, const std::string& what) -> bool {
    std::string i = insane(r); if (i.empty() || r.infra) return false;
    v = viol(i + ":" + what, what + " did not survive damaged input: " + why(r)); return true;
  };
  if (!sd.empty() || !sl.empty() || !zd.empty()) {
    Disk disk; std::vector<std::string> order; std::string target = !zd.empty() ? (s.one("tool")->str(1) == "-i" ? "z.icx" : "z.rcx") : "";
    std::vector<std::string> lines; bool first = true; std::string first_name;
    for (auto* f : s.all("file")) { if (first) { first_name = f->str(0); first = false; } }
    if (target.empty()) target = first_name;
    for (auto* f : s.all("file")) { if (f->str(0) == target) lines.push_back(f->str(1)); else disk[f->str(0)] += f->str(1) + "\n"; }
    for (auto* q : sl) { if (lines.size() < 3) break; size_t i = (size_t)q->num(0) % lines.size(); if (q->str(1) == "lose") lines.erase(lines.begin()+i); else if (q->str(1) == "double") lines.insert(lines.begin()+i, lines[i]); else std::swap(lines[i], lines[(i*7+3) % lines.size()]); }
    Bytes src; for (auto& l : lines) src += l + "\n";
    disk[target] = apply_damage(apply_damage(src, sd), zd);
    for (auto* l : s.all("compile")) {
      ProcSpec ps; ps.tool = l->str(0); ps.args.assign(l->t.begin()+1, l->t.end());
      ProcResult r = c.run(ps, disk); if (r.infra) return v; if (guard(r, l->str(0))) return v;
      if (!r.ok()) return v; disk = r.disk;
    }
    ToolExec e = tool_exec(s); for (auto& x : e.extra) disk[x.first] = x.second;
    ProcResult r = c.run(e.spec, disk); if (r.infra) return v; guard(r, mode_name(s)); return v;
  }
  Prepared p = prepare(s, c); if (!p.ok) { v.vacuous = true; v.detail = p.why; return v; }
  ProcSpec ps = tool_spec(s); ps.ibuf = s.num("ibuf", 4096); ps.input = apply_damage(join_blocks(s), dm);
  if (std::find(ps.args.begin(), ps.args.end(), std::string("-e")) != ps.args.end() && ps.tool == "lt-proc") { // decompounding takes time exponential in the length of a word
    size_t run = 0; for (char ch : ps.input) { if ((unsigned char)ch <= 32) run = 0; else if (++run > 28) { v.vacuous = true; return v; } } }
  ProcResult r = c.run(ps, p.disk); c.st.blocks += s.all("block").size(); if (r.infra) return v;
  guard(r, mode_name(s)); return v;
}
static Reg c07({"C07","Damaged streams and damaged sources never make a tool misbehave", c07_gen, c07_run, 700, 60000,
  "One case = generated dictionary, tool and mode and a well-formed stream (or a dictionary, AT&T, TMX or character source) to which a seeded sequence of losses, doublings, changes, insertions, moves, bit flips and cuts is applied; the tool runs in an address- and undefined-behaviour-sanitised build. Non-trivial: the tool consumed damaged input.", real_list(), stub_list(),
  {"a tool may refuse damaged input with any non-zero exit status or translate it to anything; it may not crash, hang, run for ever or touch memory it does not own","decompounding (-e) only on words up to 28 bytes"}});
