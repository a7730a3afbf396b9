// Catalogue of runs of every tool of the package: what it reads, what it writes.
#include "props.h"

static std::string ATT(Rng& r)
{
  std::string o; int n = r.range(2,6);
  for (int i=0;i<n;i++) { o += S(i) + "\t" + S(i+1) + "\t" + std::string(1, "abc"[r.below(3)]) + "\t" + (r.chance(1,3) ? std::string("@0@") : std::string(1, "abc"[r.below(3)])) + (r.chance(1,2) ? "\t" + S(r.range(0,3)) + ".500000" : std::string()) + "\n"; }
  o += S(n) + "\t" + S(n+1) + "\t@0@\t<n>\n" + S(n+1) + (r.chance(1,2) ? "\t0.250000" : "") + "\n";
  if (r.chance(1,2)) o += "--\n0\t1\t.\t.\n1\t2\t@0@\t<sent>\n2\n";
  return o;
}
static const char* ACX = "<?xml version=\"1.0\"?>\n<analysis-chars><char value=\"a\"><equiv-char value=\"b\"/></char><char value=\"c\"><equiv-char value=\"d\"/><equiv-char value=\"e\"/></char></analysis-chars>";

int toolrun_kinds() { return 16; }
// adds file/compile/tool lines; `out` names the product ("<out>" or a file); text tools get block lines
ServerCase gen_toolrun(Rng& r, const std::string& prop, int kind)
{
  ServerCase c; c.s.prop = prop; Scenario& s = c.s; GenOpt o = gen_opt(r);
  if (kind < 0) kind = r.range(0, toolrun_kinds()-1);
  auto bin = [&](const std::string& dir, const std::string& src, const std::string& dst) { s.add("compile", {"lt-comp", dir, src, dst}, true); };
  std::string prod = "out.bin"; std::vector<std::string> t;
  std::string dir = r.chance(1,2) ? "lr" : "rl";
  switch (kind) {
  case 0: { c.d = gen_mono(r,o); put_dict(s,"d.dix",c.d); t = {"lt-comp"}; if (r.chance(1,6)) t.push_back("-m"); if (r.chance(1,8)) t.push_back("-d"); if (r.chance(1,6)) dir = "u"; t.insert(t.end(), {dir,"d.dix",prod}); if (dir == "lr" && r.chance(1,3)) { s.add("file",{"x.acx",ACX},true); t.push_back("x.acx"); } break; }
  case 1: { s.add("file",{"d.att",ATT(r)},true); t = {"lt-comp"}; if (r.chance(1,3)) t.push_back("-S"); t.insert(t.end(), {dir,"d.att",prod}); break; }
  case 2: { c.d = gen_tmx(r,o); put_dict(s,"d.tmx",c.d); t = {"lt-tmxcomp","aa-bb","d.tmx",prod}; break; }
  case 3: { c.d = gen_mono(r,o); put_dict(s,"d.dix",c.d); auto e = gen_mono(r,o); put_dict(s,"e.dix",e); bin(dir,"d.dix","a.bin"); bin(dir,"e.dix","b.bin"); t = {"lt-append"}; if (r.chance(1,3)) t.push_back("-k"); t.insert(t.end(), {"a.bin","b.bin",prod}); break; }
  case 4: { o.entries = std::min(o.entries,10); c.d = gen_mono(r,o); put_dict(s,"d.dix",c.d); auto e = gen_bi(r,o,&c.d); put_dict(s,"e.dix",e); bin("lr","d.dix","a.bin"); bin("lr","e.dix","b.bin"); t = {"lt-compose"}; if (r.chance(1,4)) t.push_back("-i"); if (r.chance(1,4)) t.push_back("-a"); t.insert(t.end(), {"a.bin","b.bin",prod}); break; }
  case 5: { c.d = gen_mono(r,o); put_dict(s,"d.dix",c.d); bin(dir,"d.dix","a.bin"); t = {"lt-invert","a.bin",prod}; break; }
  case 6: { c.d = gen_mono(r,o); put_dict(s,"d.dix",c.d); bin("u","d.dix","a.bin"); t = {"lt-restrict"}; if (r.chance(1,2)) t.push_back("-m"); t.insert(t.end(), {dir,"a.bin",prod}); break; }
  case 7: { c.d = gen_mono(r,o); put_dict(s,"d.dix",c.d); auto e = gen_bi(r,o,&c.d); put_dict(s,"e.dix",e); bin("lr","d.dix","a.bin"); bin("lr","e.dix","b.bin"); t = {"lt-trim","a.bin","b.bin",prod}; break; }
  case 8: { c.d = gen_mono(r,o); put_dict(s,"d.dix",c.d); bin(dir,"d.dix","a.bin"); s.add("file",{"x.acx",ACX},true); t = {"lt-apply-acx","a.bin","x.acx",prod}; break; }
  case 9: { c.d = gen_mono(r,o); put_dict(s,"d.dix",c.d); bin(dir,"d.dix","a.bin"); t = {"lt-print"}; if (r.chance(1,4)) t.push_back("-a"); if (r.chance(1,4)) t.push_back("-H"); t.push_back("a.bin"); if (r.chance(1,2)) { prod = "out.txt"; t.push_back(prod); } else prod = "<out>"; break; }
  case 10: { o.regex = o.regex && r.chance(1,2); c.d = gen_mono(r,o); put_dict(s,"d.dix",c.d); t = {"lt-expand"}; if (r.chance(1,5)) t.push_back("-m"); t.push_back("d.dix"); if (r.chance(1,2)) { prod = "out.txt"; t.push_back(prod); } else prod = "<out>"; break; }
  default: { // text tools
    static const int m[] = {13,-1,-1,10,11};
    int which = kind - 11; int only = which == 0 ? 13 : which == 1 ? r.range(0,5) : which == 2 ? r.range(6,9) : which == 3 ? 10 : r.range(11,12); (void)m;
    c = gen_server(r, prop, r.chance(1,2), only);
    int n = r.range(1,3); for (int i=0;i<n;i++) c.s.add("block", {gen_block(r, c.kind, c.d, r.range(1,r.chance(1,5)?60:8), c.flags)});
    prod = "<out>";
    if (r.chance(1,2)) { prod = "out.txt"; for (auto& l : c.s.l) if (l.key == "tool") { l.t.push_back("in.txt"); l.t.push_back("out.txt"); } }
    c.s.add("out", {prod}, true);
    return c; }
  }
  c.tool = t[0];
  s.add("tool", t, true); s.add("out", {prod}, true);
  return c;
}

ToolExec tool_exec(const Scenario& s)
{
  ToolExec e; e.spec = tool_spec(s); e.product = s.str("out","<out>");
  Bytes in = join_blocks(s);
  bool viafile = false; for (auto& a : e.spec.args) if (a == "in.txt") viafile = true;
  if (viafile) { e.extra["in.txt"] = in; e.text_in = "in.txt"; } else { e.spec.input = in; e.text_in = s.one("block") ? "<in>" : ""; }
  return e;
}
Bytes product_of(const ToolExec& e, const ProcResult& r) { if (e.product == "<out>") return r.out; auto it = r.disk.find(e.product); return it == r.disk.end() ? Bytes("<absent>") : it->second; }
