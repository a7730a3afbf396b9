// Reference semantics of the dictionary tools: what a source (XML or AT&T) and every operation on
// compiled dictionaries denotes, as a finite relation (cut at a length when the source has loops).
// Has its own XML reader; shares no code with lttoolbox.
#pragma once
#include "fst.h"
struct XNode { std::string name, text; std::map<std::string,std::string> a; std::vector<XNode> c; const std::string& at(const std::string& k) const { static const std::string e; auto i = a.find(k); return i == a.end() ? e : i->second; } };
bool xml_tree(const std::string& s, XNode& root);
typedef std::u32string Sym;                       // characters, and symbols as interned codes above 0x110000
char32_t tag_code(const std::string& tag); bool is_tag_code(char32_t c);
std::string sym_text(const Sym& s);
typedef std::map<std::pair<Sym,Sym>, double> Rel; // cheapest weight per pair
struct MDict { std::set<int> letters; std::map<std::string,Rel> sec; int K = 1000; bool over = false, weights = true, loose = false; std::string why; };
struct DixOpt { std::string dir = "lr", alt, var, vl, vr; bool keep = false; std::map<int,std::set<int>> acx; };
bool dix_loops(const std::string& xml);                            // has a regular expression with a loop
MDict dix_model(const std::string& xml, const DixOpt& o, int K);   // what lt-comp must produce
std::vector<std::string> dix_expand(const std::string& xml, const DixOpt& o, bool& over); // what lt-expand must print, as a sorted list
MDict att_model(const std::string& att, bool rl, bool split, int K);
bool bin_model(const Bytes& b, int K, MDict& out, std::string& why);   // decode and enumerate
std::map<int,std::set<int>> acx_table(const std::string& xml);
// operations
MDict op_invert(const MDict& a);
MDict op_append(const MDict& a, const MDict& b, bool keep);
MDict op_acx(const MDict& a, const std::map<int,std::set<int>>& t);
MDict op_compose(const MDict& f, const MDict& g, bool inverted);
MDict op_compose_anywhere(const MDict& f, const MDict& g, bool inverted);
Rel rel_union(const MDict& a);
// "" when equal, else the first difference.  sections: compare section by section
std::string rel_diff(const Rel& want, const Rel& got, bool weights);
std::string dict_diff(const MDict& want, const MDict& got, bool sections, bool weights);
// trimming: 1 must be kept, -1 must be dropped, 0 not specified
int trim_rule(const Sym& t, const std::set<Sym>& bi, const std::set<char32_t>& tags);
