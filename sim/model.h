// Reference model of dictionary look-up: what a compiled dictionary means for text.
// Works on the independently decoded file (fst.h); shares no code with lttoolbox, uses ICU for character classes.
#pragma once
#include "fst.h"
struct Opts { bool case_sensitive = false, dict_case = false, weights = false, careful = false, compound = false; int max_parts = 4; int max_n = 1 << 30, max_l = 1 << 30; std::set<int> ignored; std::map<int,std::set<int>> restore; };
struct Cfg { int sec, st; std::vector<int> out; double w; bool dirty; };
struct Reading { std::string s; double w; };
bool m_upper(int c); int m_lower(int c); bool m_alnum(int c); bool m_space(int c);
std::string m_escape(const std::string& s);
struct Machine {
  const RefDict& d; std::vector<std::string> names; std::vector<const RefTrans*> tr; bool over = false;
  std::vector<std::string> syms; // texts of the symbols; may be changed (compound control symbols are shown as nothing)
  explicit Machine(const RefDict& d);
  typedef std::vector<Cfg> Set;
  void closure(Set& s);
  Set initial();
  Set step(const Set& s, int v, const std::set<int>& alts);      // alternatives mark the path as re-cased
  Set step_case(const Set& s, int v, const Opts& o);
  Set step_keep(const Set& s, int v, const Opts& o);             // a copied letter keeps its case
  int final_kind(const Set& s);                                  // 0 none, 1 standard only, 2 some other section type
  int final_section(const Set& s);                               // 0 inconditional, 1 postblank, 2 preblank, 3 standard: the first of these that has an accepted path
  double final_weight(const Cfg& c, bool& fin) const;
  std::string text(const Cfg& c, bool uppercase, bool firstupper) const;
  std::vector<Reading> readings(const Set& s, bool uppercase, bool firstupper); // every path, in no particular order
  int code(const std::string& tag) const;                        // 0 when the dictionary does not have it
  bool alphabetic(int c) const { return m_alnum(c) || d.letters.count(c); }
};
// does the list of shown readings agree with the paths?  "" or what is wrong
std::string check_readings(const std::vector<Reading>& all, const std::vector<std::string>& shown, const Opts& o);
Opts opts_of(const Scenario& s);

// analysis -----------------------------------------------------------------------
struct AItem { bool unit = false; int ch = 0; std::vector<int> surf; std::vector<Reading> all; bool unknown = false; };
struct AToken { int c; };
bool a_parse(const std::string& block, const Opts& o, std::vector<int>& in);   // false: outside the model
bool a_model(Machine& m, const std::vector<int>& in, const Opts& o, std::vector<AItem>& out, std::string* skel = nullptr);   // skel: \1 per unit, characters and spaces between
// units and text of a reply; white space and blanks dropped
struct OItem { bool unit = false; int ch = 0; std::string surf; std::vector<std::string> readings; };
bool o_parse(const std::string& reply, std::vector<OItem>& out, std::string& why, std::string* skel = nullptr);

// lexical units ---------------------------------------------------------------------
struct LReading { int mark = 0; std::string content; std::vector<int> syms; std::vector<std::string> texts; bool tags = false; };  // syms: 0 = unknown tag
struct LItem { std::string blank, wblank; bool unit = false; std::vector<LReading> r; };
bool l_parse(const std::string& block, const Machine& m, std::vector<LItem>& out);  // the last item may have only a blank
LReading l_word(const std::string& w, const Machine& m);
// every way of showing the readings, joined by '/'; false: too many
bool render(const std::vector<Reading>& all, const Opts& o, std::vector<std::string>& out);

// rewriting (postgeneration, transliteration): the text after every leftmost longest match was replaced
bool p_parse(const std::string& block, std::vector<int>& text, bool& plain, std::string& lead, std::string& tail);
bool p_model(Machine& m, std::vector<int> text, const Opts& o, bool drop_tilde, std::string& out, int& changes);
