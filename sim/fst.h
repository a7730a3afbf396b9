// An independent model of the compiled dictionary: its file format and the relation it denotes.
// Written from the format alone; shares no code with lttoolbox.
#pragma once
#include "core.h"
struct RefEdge { int label; int dst; double w; bool operator<(const RefEdge& o) const { return label != o.label ? label < o.label : dst != o.dst ? dst < o.dst : w < o.w; } bool operator==(const RefEdge& o) const { return label == o.label && dst == o.dst && w == o.w; } };
struct RefTrans {
  int initial = 0; std::map<int,double> finals; std::vector<std::vector<RefEdge>> st;
  bool operator==(const RefTrans& o) const { return initial == o.initial && finals == o.finals && st == o.st; }
};
struct Entry { std::string l, r; double w; bool operator<(const Entry& o) const { return l != o.l ? l < o.l : r != o.r ? r < o.r : w < o.w; } bool operator==(const Entry& o) const { return l == o.l && r == o.r && w == o.w; } };
struct RefDict {
  std::set<int> letters; std::vector<std::string> tags; std::vector<std::pair<int,int>> pairs; std::map<std::string,RefTrans> sec;
  bool operator==(const RefDict& o) const { return letters == o.letters && tags == o.tags && pairs == o.pairs && sec == o.sec; }
  std::string sym(int s) const;
  // all paths of a section; returns false when there are more than `cap` or a cycle was cut
  bool relation(const std::string& s, std::set<Entry>& out, size_t cap = 20000, int maxlen = 60) const;
  bool strings(std::set<std::pair<std::string,std::string>>& out, size_t cap = 20000) const;   // all sections together, without weights
  std::string print() const;      // what lt-print must show
  std::string print_alpha() const;
};
bool ref_decode(const Bytes& b, RefDict& out, std::string& why);
Bytes ref_encode(const RefDict& d, bool old_format = false);
std::string utf8(int cp);
std::vector<int> cps(const std::string& s);
