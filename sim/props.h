#pragma once
#include "gen.h"
Bytes join_blocks(const Scenario& s);
int block_size(Rng& r, bool thorough);
void add_blocks(Rng& r, ServerCase& c, int n, bool thorough);
std::string bad_end(const ProcResult& r);
std::string mode_name(const Scenario& s);
const std::vector<std::string>& real_list();
const std::vector<std::string>& stub_list();
struct ToolExec { ProcSpec spec; Disk extra; std::string product, text_in; };
int toolrun_kinds();
ServerCase gen_toolrun(Rng& r, const std::string& prop, int kind = -1);
ToolExec tool_exec(const Scenario& s);
Bytes product_of(const ToolExec& e, const ProcResult& r);
