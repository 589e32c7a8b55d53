#pragma once
#include <string>
// files of a harness: in memory in the symbolic build, in the scratch directory in the native one
std::string hfile(const char *name);
void put_file(const char *name, const std::string &content);
std::string get_file(const char *name);
#ifdef SYM_REPLAY
#include "sym.h"
#include <fstream>
#include <sstream>
inline std::string hfile(const char *name) { return std::string(sym_tmpdir()) + "/" + name; }
inline void put_file(const char *name, const std::string &content) { std::ofstream o(hfile(name), std::ios::binary); o.write(content.data(), content.size()); }
inline std::string get_file(const char *name) { std::ifstream i(hfile(name), std::ios::binary); if (!i) return "<no such file>"; std::stringstream s; s << i.rdbuf(); return s.str(); }
#endif
