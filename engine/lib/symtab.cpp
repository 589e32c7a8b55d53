// OpenFst's symbol table, from its header's data structures, so that symbolic strings are compared instead of split by native code.
// Same results as libfst's (each run replays sampled paths against the real library).
#include <fst/symbol-table.h>
#include <cstdlib>
#include <istream>
namespace fst { namespace internal {
static inline bool eq(const std::string &a, DenseSymbolMap::KeyType b) {
  if (a.size() != b.size()) return false;
  unsigned d = 0;
  for (size_t i = 0; i < a.size(); i++) d |= (unsigned char)(a[i] ^ b[i]);
  return d == 0;
}
DenseSymbolMap::DenseSymbolMap() : str_hash_(), hash_mask_(0) {}
int64 DenseSymbolMap::Find(KeyType key) const {
  for (size_t i = 0; i < symbols_.size(); i++) if (eq(symbols_[i], key)) return i;
  return -1;
}
std::pair<int64, bool> DenseSymbolMap::InsertOrFind(KeyType key) {
  int64 i = Find(key);
  if (i >= 0) return {i, false};
  symbols_.emplace_back(key);
  return {(int64)symbols_.size() - 1, true};
}
int64 SymbolTableImpl::AddSymbol(SymbolType symbol, int64 key) {
  if (key == kNoSymbol) return key;
  const auto insert = symbols_.InsertOrFind(symbol);
  if (!insert.second) return GetNthKey(insert.first);
  if (key == (int64)symbols_.Size() - 1 && key == dense_key_limit_) ++dense_key_limit_;
  else { idx_key_.push_back(key); key_map_[key] = symbols_.Size() - 1; }
  if (key >= available_key_) available_key_ = key + 1;
  check_sum_finalized_ = false;
  return key;
}
std::string SymbolTableImpl::Find(int64 key) const {
  int64 idx = key;
  if (key < 0 || key >= dense_key_limit_) {
    const auto it = key_map_.find(key);
    if (it == key_map_.end()) return "";
    idx = it->second;
  }
  if (idx < 0 || idx >= (int64)symbols_.Size()) return "";
  return symbols_.GetSymbol(idx);
}
// a text table: a symbol and its number per line
SymbolTableImpl *SymbolTableImpl::ReadText(std::istream &strm, const std::string &name, const SymbolTableTextOptions &opts) {
  auto *impl = new SymbolTableImpl(name);
  std::string line;
  while (std::getline(strm, line)) {
    size_t i = 0, n = line.size();
    auto blank = [&](size_t k) { return line[k] == ' ' || line[k] == '\t'; };
    std::string col[3]; int cols = 0;
    while (i < n && cols < 3) { while (i < n && blank(i)) i++; size_t b = i; while (i < n && !blank(i)) i++; if (i > b) col[cols++] = line.substr(b, i - b); }
    if (cols == 0) continue;
    if (cols != 2) { delete impl; return nullptr; }
    impl->AddSymbol(col[0], strtoll(col[1].c_str(), nullptr, 10));
  }
  return impl;
}
} }
