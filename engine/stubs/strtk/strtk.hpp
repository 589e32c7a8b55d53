// The part of the String Toolkit Library that fstalign uses (the library itself is not installed):
// strtk::split with a set of delimiter characters.  Written after strtk's documented behaviour:
// compress_delimiters treats a run of delimiters as one; text before the first and after the last delimiter is kept, empty or not.
#pragma once
#include <cstddef>
#include <iterator>
#include <string>
#include <utility>
namespace strtk {
namespace split_options {
enum type { default_mode = 0, compress_delimiters = 1, include_1st_delimiter = 2, include_all_delimiters = 4 };
}
template <typename Sequence>
struct range_to_type_back_inserter_iterator {
  Sequence &seq;
  template <typename It> void add(It a, It b) { seq.push_back(typename Sequence::value_type(a, b)); }
};
template <typename Sequence>
inline range_to_type_back_inserter_iterator<Sequence> range_to_type_back_inserter(Sequence &s) { return {s}; }
inline bool is_delim_(const char *d, char c) { bool r = false; for (; *d; d++) r = (int)r | (int)(*d == c); return r; }
template <typename Out>
inline std::size_t split(const char *delims, const std::string &str, Out out, split_options::type opt = split_options::default_mode) {
  const char *range_begin = str.data(), *end = range_begin + str.size();
  if (range_begin == end) return 0;
  const char *prev = range_begin, *it = range_begin;
  std::size_t n = 0;
  while (it != end) {
    if (is_delim_(delims, *it)) {
      out.add(prev, it);
      n++;
      ++it;
      if (opt & split_options::compress_delimiters) while (it != end && is_delim_(delims, *it)) ++it;
      prev = it;
    } else ++it;
  }
  if (prev != it || is_delim_(delims, *(it - 1))) { out.add(prev, it); n++; }
  return n;
}
}
