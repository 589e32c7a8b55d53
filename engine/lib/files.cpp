// In-memory files for the symbolic build: std::filebuf's underlying file and the stdio calls of csv.h.
// The native build of a harness uses real files in its scratch directory instead (see harness/hfile.h).
#include <bits/basic_file.h>
#include <cstdio>
#include <cstring>
#include <istream>
#include <string>
#include "../harness/hfile.h"
struct MemFile { char name[64]; std::string data; bool used; };
static MemFile files[8];
struct Handle { MemFile *f; size_t pos; bool used; bool app; };
static Handle handles[16];
static MemFile *lookup(const char *name, bool create) {
  for (auto &f : files) if (f.used) {
    size_t i = 0;
    while (f.name[i] && f.name[i] == name[i]) i++;
    if (f.name[i] == name[i]) return &f;
  }
  if (create) for (auto &f : files) if (!f.used) {
    f.used = true; size_t i = 0;
    for (; name[i] && i < 63; i++) f.name[i] = name[i];
    f.name[i] = 0; f.data.clear();
    return &f;
  }
  return nullptr;
}
static Handle *open_handle(MemFile *f, size_t pos, bool app) {
  for (auto &h : handles) if (!h.used) { h.used = true; h.f = f; h.pos = pos; h.app = app; return &h; }
  return nullptr;
}
static size_t hread(Handle *h, char *b, size_t n) {
  size_t k = 0;
  while (k < n && h->pos < h->f->data.size()) b[k++] = h->f->data[h->pos++];
  return k;
}
static size_t hwrite(Handle *h, const char *b, size_t n) {
  if (h->app) h->pos = h->f->data.size();
  for (size_t k = 0; k < n; k++) {
    if (h->pos < h->f->data.size()) h->f->data[h->pos] = b[k]; else h->f->data.push_back(b[k]);
    h->pos++;
  }
  return n;
}
std::string hfile(const char *name) { return std::string("/mem/") + name; }
void put_file(const char *name, const std::string &content) { MemFile *f = lookup(hfile(name).c_str(), true); f->data = content; }
std::string get_file(const char *name) { MemFile *f = lookup(hfile(name).c_str(), false); return f ? f->data : std::string("<no such file>"); }
extern "C" {
FILE *fopen(const char *name, const char *mode) {
  MemFile *f = lookup(name, mode[0] != 'r');
  if (!f) return nullptr;
  if (mode[0] == 'w') f->data.clear();
  return (FILE *)open_handle(f, 0, mode[0] == 'a');
}
size_t fread(void *p, size_t sz, size_t n, FILE *h) { return sz ? hread((Handle *)h, (char *)p, sz * n) / sz : 0; }
int fclose(FILE *h) { ((Handle *)h)->used = false; return 0; }
int setvbuf(FILE *, char *, int, size_t) { return 0; }
}
namespace std {
__basic_file<char>::__basic_file(__c_lock *) throw() : _M_cfile(nullptr), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file() { close(); }
__basic_file<char> *__basic_file<char>::open(const char *name, ios_base::openmode mode, int) {
  if (_M_cfile) return nullptr;
  bool out = mode & ios_base::out || mode & ios_base::app;
  bool trunc = (mode & ios_base::trunc) || (out && !(mode & ios_base::in) && !(mode & ios_base::app));
  MemFile *f = lookup(name, out && (!(mode & ios_base::in) || (mode & ios_base::trunc) || (mode & ios_base::app)));
  if (!f) return nullptr;
  if (trunc) f->data.clear();
  _M_cfile = (__c_file *)open_handle(f, 0, mode & ios_base::app);
  _M_cfile_created = true;
  return this;
}
__basic_file<char> *__basic_file<char>::close() {
  if (!_M_cfile) return nullptr;
  ((Handle *)_M_cfile)->used = false;
  _M_cfile = nullptr;
  return this;
}
bool __basic_file<char>::is_open() const throw() { return _M_cfile != nullptr; }
streamsize __basic_file<char>::xsputn(const char *s, streamsize n) { return hwrite((Handle *)_M_cfile, s, n); }
streamsize __basic_file<char>::xsputn_2(const char *a, streamsize n, const char *b, streamsize m) { return hwrite((Handle *)_M_cfile, a, n) + hwrite((Handle *)_M_cfile, b, m); }
streamsize __basic_file<char>::xsgetn(char *s, streamsize n) { return hread((Handle *)_M_cfile, s, n); }
streamoff __basic_file<char>::seekoff(streamoff off, ios_base::seekdir way) throw() {
  Handle *h = (Handle *)_M_cfile;
  long base = way == ios_base::beg ? 0 : way == ios_base::cur ? (long)h->pos : (long)h->f->data.size();
  if (base + off < 0) return -1;
  h->pos = base + off;
  return h->pos;
}
int __basic_file<char>::sync() { return 0; }
streamsize __basic_file<char>::showmanyc() { Handle *h = (Handle *)_M_cfile; return h->f->data.size() - h->pos; }
// explicit specializations whose definitions live in libstdc++.so
template <> istream &getline(istream &in, string &s, char delim) {
  ios_base::iostate err = ios_base::goodbit;
  istream::sentry ok(in, true);
  size_t n = 0;
  s.erase();
  if (ok) {
    for (;;) {
      int c = in.rdbuf()->sgetc();
      if (c == char_traits<char>::eof()) { err |= ios_base::eofbit; break; }
      n++;
      in.rdbuf()->sbumpc();
      if ((char)c == delim) break;
      s.push_back((char)c);
    }
    if (!n) err |= ios_base::failbit;
  } else err |= ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}
template <> istream &operator>>(istream &in, string &s) {
  ios_base::iostate err = ios_base::goodbit;
  istream::sentry ok(in, false);
  size_t n = 0;
  if (ok) {
    s.erase();
    streamsize w = in.width(), lim = w > 0 ? w : (streamsize)s.max_size();
    while ((streamsize)n < lim) {
      int c = in.rdbuf()->sgetc();
      if (c == char_traits<char>::eof()) { err |= ios_base::eofbit; break; }
      if (c == ' ' || (unsigned)(c - 9) < 5u) break;
      s.push_back((char)c); n++;
      in.rdbuf()->sbumpc();
    }
    in.width(0);
  }
  if (!n) err |= ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}
}
