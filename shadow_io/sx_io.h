// Input and output streams for code under test that handles files: files live in the environment
// model (env_file_*), standard input is what the harness provides. Standard output stays as it is.
#ifndef VERIF_SX_IO_H_
#define VERIF_SX_IO_H_
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <sstream>
#include <string>
#include <type_traits>
#include "env.h"

namespace sxio {
struct Buf {
  std::string s;       // contents
  size_t pos = 0;      // reading
  size_t wpos = 0;     // writing
  std::string file;    // written back here
  bool out = false, open = false;
  int sgetc() { return pos < s.size() ? (int)(unsigned char)s[pos] : -1; }
  int sbumpc() { return pos < s.size() ? (int)(unsigned char)s[pos++] : -1; }
  int snextc() { if (pos < s.size()) pos++; return sgetc(); }
  std::streamsize in_avail() { return s.size() - pos; }
  std::streamsize sgetn(char* p, std::streamsize n) {
    std::streamsize k = 0;
    for (; k < n && pos < s.size(); k++) p[k] = s[pos++];
    return k;
  }
  std::streamsize sputn(const char* p, std::streamsize n) {
    for (std::streamsize i = 0; i < n; i++) { if (wpos < s.size()) s[wpos] = p[i]; else s.push_back(p[i]); wpos++; }
    return n;
  }
  int pubsync() { if (open && out) env_file_put(file.c_str(), s.data(), s.size()); return 0; }
};
class Stream {
 public:
  using iostate = std::ios_base::iostate;
  Stream() {}
  Stream(const Stream&) = delete;
  ~Stream() { flush(); }
  // state
  bool good() const { return st_ == 0; }
  bool eof() const { return st_ & std::ios_base::eofbit; }
  bool fail() const { return st_ & (std::ios_base::failbit | std::ios_base::badbit); }
  bool bad() const { return st_ & std::ios_base::badbit; }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  iostate rdstate() const { return st_; }
  void clear(iostate s = std::ios_base::goodbit) { st_ = s; check(); }
  void setstate(iostate s) { st_ = st_ | s; check(); }
  iostate exceptions() const { return ex_; }
  void exceptions(iostate e) { ex_ = e; check(); }
  void* tie(void*) { return nullptr; }
  Buf* rdbuf() { return &b_; }
  static bool sync_with_stdio(bool = true) { return true; }
  // input
  std::streamsize gcount() const { return g_; }
  int get() { g_ = 0; if (!ok()) return -1; int c = b_.sbumpc(); if (c < 0) setstate(std::ios_base::eofbit | std::ios_base::failbit); else g_ = 1; return c; }
  Stream& get(char& c) { int k = get(); if (k >= 0) c = (char)k; return *this; }
  int peek() { g_ = 0; if (!ok()) return -1; int c = b_.sgetc(); if (c < 0) setstate(std::ios_base::eofbit); return c; }
  Stream& unget() { st_ = st_ & ~std::ios_base::eofbit; if (!fail() && b_.pos) b_.pos--; return *this; }
  Stream& putback(char) { return unget(); }
  Stream& read(char* p, std::streamsize n) {
    g_ = 0;
    if (!ok()) return *this;
    g_ = b_.sgetn(p, n);
    if (g_ < n) setstate(std::ios_base::eofbit | std::ios_base::failbit);
    return *this;
  }
  std::streamsize readsome(char* p, std::streamsize n) { g_ = ok() ? b_.sgetn(p, n) : 0; return g_; }
  Stream& ignore(std::streamsize n = 1, int delim = -1) {
    g_ = 0;
    if (!ok()) return *this;
    while (n == std::numeric_limits<std::streamsize>::max() || g_ < n) {
      int c = b_.sbumpc();
      if (c < 0) { setstate(std::ios_base::eofbit); break; }
      g_++;
      if (c == delim) break;
    }
    return *this;
  }
  Stream& getline(char* p, std::streamsize n, char delim = '\n') {
    g_ = 0;
    std::streamsize k = 0;
    if (ok()) {
      while (1) {
        int c = b_.sgetc();
        if (c < 0) { setstate(std::ios_base::eofbit | (k ? std::ios_base::goodbit : std::ios_base::failbit)); break; }
        if ((char)c == delim) { b_.sbumpc(); g_++; break; }
        if (k + 1 >= n) { setstate(std::ios_base::failbit); break; }
        b_.sbumpc(); p[k++] = (char)c; g_++;
      }
    }
    if (n > 0) p[k] = 0;
    return *this;
  }
  std::streampos tellg() { return fail() ? std::streampos(-1) : std::streampos((std::streamoff)b_.pos); }
  Stream& seekg(std::streampos p) { return seekg((std::streamoff)p, std::ios_base::beg); }
  Stream& seekg(std::streamoff o, std::ios_base::seekdir d) {
    st_ = st_ & ~std::ios_base::eofbit;
    if (fail()) return *this;
    std::streamoff at = o + (d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? (std::streamoff)b_.pos : (std::streamoff)b_.s.size());
    if (at < 0 || at > (std::streamoff)b_.s.size()) setstate(std::ios_base::failbit); else b_.pos = at;
    return *this;
  }
  void skipws() { while (1) { int c = b_.sgetc(); if (c < 0) { setstate(std::ios_base::eofbit); return; } if (!space(c)) return; b_.sbumpc(); } }
  template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>> Stream& operator>>(T& v) {
    if constexpr (std::is_same<T, char>::value || std::is_same<T, unsigned char>::value || std::is_same<T, signed char>::value) {
      if (!ok()) return *this;
      if (skip_) skipws();
      int c = b_.sbumpc();
      if (c < 0) setstate(std::ios_base::eofbit | std::ios_base::failbit); else v = (T)c;
    } else {
      std::string t;
      bool fine = st_ == 0;
      if (fine && skip_) skipws();
      if (!fine || st_) { setstate(std::ios_base::failbit); return *this; }  // nothing to read: v stays as it is
      if (!token(&t, std::is_floating_point<T>::value ? 2 : 1)) { v = 0; return *this; }
      char* e;
      if constexpr (std::is_floating_point<T>::value) {
        v = (T)strtod(t.c_str(), &e);
      } else {
        errno = 0;
        long long k = strtoll(t.c_str(), &e, 10);
        using L = std::numeric_limits<T>;
        bool neg = t[0] == '-';
        if constexpr (std::is_unsigned<T>::value) {
          // as num_get: a minus sign wraps; out of range saturates
          unsigned long long m = neg ? 0ull - (unsigned long long)k : (unsigned long long)k;
          if (m > (unsigned long long)L::max() || errno) { v = L::max(); setstate(std::ios_base::failbit); } else v = (T)(neg ? 0 - m : m);
        } else {
          if (k > (long long)L::max() || (errno && !neg)) { v = L::max(); setstate(std::ios_base::failbit); }
          else if (k < (long long)L::min() || errno) { v = L::min(); setstate(std::ios_base::failbit); }
          else v = (T)k;
        }
      }
      if (e != t.c_str() + t.size() || t.empty()) { v = 0; setstate(std::ios_base::failbit); }
    }
    return *this;
  }
  Stream& operator>>(std::string& v) {
    std::string t;
    if (token(&t, 0)) v = t;
    return *this;
  }
  Stream& operator>>(std::ios_base& (*f)(std::ios_base&)) { if (f == std::noskipws) skip_ = false; else if (f == std::skipws) skip_ = true; return *this; }
  Stream& operator>>(Stream& (*f)(Stream&)) { return f(*this); }
  // output
  Stream& write(const char* p, std::streamsize n) { if (good()) b_.sputn(p, n); return *this; }
  Stream& put(char c) { return write(&c, 1); }
  Stream& flush() { b_.pubsync(); return *this; }
  std::streampos tellp() { return fail() ? std::streampos(-1) : std::streampos((std::streamoff)b_.wpos); }
  Stream& seekp(std::streampos p) { b_.wpos = (std::streamoff)p; return *this; }
  Stream& operator<<(const std::string& s) { return write(s.data(), s.size()); }
  Stream& operator<<(const char* s) { return write(s, strlen(s)); }
  Stream& operator<<(char c) { return write(&c, 1); }
  template <class T, class = std::enable_if_t<std::is_integral<T>::value>> Stream& operator<<(T v) { return *this << std::to_string(v); }
  Stream& operator<<(Buf* o) { while (o->pos < o->s.size()) put(o->s[o->pos++]); return *this; }
  Stream& operator<<(Stream& (*f)(Stream&)) { return f(*this); }

 protected:
  static bool space(int c) { return c == ' ' || (c >= 9 && c <= 13); }
  bool ok() { if (st_ == 0) return true; setstate(std::ios_base::failbit); return false; }
  void check() { if (st_ & ex_) abort(); }
  static bool part(int c, int kind) {
    if (kind == 0) return !space(c);
    if ((c >= '0' && c <= '9') || c == '-' || c == '+') return true;
    return kind == 2 && (c == '.' || c == 'e' || c == 'E');
  }
  bool token(std::string* t, int kind) {
    if (!ok()) return false;
    if (skip_) skipws();
    if (st_) { setstate(std::ios_base::failbit); return false; }
    while (1) {
      int c = b_.sgetc();
      if (c < 0) { setstate(std::ios_base::eofbit); break; }
      if (!part(c, kind)) break;
      if (kind && (c == '-' || c == '+') && !t->empty() && !(kind == 2 && (t->back() == 'e' || t->back() == 'E'))) break;
      t->push_back((char)c);
      b_.sbumpc();
    }
    if (t->empty()) { setstate(std::ios_base::failbit); return false; }
    return true;
  }
  Buf b_;
  iostate st_ = std::ios_base::goodbit, ex_ = std::ios_base::goodbit;
  std::streamsize g_ = 0;
  bool skip_ = true;
};
inline Stream& getline(Stream& f, std::string& s, char delim = '\n') {
  s.clear();
  if (!f.good()) { f.setstate(std::ios_base::failbit); return f; }
  bool any = false;
  while (1) {
    int c = f.rdbuf()->sbumpc();
    if (c < 0) { f.setstate(std::ios_base::eofbit | (any ? std::ios_base::goodbit : std::ios_base::failbit)); return f; }
    any = true;
    if ((char)c == delim) return f;
    s.push_back((char)c);
  }
}
template <int MODE> class File : public Stream {  // 1 in, 2 out, 3 both
 public:
  File() {}
  explicit File(const char* n, std::ios_base::openmode m = std::ios_base::openmode(0)) { open(n, m); }
  explicit File(const std::string& n, std::ios_base::openmode m = std::ios_base::openmode(0)) { open(n.c_str(), m); }
  void open(const std::string& n, std::ios_base::openmode m = std::ios_base::openmode(0)) { open(n.c_str(), m); }
  void open(const char* n, std::ios_base::openmode m = std::ios_base::openmode(0)) {
    bool in = MODE == 1 || (MODE == 3 && (m == std::ios_base::openmode(0) || (m & std::ios_base::in))), out = MODE == 2 || (MODE == 3 && (m == std::ios_base::openmode(0) || (m & std::ios_base::out)));
    bool app = m & std::ios_base::app, trunc = (m & std::ios_base::trunc) || (out && !in && !app && !(m & std::ios_base::in));
    st_ = std::ios_base::goodbit;
    b_.s.clear();
    b_.pos = b_.wpos = 0;
    uint32_t len = 0;
    const uint8_t* d = env_file_get(n, &len);
    if (!d && !trunc && !app) { setstate(std::ios_base::failbit); return; }
    if (d && !trunc) b_.s.assign((const char*)d, len);
    if (app || (m & std::ios_base::ate)) b_.wpos = b_.pos = b_.s.size();
    if (app && in) b_.pos = 0;
    b_.file = n;
    b_.out = out;
    b_.open = true;
    if (out) b_.pubsync();
  }
  bool is_open() const { return b_.open; }
  void close() { flush(); if (!b_.open) setstate(std::ios_base::failbit); b_.open = false; }
  Stream& write(const char* p, std::streamsize n) { if (!b_.open || !b_.out) setstate(std::ios_base::badbit); return Stream::write(p, n); }
};
class Text : public Stream {
 public:
  Text() {}
  explicit Text(const std::string& s, std::ios_base::openmode = std::ios_base::in) { b_.s = s; }
  std::string str() const { return b_.s; }
  void str(const std::string& s) { b_.s = s; b_.pos = b_.wpos = 0; }
};
template <class C> class BufIter {
 public:
  using iterator_category = std::input_iterator_tag;
  using value_type = C;
  using difference_type = std::streamoff;
  using pointer = C*;
  using reference = C;
  BufIter() : b_(nullptr) {}
  BufIter(Stream& s) : b_(s.good() ? s.rdbuf() : nullptr) {}
  BufIter(Buf* b) : b_(b) {}
  C operator*() const { return (C)b_->sgetc(); }
  BufIter& operator++() { b_->sbumpc(); return *this; }
  BufIter operator++(int) { BufIter o = *this; b_->sbumpc(); return o; }
  bool end() const { return !b_ || b_->sgetc() < 0; }
  bool operator==(const BufIter& o) const { return end() == o.end(); }
  bool operator!=(const BufIter& o) const { return end() != o.end(); }
 private:
  Buf* b_;
};
extern Stream in;
inline Stream& ws(Stream& s) { s.skipws(); return s; }
}  // namespace sxio
namespace std {
using sx_ifstream = sxio::File<1>;
using sx_ofstream = sxio::File<2>;
using sx_fstream = sxio::File<3>;
using sx_stringstream = sxio::Text;
using sx_istream = sxio::Stream;
template <class C> using sx_istreambuf_iterator = sxio::BufIter<C>;
using sxio::getline;
static sxio::Stream& sx_cin = sxio::in;
}
#define ifstream sx_ifstream
#define ofstream sx_ofstream
#define fstream sx_fstream
#define stringstream sx_stringstream
#define istringstream sx_stringstream
#define ostringstream sx_stringstream
#define istream sx_istream
#define istreambuf_iterator sx_istreambuf_iterator
#define cin sx_cin
#endif
