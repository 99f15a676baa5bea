// The parts of libstdc++ and libc that live in shared libraries, for the symbolic executor.
// (Natively only the hash-policy overrides are used, so that iteration order agrees.)
#include <string>
#include <vector>
#include <list>
#include <map>
#include <unordered_map>
#include <deque>
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include "sx.h"

namespace std { namespace __detail {
// one bucket while small (the behaviour of the containers does not depend on the number of buckets)
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { return n < 256 ? 1 : 4093; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t b, std::size_t e, std::size_t i) const {
  if (b < 4093 && e + i > 256) return {true, 4093};
  return {false, 0};
}
} }

#ifdef SX_ENGINE
template class std::allocator<char>;
template class std::basic_string<char>;
namespace std {
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  const unsigned char* b = (const unsigned char*)p;
  size_t h = seed;
  for (size_t i = 0; i < n; i++) h = h * 31 + b[i];
  return h;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept {
  if (this != l) {
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
    _List_node_base* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
  }
}
}
// Red-black tree: balanced when inserting, not when erasing; same order, same contents.
static _Rb_tree_node_base* rb_inc(_Rb_tree_node_base* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static _Rb_tree_node_base* rb_dec(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return rb_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return rb_inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return rb_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return rb_dec(const_cast<_Rb_tree_node_base*>(x)); }
static void rb_rotate(_Rb_tree_node_base* x, bool left, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* y = left ? x->_M_right : x->_M_left;
  _Rb_tree_node_base* mid = left ? y->_M_left : y->_M_right;
  (left ? x->_M_right : x->_M_left) = mid;
  if (mid) mid->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
  else x->_M_parent->_M_right = y;
  (left ? y->_M_left : y->_M_right) = x;
  x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
  _Rb_tree_node_base*& root = h._M_parent;
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base* up = x->_M_parent->_M_parent;
    const bool l = x->_M_parent == up->_M_left;
    _Rb_tree_node_base* uncle = l ? up->_M_right : up->_M_left;
    if (uncle && uncle->_M_color == _S_red) {
      x->_M_parent->_M_color = uncle->_M_color = _S_black;
      up->_M_color = _S_red;
      x = up;
    } else {
      if (x == (l ? x->_M_parent->_M_right : x->_M_parent->_M_left)) { x = x->_M_parent; rb_rotate(x, l, root); }
      x->_M_parent->_M_color = _S_black;
      up->_M_color = _S_red;
      rb_rotate(up, !l, root);
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base*& root = h._M_parent;
  _Rb_tree_node_base *y = z, *x = 0;
  if (!y->_M_left) x = y->_M_right;
  else if (!y->_M_right) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
    }
    if (root == z) root = y;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
    else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    root->_M_color = _S_black;
    return z;
  }
  if (x) x->_M_parent = y->_M_parent;
  if (root == z) root = x;
  else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
  else z->_M_parent->_M_right = x;
  if (h._M_left == z) { if (!z->_M_right) h._M_left = z->_M_parent; else { auto* m = x; while (m->_M_left) m = m->_M_left; h._M_left = m; } }
  if (h._M_right == z) { if (!z->_M_left) h._M_right = z->_M_parent; else { auto* m = x; while (m->_M_right) m = m->_M_right; h._M_right = m; } }
  if (root) root->_M_color = _S_black;
  return z;
}
}
static int the_errno;
extern "C" {
int sx_memcmp(const void* a, const void* b, size_t n) {
  const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
  for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
int sx_bcmp(const void* a, const void* b, size_t n) {
  const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
  unsigned d = 0;
  for (size_t i = 0; i < n; i++) d |= x[i] ^ y[i];
  return d != 0;
}
size_t sx_strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t sx_strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
void* sx_memchr(const void* s, int c, size_t n) {
  const unsigned char* p = (const unsigned char*)s;
  for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i);
  return nullptr;
}
int sx_strcmp(const char* a, const char* b) { size_t i = 0; while (a[i] && a[i] == b[i]) i++; return (unsigned char)a[i] - (unsigned char)b[i]; }
int sx_strncmp(const char* a, const char* b, size_t n) {
  for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i]; if (!a[i]) return 0; }
  return 0;
}
char* sx_strcpy(char* d, const char* s) { size_t i = 0; while ((d[i] = s[i])) i++; return d; }
char* sx_strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* sx_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
long sx_strtol(const char* s, char** e, int base) {
  const char* p = s;
  while (*p == ' ' || *p == '\t' || *p == '\n') p++;
  bool neg = false;
  if (*p == '-' || *p == '+') neg = *p++ == '-';
  if (base == 0 || base == 16) { if (p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; } else if (base == 0) base = p[0] == '0' ? 8 : 10; }
  long v = 0; const char* st = p; bool over = false;
  while (1) {
    int d = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'z' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'Z' ? *p - 'A' + 10 : 99;
    if (d >= base) break;
    if (v > (0x7fffffffffffffffl - d) / base) over = true; else v = v * base + d;
    p++;
  }
  if (e) *e = (char*)(p == st ? s : p);
  if (over) { the_errno = ERANGE; return neg ? (-0x7fffffffffffffffl - 1) : 0x7fffffffffffffffl; }
  return neg ? -v : v;
}
long sx___isoc23_strtol(const char* s, char** e, int b) { return sx_strtol(s, e, b); }
unsigned long sx_strtoul(const char* s, char** e, int b) { return sx_strtol(s, e, b); }
unsigned long sx___isoc23_strtoul(const char* s, char** e, int b) { return sx_strtol(s, e, b); }
long long sx_strtoll(const char* s, char** e, int b) { return sx_strtol(s, e, b); }
long long sx___isoc23_strtoll(const char* s, char** e, int b) { return sx_strtol(s, e, b); }
unsigned long long sx_strtoull(const char* s, char** e, int b) { return sx_strtol(s, e, b); }
unsigned long long sx___isoc23_strtoull(const char* s, char** e, int b) { return sx_strtol(s, e, b); }
int sx_atoi(const char* s) { return sx_strtol(s, nullptr, 10); }
double sx_strtod(const char* s, char** e) {
  const char* p = s; bool neg = false;
  if (*p == '-' || *p == '+') neg = *p++ == '-';
  double v = 0; const char* st = p;
  while (*p >= '0' && *p <= '9') v = v * 10 + (*p++ - '0');
  if (*p == '.') { p++; double f = 1; while (*p >= '0' && *p <= '9') { f *= 10; v = v * 10 + (*p++ - '0'); } v /= f; }
  if (p != st && (*p == 'e' || *p == 'E')) {
    char* q; long x = sx_strtol(p + 1, &q, 10);
    if (q != p + 1) { p = q; while (x > 0) { v *= 10; x--; } double g = 1; while (x < 0) { g *= 10; x++; } v /= g; }
  }
  if (e) *e = (char*)(p == st ? s : p);
  return neg ? -v : v;
}
double sx_atof(const char* s) { return sx_strtod(s, nullptr); }
int* sx___errno_location() { return &the_errno; }
double sx_log(double x);
double sx_exp(double x) { return sx_mathd("exp", x, 0); }
double sx_pow(double x, double y) { return sx_mathd("pow", x, y); }
double sx_sqrt(double x) { return sx_mathd("sqrt", x, 0); }
double sx_log2(double x) { return sx_mathd("log2", x, 0); }
double sx_log10(double x) { return sx_mathd("log10", x, 0); }
double sx_log1p(double x) { return sx_mathd("log1p", x, 0); }
double sx_fmod(double x, double y) { return sx_mathd("fmod", x, y); }
}
#endif
