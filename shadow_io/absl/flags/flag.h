// Command line flags for the environment model: the harness sets them by name.
#ifndef VERIF_ABSL_FLAG_H_
#define VERIF_ABSL_FLAG_H_
#include <stdint.h>
#include <string.h>
#include <string>
struct SxFlag {
  const char* name;
  std::string* s = nullptr;
  int* i = nullptr;
  int64_t* l = nullptr;
  bool* b = nullptr;
  uint32_t* u = nullptr;
  uint64_t* ul = nullptr;
  double* d = nullptr;
  SxFlag* next;
};
inline SxFlag*& sx_flags() { static SxFlag* head = nullptr; return head; }
inline SxFlag* sx_flag(const char* name) {
  for (SxFlag* f = sx_flags(); f; f = f->next) if (!strcmp(f->name, name)) return f;
  return nullptr;
}
inline void sx_slot(SxFlag* f, std::string* v) { f->s = v; }
inline void sx_slot(SxFlag* f, int* v) { f->i = v; }
inline void sx_slot(SxFlag* f, long* v) { f->l = (int64_t*)v; }
inline void sx_slot(SxFlag* f, long long* v) { f->l = (int64_t*)v; }
inline void sx_slot(SxFlag* f, bool* v) { f->b = v; }
inline void sx_slot(SxFlag* f, uint32_t* v) { f->u = v; }
inline void sx_slot(SxFlag* f, unsigned long* v) { f->ul = (uint64_t*)v; }
inline void sx_slot(SxFlag* f, double* v) { f->d = v; }
namespace absl {
template <class T> class Flag {
 public:
  Flag(const char* name, T v) : value(v) { f_.name = name; sx_slot(&f_, &value); f_.next = sx_flags(); sx_flags() = &f_; }
  T value;
 private:
  SxFlag f_;
};
template <class T> T GetFlag(const Flag<T>& f) { return f.value; }
template <class T, class V> void SetFlag(Flag<T>* f, const V& v) { f->value = T(v); }
}  // namespace absl
#define ABSL_FLAG(T, name, def, help) absl::Flag<T> FLAGS_##name(#name, T(def))
#define ABSL_DECLARE_FLAG(T, name) extern absl::Flag<T> FLAGS_##name
#endif
