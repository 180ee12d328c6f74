#ifndef VERIF_SHIM_RE2_RE2_H_
#define VERIF_SHIM_RE2_RE2_H_
// Declarations for the installed libre2.so.10 (RE2 20230301), whose headers are
// not installed: the real regular-expression engine runs.  Only out-of-line
// members are used; the object itself is opaque storage larger than the real
// one.
#include <cstdint>
#include <string>
#include <type_traits>
#include "re2/stringpiece.h"

namespace re2 {
namespace re2_internal {
template <typename T> bool Parse(const char* str, size_t n, T* dest);
template <typename T> bool Parse(const char* str, size_t n, T* dest, int radix);
template <> bool Parse(const char*, size_t, void*);
template <> bool Parse(const char*, size_t, std::string*);
template <> bool Parse(const char*, size_t, StringPiece*);
template <> bool Parse(const char*, size_t, char*);
template <> bool Parse(const char*, size_t, signed char*);
template <> bool Parse(const char*, size_t, unsigned char*);
template <> bool Parse(const char*, size_t, float*);
template <> bool Parse(const char*, size_t, double*);
template <> bool Parse(const char*, size_t, long*, int);
template <> bool Parse(const char*, size_t, unsigned long*, int);
template <> bool Parse(const char*, size_t, short*, int);
template <> bool Parse(const char*, size_t, unsigned short*, int);
template <> bool Parse(const char*, size_t, int*, int);
template <> bool Parse(const char*, size_t, unsigned int*, int);
template <> bool Parse(const char*, size_t, long long*, int);
template <> bool Parse(const char*, size_t, unsigned long long*, int);
inline bool ParseView(const char* s, size_t n, std::string_view* d) {
  if (d) *d = std::string_view(s, n);
  return true;
}
}  // namespace re2_internal

class RE2 {
 public:
  class Arg;
  class Options;
  enum Anchor { UNANCHORED, ANCHOR_START, ANCHOR_BOTH };
  RE2(const char* pattern);
  RE2(const std::string& pattern);
  RE2(const StringPiece& pattern);
  ~RE2();
  RE2(const RE2&) = delete;
  RE2& operator=(const RE2&) = delete;

  static bool FullMatchN(const StringPiece& text, const RE2& re, const Arg* const args[], int n);
  static bool PartialMatchN(const StringPiece& text, const RE2& re, const Arg* const args[], int n);
  static bool ConsumeN(StringPiece* input, const RE2& re, const Arg* const args[], int n);
  static bool FindAndConsumeN(StringPiece* input, const RE2& re, const Arg* const args[], int n);
  static bool Replace(std::string* str, const RE2& re, const StringPiece& rewrite);
  static int GlobalReplace(std::string* str, const RE2& re, const StringPiece& rewrite);
  static bool Extract(const StringPiece& text, const RE2& re, const StringPiece& rewrite, std::string* out);
  static std::string QuoteMeta(const StringPiece& unquoted);

  template <typename... A> static bool FullMatch(const StringPiece& t, const RE2& re, A&&... a);
  template <typename... A> static bool PartialMatch(const StringPiece& t, const RE2& re, A&&... a);
  template <typename... A> static bool Consume(StringPiece* t, const RE2& re, A&&... a);
  template <typename... A> static bool FindAndConsume(StringPiece* t, const RE2& re, A&&... a);

 private:
  template <typename F, typename SP, typename... A>
  static bool Apply(F f, SP sp, const RE2& re, const A&... a);
  alignas(16) char opaque_[2048];
};

class RE2::Arg {
  template <typename T> struct Num : std::integral_constant<bool,
      std::is_integral<T>::value && !std::is_same<T, char>::value &&
      !std::is_same<T, signed char>::value && !std::is_same<T, unsigned char>::value> {};
 public:
  Arg() : Arg(nullptr) {}
  Arg(std::nullptr_t) : arg_(nullptr), parser_(DoNothing) {}
  template <typename T> Arg(T* p) : arg_(p), parser_(Pick<T>(Num<T>())) {}
  using Parser = bool (*)(const char* str, size_t n, void* dest);
 private:
  template <typename T> static Parser Pick(std::true_type) { return DoRadix<T>; }
  template <typename T> static Parser Pick(std::false_type) { return Do<T>; }
  static bool DoNothing(const char*, size_t, void*) { return true; }
  template <typename T> static bool Do(const char* s, size_t n, void* d) {
    if constexpr (std::is_same<T, std::string_view>::value)
      return re2_internal::ParseView(s, n, reinterpret_cast<T*>(d));
    else
      return re2_internal::Parse(s, n, reinterpret_cast<T*>(d));
  }
  template <typename T> static bool DoRadix(const char* s, size_t n, void* d) {
    return re2_internal::Parse(s, n, reinterpret_cast<T*>(d), 10);
  }
  void* arg_;
  Parser parser_;
};

template <typename F, typename SP, typename... A>
bool RE2::Apply(F f, SP sp, const RE2& re, const A&... a) {
  constexpr int n = sizeof...(A);
  if constexpr (n == 0) {
    return f(sp, re, nullptr, 0);
  } else {
    const Arg* const args[] = {&a...};
    return f(sp, re, args, n);
  }
}
template <typename... A> bool RE2::FullMatch(const StringPiece& t, const RE2& re, A&&... a) {
  return Apply<decltype(&FullMatchN), const StringPiece&>(FullMatchN, t, re, Arg(std::forward<A>(a))...);
}
template <typename... A> bool RE2::PartialMatch(const StringPiece& t, const RE2& re, A&&... a) {
  return Apply<decltype(&PartialMatchN), const StringPiece&>(PartialMatchN, t, re, Arg(std::forward<A>(a))...);
}
template <typename... A> bool RE2::Consume(StringPiece* t, const RE2& re, A&&... a) {
  return Apply<decltype(&ConsumeN), StringPiece*>(ConsumeN, t, re, Arg(std::forward<A>(a))...);
}
template <typename... A> bool RE2::FindAndConsume(StringPiece* t, const RE2& re, A&&... a) {
  return Apply<decltype(&FindAndConsumeN), StringPiece*>(FindAndConsumeN, t, re, Arg(std::forward<A>(a))...);
}

// Lazily built, as re2::LazyRE2.
struct LazyRE2 {
  const char* pattern_;
  mutable RE2* ptr_ = nullptr;
  RE2& operator*() const { return *get(); }
  RE2* operator->() const { return get(); }
  RE2* get() const { if (!ptr_) ptr_ = new RE2(pattern_); return ptr_; }
};
}  // namespace re2
using re2::RE2;
using re2::LazyRE2;
#endif
