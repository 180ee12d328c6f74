// Stand-in for absl/log (Abseil >= 20230125), which this sandbox does not have
// (its libabsl is 20220623).  Same observable contract as the real library in
// its default configuration: ERROR and FATAL go to stderr, INFO and WARNING do
// not (after InitializeLog), operands are always evaluated, FATAL and a failed
// CHECK print to stderr and abort().
#ifndef VERIF_SHIM_ABSL_LOG_LOG_H_
#define VERIF_SHIM_ABSL_LOG_LOG_H_

#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iomanip>
#include <iostream>
#include <memory>
#include <ostream>
#include <sstream>
#include <string>
#include <type_traits>

#include "absl/base/attributes.h"
#include "absl/base/config.h"
#include "absl/base/log_severity.h"
#include "absl/strings/string_view.h"

namespace verif_log {

class Message {
 public:
  Message(const char* file, int line, int sev, bool perr = false)
      : file_(file), line_(line), sev_(sev), perr_(perr), errno_(errno) {}
  Message(const Message&) = delete;
  ~Message() { Flush(); if (sev_ >= 3) std::abort(); }
  std::ostream& stream() { return os_; }
  Message& WithVerbosity(int) { return *this; }
  Message& WithPerror() { perr_ = true; return *this; }
  Message& InternalStream() { return *this; }
  Message& NoPrefix() { return *this; }
  Message& AtLocation(absl::string_view, int) { return *this; }
  template <class T> Message& operator<<(const T& t) { os_ << t; return *this; }
  template <size_t N> Message& operator<<(const char (&t)[N]) { os_ << t; return *this; }
  Message& operator<<(std::ostream& (*m)(std::ostream&)) { os_ << m; return *this; }
  Message& operator<<(std::ios_base& (*m)(std::ios_base&)) { os_ << m; return *this; }

 protected:
  void Flush() {
    if (done_) return;
    done_ = true;
    if (perr_) os_ << ": " << std::strerror(errno_) << " [" << errno_ << "]";
    if (sev_ >= 2) {
      const char* base = std::strrchr(file_, '/');
      std::string s = os_.str();
      std::fflush(stdout);
      std::fprintf(stderr, "%c0000 00:00:00.000000       0 %s:%d] %s\n",
                   sev_ >= 3 ? 'F' : 'E', base ? base + 1 : file_, line_,
                   s.c_str());
      std::fflush(stderr);
    }
  }
  const char* file_;
  int line_, sev_;
  bool perr_;
  int errno_;
  bool done_ = false;
  std::ostringstream os_;
};

class FatalMessage : public Message {
 public:
  FatalMessage(const char* file, int line, const std::string& pre = "")
      : Message(file, line, 3) { os_ << pre; }
  [[noreturn]] ~FatalMessage() { Flush(); std::abort(); }
};

struct Voidify {
  template <class T> void operator&&(T&&) const& {}
};

inline std::ostream& Null() { static std::ostream o(nullptr); return o; }

template <class T, class = void> struct Streamable : std::false_type {};
template <class T>
struct Streamable<T, decltype(void(std::declval<std::ostream&>() << std::declval<const T&>()))>
    : std::true_type {};
template <class T>
typename std::enable_if<Streamable<T>::value>::type Print(std::ostream& o, const T& t) { o << t; }
template <class T>
typename std::enable_if<!Streamable<T>::value>::type Print(std::ostream& o, const T&) { o << "(unprintable)"; }
inline void Print(std::ostream& o, std::nullptr_t) { o << "nullptr"; }

#define VERIF_LOG_OP(NAME, OP)                                               \
  template <class A, class B>                                                \
  std::unique_ptr<std::string> Check##NAME(const A& a, const B& b,           \
                                           const char* txt) {                \
    if (a OP b) return nullptr;                                              \
    std::ostringstream o;                                                    \
    o << "Check failed: " << txt << " (";                                    \
    Print(o, a); o << " vs. "; Print(o, b); o << ") ";                       \
    return std::unique_ptr<std::string>(new std::string(o.str()));           \
  }
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wsign-compare"
VERIF_LOG_OP(EQ, ==)
VERIF_LOG_OP(NE, !=)
VERIF_LOG_OP(LE, <=)
VERIF_LOG_OP(LT, <)
VERIF_LOG_OP(GE, >=)
VERIF_LOG_OP(GT, >)
#pragma GCC diagnostic pop
#undef VERIF_LOG_OP
}  // namespace verif_log

#define VERIF_LOG_INFO ::verif_log::Message(__FILE__, __LINE__, 0)
#define VERIF_LOG_WARNING ::verif_log::Message(__FILE__, __LINE__, 1)
#define VERIF_LOG_ERROR ::verif_log::Message(__FILE__, __LINE__, 2)
#define VERIF_LOG_FATAL ::verif_log::FatalMessage(__FILE__, __LINE__)
#define VERIF_LOG_QFATAL ::verif_log::FatalMessage(__FILE__, __LINE__)
#ifdef NDEBUG
#define VERIF_LOG_DFATAL ::verif_log::Message(__FILE__, __LINE__, 2)
#else
#define VERIF_LOG_DFATAL ::verif_log::FatalMessage(__FILE__, __LINE__)
#endif
#define VERIF_LOG_LEVEL(x) ::verif_log::Message(__FILE__, __LINE__, static_cast<int>(x))

#define VERIF_LOG_COND(sev, cond) \
  switch (0) case 0: default: !(cond) ? (void)0 : ::verif_log::Voidify() && VERIF_LOG_##sev

#define LOG(sev) VERIF_LOG_##sev
#define PLOG(sev) VERIF_LOG_##sev.WithPerror()
#define LOG_IF(sev, cond) VERIF_LOG_COND(sev, cond)
#define PLOG_IF(sev, cond) VERIF_LOG_COND(sev, cond)
#ifdef NDEBUG
#define DLOG(sev) VERIF_LOG_COND(sev, false)
#define DLOG_IF(sev, cond) VERIF_LOG_COND(sev, false && (cond))
#else
#define DLOG(sev) LOG(sev)
#define DLOG_IF(sev, cond) LOG_IF(sev, cond)
#endif
#define VLOG_IS_ON(n) ((n) <= 0)
#define VLOG(n) VERIF_LOG_COND(INFO, VLOG_IS_ON(n))
#define DVLOG(n) VERIF_LOG_COND(INFO, VLOG_IS_ON(n))
#define VERIF_LOG_COUNT(expr) \
  ([&]() -> bool { static std::atomic<int> c{0}; int n = c++; (void)n; return (expr); }())
#define LOG_FIRST_N(sev, N) VERIF_LOG_COND(sev, VERIF_LOG_COUNT(n < (N)))
#define LOG_EVERY_N(sev, N) VERIF_LOG_COND(sev, VERIF_LOG_COUNT(n % (N) == 0))
#define LOG_EVERY_POW_2(sev) VERIF_LOG_COND(sev, VERIF_LOG_COUNT(((n + 1) & n) == 0))
#define LOG_EVERY_N_SEC(sev, N) LOG(sev)

#endif  // VERIF_SHIM_ABSL_LOG_LOG_H_
