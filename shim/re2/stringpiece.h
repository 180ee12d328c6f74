#ifndef VERIF_SHIM_RE2_STRINGPIECE_H_
#define VERIF_SHIM_RE2_STRINGPIECE_H_
// Declarations for the installed libre2.so.10 (20230301), whose headers are not
// installed.  StringPiece is {pointer, size}.
#include <cstddef>
#include <cstring>
#include <ostream>
#include <string>
#include <string_view>
#include "absl/strings/string_view.h"
namespace re2 {
class StringPiece {
 public:
  using value_type = char;
  using const_iterator = const char*;
  using iterator = const char*;
  using size_type = size_t;
  static const size_type npos = static_cast<size_type>(-1);
  StringPiece() : data_(nullptr), size_(0) {}
  StringPiece(std::string_view s) : data_(s.data()), size_(s.size()) {}
  StringPiece(const std::string& s) : data_(s.data()), size_(s.size()) {}
  StringPiece(const char* s) : data_(s), size_(s ? std::strlen(s) : 0) {}
  StringPiece(const char* s, size_type n) : data_(s), size_(n) {}
  const char* begin() const { return data_; }
  const char* end() const { return data_ + size_; }
  const char* data() const { return data_; }
  size_type size() const { return size_; }
  size_type length() const { return size_; }
  bool empty() const { return size_ == 0; }
  char operator[](size_type i) const { return data_[i]; }
  void remove_prefix(size_type n) { data_ += n; size_ -= n; }
  void remove_suffix(size_type n) { size_ -= n; }
  operator std::string_view() const { return {data_, size_}; }
  std::string as_string() const { return std::string(data_, size_); }
  explicit operator std::string() const { return std::string(data_, size_); }
 private:
  const char* data_;
  size_type size_;
};
inline bool operator==(const StringPiece& a, const StringPiece& b) {
  return std::string_view(a) == std::string_view(b);
}
inline std::ostream& operator<<(std::ostream& o, const StringPiece& p) {
  return o << std::string_view(p);
}
}  // namespace re2
#endif
