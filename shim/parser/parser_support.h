// Stand-in for @bazel_rules//parser:parser_support, which is not available
// here.  The project's own stl-to-ps/parser_support.{h,cc} is the ancestor of
// that library; its formatter is used to report, as the project did before.
#ifndef VERIF_SHIM_PARSER_SUPPORT_H_
#define VERIF_SHIM_PARSER_SUPPORT_H_
#include <string>
#include "stl-to-ps/parser_support.h"
namespace parser_support {
struct ScannerExtra {
  const std::string* filename = nullptr;
  int error_count = 0;
};
template <class Loc>
void Error(const Loc& loc, const std::string& msg, ScannerExtra* extra) {
  if (extra) extra->error_count++;
  stl2ps::error(loc.begin.filename, loc.begin.line, loc.begin.column,
                loc.end.line, loc.end.column, msg);
}
}  // namespace parser_support
#endif
