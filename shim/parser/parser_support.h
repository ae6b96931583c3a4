// Stand-in for @bazel_rules//parser:parser_support.  It reports through the
// repository's own stl2ps::error (stl-to-ps/parser_support.{h,cc}), of which
// the bazel_rules version is the moved copy.
#ifndef VERIF_SHIM_PARSER_PARSER_SUPPORT_H_
#define VERIF_SHIM_PARSER_PARSER_SUPPORT_H_
#include <string>
#include "stl-to-ps/parser_support.h"
namespace parser_support {
struct ScannerExtra {
  const std::string* filename = nullptr;
  int error_count = 0;
};
template <class L>
void Error(const L& loc, const std::string& msg, ScannerExtra* extra) {
  if (extra) extra->error_count++;
  stl2ps::error(loc.begin.filename, loc.begin.line, loc.begin.column,
                loc.end.line, loc.end.column, msg);
}
}  // namespace parser_support
#endif
