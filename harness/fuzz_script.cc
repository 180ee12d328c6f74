// libFuzzer target: one input is "<script>\n%%%%\n<model m.stl>\n%%%%\n<model n.stl>".
// The models are written to the current (scratch) directory, which is the load
// path, and the script goes through the same entry point main() uses.
#include <cstdint>
#include <fstream>
#include <sstream>
#include <string>

#include "stl-to-ps/stl-to-ps.h"

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  std::string all(reinterpret_cast<const char*>(data), size), part[3];
  const std::string sep = "\n%%%%\n";
  size_t at = 0;
  for (int i = 0; i < 3 && at <= all.size(); i++) {
    size_t e = i < 2 ? all.find(sep, at) : std::string::npos;
    if (e == std::string::npos) {
      part[i] = all.substr(at);
      break;
    }
    part[i] = all.substr(at, e - at);
    at = e + sep.size();
  }
  // Hang-proofing, not a filter on content: the line-hiding pass is quadratic.
  if (part[1].size() > 20000 || part[2].size() > 20000) return -1;
  // A model name must not lead outside of the scratch directory.
  if (part[0].find('/') != std::string::npos) return -1;
  // A field width of millions is honoured, as asked; that only costs time.
  int digits = 0;
  for (char c : part[0]) {
    if (c == '%') digits = 1;
    else if (digits && c >= '0' && c <= '9') { if (++digits > 5) return -1; }
    else if (digits && c != '.' && c != '-' && c != '+' && c != ' ' && c != '#' && c != '$') digits = 0;
    else if (digits && c == '.') digits = 1;
  }
  for (int i = 1; i < 3; i++)
    std::ofstream(i == 1 ? "m.stl" : "n.stl", std::ios::trunc) << part[i];
  std::istringstream in(part[0]);
  std::ostringstream out;
  stl2ps::ScriptToPS("fuzz.script", in, out);
  return 0;
}
