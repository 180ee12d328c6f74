// Reads "<has name> <name length> <message length> bl bc el ec\n<name><message>"
// records and reports each through the project's formatter.
#include <cstdio>
#include <string>

#include "stl-to-ps/parser_support.h"

int main() {
  int has, nl, ml, bl, bc, el, ec;
  while (scanf("%d %d %d %d %d %d %d", &has, &nl, &ml, &bl, &bc, &el, &ec) == 7) {
    getchar();
    std::string n(nl, 0), m(ml, 0);
    if (fread(&n[0], 1, nl, stdin) != (size_t)nl) return 3;
    if (fread(&m[0], 1, ml, stdin) != (size_t)ml) return 3;
    stl2ps::error(has ? &n : nullptr, bl, bc, el, ec, m);
    fflush(stderr);
    fprintf(stderr, "\x01\n");
  }
  return 0;
}
