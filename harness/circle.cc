// Reads point sets (n, then n pairs of hex floats), one per line; answers
// "1 x y r" or "0 x y r" for each, in hex floats, from the project's FindCircle.
#include <cstdio>
#include <cstdlib>
#include <vector>

#include "stl-to-ps/center.h"

int main() {
  int n;
  while (scanf("%d", &n) == 1) {
    std::vector<Eigen::RowVector2d> ps;
    for (int i = 0; i < n; i++) {
      char a[64], b[64];
      if (scanf("%63s %63s", a, b) != 2) return 3;
      ps.push_back(Eigen::RowVector2d{strtod(a, nullptr), strtod(b, nullptr)});
    }
    Eigen::RowVector2d c{0, 0};
    double r = 0;
    bool ok = stl2ps::FindCircle(ps, &c, &r);
    printf("%d %a %a %a\n", ok ? 1 : 0, c.x(), c.y(), r);
  }
  return 0;
}
