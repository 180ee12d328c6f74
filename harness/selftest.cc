// Commits the error it's asked for.  A sanitizer build that doesn't notice can't
// vouch for anything.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

volatile int zero = 0;
volatile double big = 1e30;

int main(int argc, char** argv) {
  const std::string w = argc > 1 ? argv[1] : "";
  if (w == "overflow") {
    volatile int* p = new int[4];
    int r = p[4 + zero];
    delete[] p;
    return r & 0;
  }
  if (w == "uaf") {
    volatile int* p = new int[4];
    delete[] p;
    return p[1 + zero] & 0;
  }
  if (w == "leak") {
    char* volatile p = new char[100];
    p[0] = 1;
    p = nullptr;
    return 0;
  }
  if (w == "signed") {
    volatile int x = 2147483647;
    x = x + 1 + zero;
    return 0;
  }
  if (w == "cast") {
    volatile int x = static_cast<int>(big);
    return x & 0;
  }
  if (w == "stack") {
    volatile char b[8];
    volatile char* volatile p = b;
    p[8 + zero] = 1;
    return b[0] & 0;
  }
  if (w == "uninit") {
    char* p = static_cast<char*>(malloc(16));
    int r = 0;
    if (p[3 + zero]) r = 1;
    fprintf(stderr, "%d\n", r);
    free(p);
    return 0;
  }
  return 0;
}
