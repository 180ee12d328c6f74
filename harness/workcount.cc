// Runtime for the "count" build: how much work (edges of the program's control
// flow) a run did and its peak memory in kB.  Written to the file named by VT_COUNT when the run ends.
#include <cstdint>
#include <cstdio>
#include <cstdlib>

static uint64_t g_work;
extern "C" void __sanitizer_cov_trace_pc() { g_work++; }
extern "C" void __sanitizer_cov_trace_pc_indir(uintptr_t) {}

namespace {
struct AtEnd {
  ~AtEnd() {
    if (const char* p = getenv("VT_COUNT")) {
      unsigned long long work = g_work, peak = 0;
      if (FILE* f = fopen("/proc/self/status", "r")) {
        char line[256];
        while (fgets(line, sizeof line, f)) sscanf(line, "VmHWM: %llu", &peak);
        fclose(f);
      }
      if (FILE* f = fopen(p, "w")) {
        fprintf(f, "%llu %llu\n", work, peak);
        fclose(f);
      }
    }
  }
} at_end;
}  // namespace
