#ifndef VERIF_SHIM_ABSL_LOG_GLOBALS_H_
#define VERIF_SHIM_ABSL_LOG_GLOBALS_H_
#include "absl/base/log_severity.h"
namespace absl {
inline void SetMinLogLevel(LogSeverityAtLeast) {}
inline void SetStderrThreshold(LogSeverityAtLeast) {}
inline void SetStderrThreshold(LogSeverity) {}
}
#endif
