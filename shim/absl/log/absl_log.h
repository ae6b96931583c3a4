#include "absl/log/log.h"
#define ABSL_LOG(sev) LOG(sev)
#define ABSL_LOG_IF(sev, c) LOG_IF(sev, c)
