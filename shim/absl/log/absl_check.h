#include "absl/log/check.h"
#define ABSL_CHECK(c) CHECK(c)
#define ABSL_CHECK_EQ(a, b) CHECK((a) == (b))
#define ABSL_CHECK_NE(a, b) CHECK((a) != (b))
