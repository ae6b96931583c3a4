#ifndef VERIF_SHIM_ABSL_LOG_CHECK_H_
#define VERIF_SHIM_ABSL_LOG_CHECK_H_
#include "absl/log/log.h"
#define CHECK(c) \
  (c) ? (void)0 : ::verif_shim::Voidify() && LOG(FATAL) << "Check failed: " #c " "
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK((a) == (b))
#define DCHECK_NE(a, b) CHECK((a) != (b))
#define DCHECK_LT(a, b) CHECK((a) < (b))
#define DCHECK_LE(a, b) CHECK((a) <= (b))
#define DCHECK_GT(a, b) CHECK((a) > (b))
#define DCHECK_GE(a, b) CHECK((a) >= (b))
#define QCHECK(c) CHECK(c)
#define QCHECK_EQ(a, b) CHECK((a) == (b))
#define QCHECK_NE(a, b) CHECK((a) != (b))
#define QCHECK_LT(a, b) CHECK((a) < (b))
#define QCHECK_LE(a, b) CHECK((a) <= (b))
#define QCHECK_GT(a, b) CHECK((a) > (b))
#define QCHECK_GE(a, b) CHECK((a) >= (b))
#define PCHECK(c) CHECK(c)
#define CHECK_OK(s) CHECK((s).ok())
#define CHECK_STREQ(a, b) CHECK(std::strcmp((a), (b)) == 0)
#define CHECK_STRNE(a, b) CHECK(std::strcmp((a), (b)) != 0)
#endif
