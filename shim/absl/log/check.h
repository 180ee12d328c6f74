// Stand-in for absl/log/check.h; see log.h.
#ifndef VERIF_SHIM_ABSL_LOG_CHECK_H_
#define VERIF_SHIM_ABSL_LOG_CHECK_H_
#include "absl/log/log.h"

#define CHECK(cond)                                                        \
  switch (0) case 0: default: __builtin_expect(!!(cond), 1) ? (void)0 : ::verif_log::Voidify() &&     \
      ::verif_log::FatalMessage(__FILE__, __LINE__, "Check failed: " #cond " ")
#define QCHECK(cond) CHECK(cond)
#define PCHECK(cond) CHECK(cond)
#define VERIF_CHECK_OP(NAME, OP, a, b)                                     \
  while (auto verif_r = ::verif_log::Check##NAME((a), (b), #a " " #OP " " #b)) \
  ::verif_log::FatalMessage(__FILE__, __LINE__, *verif_r)
#define CHECK_EQ(a, b) VERIF_CHECK_OP(EQ, ==, a, b)
#define CHECK_NE(a, b) VERIF_CHECK_OP(NE, !=, a, b)
#define CHECK_LE(a, b) VERIF_CHECK_OP(LE, <=, a, b)
#define CHECK_LT(a, b) VERIF_CHECK_OP(LT, <, a, b)
#define CHECK_GE(a, b) VERIF_CHECK_OP(GE, >=, a, b)
#define CHECK_GT(a, b) VERIF_CHECK_OP(GT, >, a, b)
#define QCHECK_EQ CHECK_EQ
#define QCHECK_NE CHECK_NE
#define QCHECK_LE CHECK_LE
#define QCHECK_LT CHECK_LT
#define QCHECK_GE CHECK_GE
#define QCHECK_GT CHECK_GT
#define CHECK_STREQ(a, b) CHECK_EQ(absl::string_view(a), absl::string_view(b))
#define CHECK_STRNE(a, b) CHECK_NE(absl::string_view(a), absl::string_view(b))
#define CHECK_OK(x) CHECK((x).ok())
#define QCHECK_OK(x) CHECK((x).ok())
#ifdef NDEBUG
#define DCHECK(c) while (false) CHECK(c)
#define DCHECK_EQ(a, b) while (false) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) while (false) CHECK_NE(a, b)
#define DCHECK_LE(a, b) while (false) CHECK_LE(a, b)
#define DCHECK_LT(a, b) while (false) CHECK_LT(a, b)
#define DCHECK_GE(a, b) while (false) CHECK_GE(a, b)
#define DCHECK_GT(a, b) while (false) CHECK_GT(a, b)
#else
#define DCHECK CHECK
#define DCHECK_EQ CHECK_EQ
#define DCHECK_NE CHECK_NE
#define DCHECK_LE CHECK_LE
#define DCHECK_LT CHECK_LT
#define DCHECK_GE CHECK_GE
#define DCHECK_GT CHECK_GT
#endif
#endif
