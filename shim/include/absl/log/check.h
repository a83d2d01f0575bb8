// Stand-in for a header of Abseil >= 20230125 (absent here).
#pragma once
#include "absl/log/internal/shim_message.h"
// The DCHECKs are on in the monitored builds unless PRINCIPIA_VERIF_NO_DCHECK
// is defined.
#define ABSL_SHIM_CHECK_IMPL(condition, text)                               \
  ABSL_PREDICT_TRUE(condition)                                              \
      ? (void)0                                                             \
      : ::absl::shim::Voidify() &&                                          \
            ::absl::shim::FatalMessage(__FILE__, __LINE__, text).stream()
#define ABSL_SHIM_CHECK_OP(name, op, v1, v2)                                \
  while (auto absl_shim_result = ::absl::shim::Check##name(                 \
             (v1), (v2), #v1 " " #op " " #v2))                              \
  ::absl::shim::FatalMessage(__FILE__, __LINE__,                            \
                             std::move(absl_shim_result)).stream()
#define CHECK(condition) ABSL_SHIM_CHECK_IMPL((condition), #condition)
#define QCHECK(condition) CHECK(condition)
#define CHECK_EQ(a, b) ABSL_SHIM_CHECK_OP(EQ, ==, a, b)
#define CHECK_NE(a, b) ABSL_SHIM_CHECK_OP(NE, !=, a, b)
#define CHECK_LE(a, b) ABSL_SHIM_CHECK_OP(LE, <=, a, b)
#define CHECK_LT(a, b) ABSL_SHIM_CHECK_OP(LT, <, a, b)
#define CHECK_GE(a, b) ABSL_SHIM_CHECK_OP(GE, >=, a, b)
#define CHECK_GT(a, b) ABSL_SHIM_CHECK_OP(GT, >, a, b)
#define CHECK_OK(s)                                                         \
  while (auto absl_shim_result = ::absl::shim::CheckOk((s), #s))            \
  ::absl::shim::FatalMessage(__FILE__, __LINE__,                            \
                             std::move(absl_shim_result)).stream()
#if defined(PRINCIPIA_VERIF_NO_DCHECK)
#define ABSL_SHIM_DCHECK_NOP(x)                                             \
  while (false && (static_cast<void>(x), false)) ::absl::shim::NullStream()
#define ABSL_SHIM_DCHECK_NOP2(a, b)                                         \
  while (false && (static_cast<void>(a), static_cast<void>(b), false))      \
  ::absl::shim::NullStream()
#define DCHECK(c) ABSL_SHIM_DCHECK_NOP(c)
#define DCHECK_EQ(a, b) ABSL_SHIM_DCHECK_NOP2(a, b)
#define DCHECK_NE(a, b) ABSL_SHIM_DCHECK_NOP2(a, b)
#define DCHECK_LE(a, b) ABSL_SHIM_DCHECK_NOP2(a, b)
#define DCHECK_LT(a, b) ABSL_SHIM_DCHECK_NOP2(a, b)
#define DCHECK_GE(a, b) ABSL_SHIM_DCHECK_NOP2(a, b)
#define DCHECK_GT(a, b) ABSL_SHIM_DCHECK_NOP2(a, b)
#define DCHECK_OK(s) ABSL_SHIM_DCHECK_NOP(s)
#else
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#define DCHECK_OK(s) CHECK_OK(s)
#endif
