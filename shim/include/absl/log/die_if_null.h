#pragma once
#include "absl/log/internal/shim_message.h"
#define ABSL_DIE_IF_NULL(val) \
  ::absl::shim::DieIfNull(__FILE__, __LINE__, #val, (val))
