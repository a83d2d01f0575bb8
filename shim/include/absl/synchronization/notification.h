#pragma once
#if !defined(PRINCIPIA_VERIF_MUTEX)
#include_next "absl/synchronization/notification.h"
#else
#include "absl/synchronization/mutex.h"
#endif
