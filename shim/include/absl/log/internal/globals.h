#pragma once
namespace absl::log_internal { bool IsInitialized(); }
