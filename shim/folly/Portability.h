#pragma once
#include <cstddef>
#include <cstdint>
#define FOLLY_LIKELY(x) __builtin_expect(!!(x), 1)
#define FOLLY_MAYBE_UNUSED [[maybe_unused]]
#define FOLLY_NODISCARD [[nodiscard]]
