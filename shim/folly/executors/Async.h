#pragma once
#include <folly/executors/GlobalExecutor.h>
namespace folly { template <class F> auto async(F&& f) { return via(getCPUExecutor().get(), std::forward<F>(f)); } }
