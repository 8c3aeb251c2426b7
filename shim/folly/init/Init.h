#pragma once
#include <gflags/gflags.h>
namespace folly { inline void init(int*, char***, bool = true) {} }
