// Stands in for common/base/Base.h in the folly-free subset, exactly as the
// baseline build does: its guard is defined up front and this is included.
#include <sys/types.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <thread>
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <regex>
#include <chrono>
#include <limits>
#include <functional>
#include <string>
#include <memory>
#include <sstream>
#include <iostream>
#include <fstream>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <unordered_map>
#include <unordered_set>
#include <queue>
#include <deque>
#include <tuple>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cerrno>
#include <cstring>
#include <ctime>
#include <cassert>
#include <cmath>
#include <gflags/gflags.h>
#include <boost/variant.hpp>
#include <boost/any.hpp>
#include "common/base/Logging.h"
