#pragma once
#include <folly/hash/Hash.h>
