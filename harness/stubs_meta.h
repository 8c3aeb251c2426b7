// What MetaClient links against and these checks have no use for.
#pragma once
#include "common/base/Base.h"
#include "common/expression/Expression.h"
namespace nebula {
std::string gitInfoSha() { return "sha"; }
std::string simpleVersionString() { return "v"; }
std::string versionString() { return "version"; }
#ifndef HARNESS_REAL_EXPRESSIONS
Expression* Expression::decode(ObjectPool*, folly::StringPiece) { return nullptr; }
#endif
}  // namespace nebula
