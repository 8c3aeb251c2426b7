#pragma once
#include <simthrift.h>
namespace apache { namespace thrift { namespace util {
template <class E> const char* enumName(E e, const char* d = nullptr) { auto* n = TEnumTraits<E>::findName(e); return n ? n : d; }
template <class E> std::string enumNameSafe(E e) { auto* n = TEnumTraits<E>::findName(e); return n ? std::string(n) : std::to_string(static_cast<int>(e)); }
} } }
