// force-included in front of traceAnalyzer: its table of objects, a third-party header that is asked for room for 10^8 objects
// (over 4 GB), is replaced by the standard library's
#pragma once
#ifdef __cplusplus
#define ROBIN_HOOD_H_INCLUDED
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <memory>
#include <string>
#include <utility>
#include <unordered_map>
namespace robin_hood {
template <class K, class V>
struct unordered_flat_map : std::unordered_map<K, V> {
  void reserve(double) {}
};
}  // namespace robin_hood
#endif
