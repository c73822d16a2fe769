// Stand-in for the one third-party header that is not installed here: an open hash map with the
// interface of std::unordered_map, which is all the publisher uses of it.
#pragma once
#include <unordered_map>
namespace ska {
template <typename K, typename V, typename H = std::hash<K>, typename E = std::equal_to<K>>
class flat_hash_map : public std::unordered_map<K, V, H, E> {
 public:
  using std::unordered_map<K, V, H, E>::unordered_map;
};
}  // namespace ska
