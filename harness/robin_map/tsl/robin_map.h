/*
 * drjit-core uses its own fork of tsl::robin_map (submodule ext/robin_map, absent
 * here). This wrapper adds the two members of that fork that drjit-core calls
 * to the stock robin_map 1.2.1 from the distribution.
 */
#pragma once
#define robin_map robin_map_stock
#include_next <tsl/robin_map.h>
#undef robin_map
#include <cstdlib>
#include <cstdio>

namespace tsl {
template <class Key, class T, class Hash = std::hash<Key>,
          class KeyEqual = std::equal_to<Key>,
          class Allocator = std::allocator<std::pair<Key, T>>,
          bool StoreHash = false,
          class GrowthPolicy = tsl::rh::power_of_two_growth_policy<2>>
class robin_map : public robin_map_stock<Key, T, Hash, KeyEqual, Allocator, StoreHash, GrowthPolicy> {
    using Base = robin_map_stock<Key, T, Hash, KeyEqual, Allocator, StoreHash, GrowthPolicy>;
public:
    using Base::Base;
    using typename Base::iterator;
    using typename Base::const_iterator;
    void swap(robin_map &other) { Base::swap(other); }
    void erase_fast(iterator it) { Base::erase(it); }
    template <class... Args>
    std::pair<iterator, bool> try_emplace_hash(std::size_t hash, const Key &k, Args &&...args) {
        if (hash != Base::hash_function()(k)) {
            fprintf(stderr, "robin_map: inconsistent precomputed hash!\n");
            abort();
        }
        return Base::try_emplace(k, std::forward<Args>(args)...);
    }
};
} // namespace tsl
