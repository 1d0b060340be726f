#pragma once
#include "flat_hash_map.h"
namespace absl
{
template <class... T> using node_hash_map = flat_hash_map<T...>;
}
