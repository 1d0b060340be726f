#pragma once
#include "flat_hash_set.h"
namespace absl
{
template <class... T> using node_hash_set = flat_hash_set<T...>;
}
