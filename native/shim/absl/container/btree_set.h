#pragma once
#include <set>
namespace absl
{
template <class... T> using btree_set = std::set<T...>;
}
