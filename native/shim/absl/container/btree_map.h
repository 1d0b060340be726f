#pragma once
#include <map>
namespace absl
{
template <class... T> using btree_map = std::map<T...>;
}
