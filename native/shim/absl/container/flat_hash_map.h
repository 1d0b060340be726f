// Stand-in for abseil's map: same interface, linear search instead of hashing.
#pragma once
#include <cstddef>
#include <initializer_list>
#include <utility>
#include <vector>
namespace absl
{
template <class K, class V, class... Rest> class flat_hash_map
{
  public:
    using value_type = std::pair<K, V>;
    using key_type = K;
    using mapped_type = V;
    using size_type = size_t;
    using iterator = typename std::vector<value_type>::iterator;
    using const_iterator = typename std::vector<value_type>::const_iterator;
    flat_hash_map() = default;
    explicit flat_hash_map(size_t)
    {
    }
    flat_hash_map(std::initializer_list<value_type> items)
    {
        for (auto &item : items)
            insert(item);
    }
    template <class I> flat_hash_map(I first, I last, size_t = 0)
    {
        for (; first != last; ++first)
            insert(*first);
    }
    iterator begin()
    {
        return m_items.begin();
    }
    iterator end()
    {
        return m_items.end();
    }
    const_iterator begin() const
    {
        return m_items.begin();
    }
    const_iterator end() const
    {
        return m_items.end();
    }
    iterator find(const K &key)
    {
        auto it = m_items.begin();
        while (it != m_items.end() && !(it->first == key))
            ++it;
        return it;
    }
    const_iterator find(const K &key) const
    {
        auto it = m_items.begin();
        while (it != m_items.end() && !(it->first == key))
            ++it;
        return it;
    }
    bool contains(const K &key) const
    {
        return find(key) != end();
    }
    size_t count(const K &key) const
    {
        return contains(key) ? 1 : 0;
    }
    V &operator[](const K &key)
    {
        auto it = find(key);
        if (it != m_items.end())
            return it->second;
        m_items.emplace_back(key, V());
        return m_items.back().second;
    }
    template <class... A> std::pair<iterator, bool> try_emplace(const K &key, A &&...args)
    {
        auto it = find(key);
        if (it != m_items.end())
            return {it, false};
        m_items.emplace_back(key, V(std::forward<A>(args)...));
        return {m_items.end() - 1, true};
    }
    template <class A> std::pair<iterator, bool> emplace(const K &key, A &&value)
    {
        return try_emplace(key, std::forward<A>(value));
    }
    std::pair<iterator, bool> insert(const value_type &item)
    {
        return try_emplace(item.first, item.second);
    }
    template <class P> std::pair<iterator, bool> emplace(P &&item)
    {
        return try_emplace(item.first, std::forward<P>(item).second);
    }
    template <class I> void insert(I first, I last)
    {
        for (; first != last; ++first)
            insert(*first);
    }
    void insert(std::initializer_list<value_type> items)
    {
        insert(items.begin(), items.end());
    }
    std::pair<iterator, bool> insert(value_type &&item)
    {
        return try_emplace(item.first, std::move(item.second));
    }
    template <class A> std::pair<iterator, bool> insert_or_assign(const K &key, A &&value)
    {
        auto r = try_emplace(key, value);
        r.first->second = std::forward<A>(value);
        return r;
    }
    V &at(const K &key)
    {
        return find(key)->second;
    }
    const V &at(const K &key) const
    {
        return find(key)->second;
    }
    void clear()
    {
        m_items.clear();
    }
    void swap(flat_hash_map &other)
    {
        m_items.swap(other.m_items);
    }
    void rehash(size_t)
    {
    }
    const_iterator cbegin() const
    {
        return m_items.begin();
    }
    const_iterator cend() const
    {
        return m_items.end();
    }
    size_t erase(const K &key)
    {
        auto it = find(key);
        if (it == m_items.end())
            return 0;
        m_items.erase(it);
        return 1;
    }
    void erase(iterator it)
    {
        m_items.erase(it);
    }
    void reserve(size_t n)
    {
        m_items.reserve(n);
    }
    size_t size() const
    {
        return m_items.size();
    }
    bool empty() const
    {
        return m_items.empty();
    }

  private:
    std::vector<value_type> m_items;
};
} // namespace absl
