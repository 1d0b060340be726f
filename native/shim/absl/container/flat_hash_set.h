#pragma once
#include <cstddef>
#include <initializer_list>
#include <utility>
#include <vector>
namespace absl
{
template <class K, class... Rest> class flat_hash_set
{
  public:
    using iterator = typename std::vector<K>::const_iterator;
    using const_iterator = iterator;
    using value_type = K;
    using key_type = K;
    using size_type = size_t;
    flat_hash_set() = default;
    explicit flat_hash_set(size_t)
    {
    }
    flat_hash_set(std::initializer_list<K> items)
    {
        for (auto &item : items)
            insert(item);
    }
    template <class I> flat_hash_set(I first, I last, size_t = 0)
    {
        for (; first != last; ++first)
            insert(K(*first));
    }
    iterator begin() const
    {
        return m_items.begin();
    }
    iterator end() const
    {
        return m_items.end();
    }
    iterator find(const K &key) const
    {
        auto it = m_items.begin();
        while (it != m_items.end() && !(*it == key))
            ++it;
        return it;
    }
    bool contains(const K &key) const
    {
        return find(key) != end();
    }
    std::pair<iterator, bool> insert(const K &key)
    {
        auto it = find(key);
        if (it != m_items.end())
            return {it, false};
        m_items.push_back(key);
        return {m_items.end() - 1, true};
    }
    template <class... A> std::pair<iterator, bool> emplace(A &&...args)
    {
        return insert(K(std::forward<A>(args)...));
    }
    size_t count(const K &key) const
    {
        return contains(key) ? 1 : 0;
    }
    template <class I> void insert(I first, I last)
    {
        for (; first != last; ++first)
            insert(K(*first));
    }
    void insert(std::initializer_list<K> items)
    {
        insert(items.begin(), items.end());
    }
    iterator cbegin() const
    {
        return m_items.begin();
    }
    iterator cend() const
    {
        return m_items.end();
    }
    void swap(flat_hash_set &other)
    {
        m_items.swap(other.m_items);
    }
    void erase(iterator it)
    {
        m_items.erase(it);
    }
    void clear()
    {
        m_items.clear();
    }
    size_t erase(const K &key)
    {
        auto it = find(key);
        if (it == m_items.end())
            return 0;
        m_items.erase(it);
        return 1;
    }
    void reserve(size_t n)
    {
        m_items.reserve(n);
    }
    size_t size() const
    {
        return m_items.size();
    }
    bool empty() const
    {
        return m_items.empty();
    }

  private:
    std::vector<K> m_items;
};
} // namespace absl
