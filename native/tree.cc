// The functions of the standard library's containers that are not in its headers; the tree is kept ordered, not
// balanced, and hash tables have one bucket.
#include <bits/stl_tree.h>
#include <list>
#include <new>
#include <unordered_map>

namespace std
{
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw()
{
    if (x->_M_right)
    {
        x = x->_M_right;
        while (x->_M_left)
            x = x->_M_left;
        return x;
    }
    auto y = x->_M_parent;
    while (x == y->_M_right)
    {
        x = y;
        y = y->_M_parent;
    }
    return x->_M_right != y ? y : x;
}

const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw()
{
    return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x));
}

_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw()
{
    // the header is red and has a red or no root only when it is the end
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x)
        return x->_M_right;
    if (x->_M_left)
    {
        x = x->_M_left;
        while (x->_M_right)
            x = x->_M_right;
        return x;
    }
    auto y = x->_M_parent;
    while (x == y->_M_left)
    {
        x = y;
        y = y->_M_parent;
    }
    return y;
}

const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw()
{
    return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x));
}

void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p,
                                   _Rb_tree_node_base &header) throw()
{
    x->_M_parent = p;
    x->_M_left = x->_M_right = nullptr;
    x->_M_color = _S_black;
    if (left)
    {
        p->_M_left = x; // also the leftmost node when the tree is empty
        if (p == &header)
        {
            header._M_parent = x;
            header._M_right = x;
        }
        else if (p == header._M_left)
            header._M_left = x;
    }
    else
    {
        p->_M_right = x;
        if (p == header._M_right)
            header._M_right = x;
    }
}

_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &header) throw()
{
    auto replace = [&](_Rb_tree_node_base *a, _Rb_tree_node_base *b) {
        if (header._M_parent == a)
            header._M_parent = b;
        else if (a->_M_parent->_M_left == a)
            a->_M_parent->_M_left = b;
        else
            a->_M_parent->_M_right = b;
        if (b)
            b->_M_parent = a->_M_parent;
    };
    if (!z->_M_left)
        replace(z, z->_M_right);
    else if (!z->_M_right)
        replace(z, z->_M_left);
    else
    {
        auto y = z->_M_right;
        while (y->_M_left)
            y = y->_M_left;
        if (y->_M_parent != z)
        {
            replace(y, y->_M_right);
            y->_M_right = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        replace(z, y);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    auto root = header._M_parent;
    header._M_left = header._M_right = root ? root : &header;
    if (root)
    {
        while (header._M_left->_M_left)
            header._M_left = header._M_left->_M_left;
        while (header._M_right->_M_right)
            header._M_right = header._M_right->_M_right;
    }
    return z;
}
} // namespace std

namespace std
{
namespace __detail
{
size_t _Prime_rehash_policy::_M_next_bkt(size_t) const
{
    return 1;
}

pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const
{
    return {false, 0};
}

void _List_node_base::_M_hook(_List_node_base *const next) noexcept
{
    _M_next = next;
    _M_prev = next->_M_prev;
    next->_M_prev->_M_next = this;
    next->_M_prev = this;
}

void _List_node_base::_M_unhook() noexcept
{
    _M_next->_M_prev = _M_prev;
    _M_prev->_M_next = _M_next;
}

void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept
{
    if (this == last)
        return;
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    _M_prev->_M_next = first;
    auto before = _M_prev;
    _M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = before;
}
} // namespace __detail

size_t _Hash_bytes(const void *, size_t, size_t)
{
    return 0;
}
} // namespace std

void *operator new(size_t size, const std::nothrow_t &) noexcept
{
    return operator new(size);
}

void operator delete(void *p, const std::nothrow_t &) noexcept
{
    operator delete(p);
}
