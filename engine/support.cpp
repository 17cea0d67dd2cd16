// Definitions of the few libstdc++ entities that live in the shared library.
// They are compiled to bitcode and executed symbolically with the rest.
#include <list>
#include <map>
#include <memory>
#include <new>
#include <string>
#include <unordered_map>

template class std::basic_string<char>;

namespace std {
  const nothrow_t nothrow = nothrow_t();

  // red-black tree: an unbalanced binary search tree with the same interface
  // (the header stays red, every other node is black)
  _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) {
      x = x->_M_right;
      while (x->_M_left) x = x->_M_left;
      return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) {
      x = y;
      y = y->_M_parent;
    }
    if (x->_M_right != y) x = y;
    return x;
  }
  const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
  _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) {
      x = x->_M_left;
      while (x->_M_right) x = x->_M_right;
      return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) {
      x = y;
      y = y->_M_parent;
    }
    return y;
  }
  const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
  void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p;
    x->_M_left = x->_M_right = 0;
    x->_M_color = _S_black;
    if (left) {
      p->_M_left = x;
      if (p == &h) {
        h._M_parent = x;
        h._M_right = x;
      } else if (p == h._M_left)
        h._M_left = x;
    } else {
      p->_M_right = x;
      if (p == h._M_right) h._M_right = x;
    }
  }
  static void replaceChild(_Rb_tree_node_base* u, _Rb_tree_node_base* v, _Rb_tree_node_base& h) {
    if (h._M_parent == u) h._M_parent = v;
    else if (u == u->_M_parent->_M_left) u->_M_parent->_M_left = v;
    else u->_M_parent->_M_right = v;
    if (v) v->_M_parent = u->_M_parent;
  }
  _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    _Rb_tree_node_base* next = h._M_left == z ? _Rb_tree_increment(z) : 0;
    _Rb_tree_node_base* prev = h._M_right == z ? _Rb_tree_decrement(z) : 0;
    if (!z->_M_left) replaceChild(z, z->_M_right, h);
    else if (!z->_M_right) replaceChild(z, z->_M_left, h);
    else {
      _Rb_tree_node_base* y = z->_M_right;
      while (y->_M_left) y = y->_M_left;
      if (y->_M_parent != z) {
        replaceChild(y, y->_M_right, h);
        y->_M_right = z->_M_right;
        y->_M_right->_M_parent = y;
      }
      replaceChild(z, y, h);
      y->_M_left = z->_M_left;
      y->_M_left->_M_parent = y;
      y->_M_color = _S_black;
    }
    if (next) h._M_left = next;
    if (prev) h._M_right = prev;
    if (!h._M_parent) h._M_left = h._M_right = &h;
    return z;
  }
  namespace __detail {
    std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const {
      static const std::size_t pr[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031};
      for (std::size_t p : pr)
        if (p >= n) {
          _M_next_resize = p;
          return p;
        }
      _M_next_resize = n | 1;
      return n | 1;
    }
    std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ni) const {
      if (ne + ni > _M_next_resize) {
        std::size_t mn = ne + ni;
        if (!_M_next_resize && mn < 11) mn = 11;
        if (mn >= nb) return std::make_pair(true, _M_next_bkt(mn + 1 > nb * 2 ? mn + 1 : nb * 2));
        _M_next_resize = nb;
        return std::make_pair(false, std::size_t(0));
      }
      return std::make_pair(false, std::size_t(0));
    }
    void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
      _M_next = p;
      _M_prev = p->_M_prev;
      p->_M_prev->_M_next = this;
      p->_M_prev = this;
    }
    void _List_node_base::_M_unhook() noexcept {
      _List_node_base* n = _M_next;
      _List_node_base* p = _M_prev;
      p->_M_next = n;
      n->_M_prev = p;
    }
    void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
      if (this != last) {
        last->_M_prev->_M_next = this;
        first->_M_prev->_M_next = last;
        this->_M_prev->_M_next = first;
        _List_node_base* const tmp = this->_M_prev;
        this->_M_prev = last->_M_prev;
        last->_M_prev = first->_M_prev;
        first->_M_prev = tmp;
      }
    }
  }
  size_t _Hash_bytes(const void* ptr, size_t len, size_t seed) {
    const unsigned char* p = (const unsigned char*)ptr;
    size_t h = seed;
    for (size_t i = 0; i < len; ++i) h = h * 31 + p[i];
    return h;
  }
}
template class std::allocator<char>;
