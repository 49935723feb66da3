// Bodies of the libstdc++ support functions that are not in headers, so that containers can be executed from IR.
// (std::map trees stay unbalanced: order and contents are what matters.)
#pragma once
#ifndef VF_NATIVE
#include <map>
#include <string>
#include <set>
#include <unordered_map>
#include <unordered_set>
template class std::basic_string<char>;
namespace std {
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  size_t h = seed & 0xffff;
  for (size_t i = 0; i < n; ++i) h = (h * 131 + c[i]) % 1000003;
  return h;
}
namespace __detail {
static const size_t kPrimes[] = {1, 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 37, 53, 97, 193, 389, 769, 1543, 3079};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  for (size_t q : kPrimes) if (q >= n) return q;
  return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > nb) {
    size_t want = ne + ni + 1;
    if (want < 2 * nb) want = 2 * nb;
    return make_pair(true, _M_next_bkt(want));
  }
  return make_pair(false, size_t(0));
}
}  // namespace __detail
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base *next = nullptr, *prev = nullptr;
  if (z == h._M_left) {
    if (z->_M_right) { next = z->_M_right; while (next->_M_left) next = next->_M_left; } else next = z->_M_parent;
  }
  if (z == h._M_right) {
    if (z->_M_left) { prev = z->_M_left; while (prev->_M_right) prev = prev->_M_right; } else prev = z->_M_parent;
  }
  _Rb_tree_node_base* r;
  if (!z->_M_left) r = z->_M_right;
  else if (!z->_M_right) r = z->_M_left;
  else {
    r = z->_M_right;
    while (r->_M_left) r = r->_M_left;
    if (r->_M_parent != z) {
      r->_M_parent->_M_left = r->_M_right;
      if (r->_M_right) r->_M_right->_M_parent = r->_M_parent;
      r->_M_right = z->_M_right;
      r->_M_right->_M_parent = r;
    }
    r->_M_left = z->_M_left;
    r->_M_left->_M_parent = r;
  }
  if (r) r->_M_parent = z->_M_parent;
  if (h._M_parent == z) h._M_parent = r;
  else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = r;
  else z->_M_parent->_M_right = r;
  if (next) h._M_left = next;
  if (prev) h._M_right = prev;
  return z;
}
}  // namespace std
#endif
