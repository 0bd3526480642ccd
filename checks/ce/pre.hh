#include <vector>
#include <set>
#include <map>
#include <tuple>
#include <array>
#include <iostream>
#include <sstream>
#include <algorithm>
#include <functional>
#include <thread>
#include <cassert>
#include <queue>
#include <cstdio>
#include <cmath>
#include <numeric>
#include <iterator>
#include <limits>
#include <ftk/external/diy/serialization.hpp>
/* a set the constant evaluator can use: sorted unique vector */
namespace std {
template <typename T> struct fxset {
  vector<T> v;
  typedef typename vector<T>::iterator iterator;
  constexpr fxset() {}
  template <typename It> constexpr fxset(It a, It b) { for (; a != b; ++a) insert(*a); }
  constexpr auto find(const T& x) const { for (auto it = v.begin(); it != v.end(); ++it) if (!(*it < x) && !(x < *it)) return it; return v.end(); }
  constexpr size_t count(const T& x) const { return find(x) != v.end(); }
  constexpr void insert(const T& x) { auto it = v.begin(); while (it != v.end() && *it < x) ++it; if (it != v.end() && !(x < *it)) return; v.insert(it, x); }
  template <typename... A> constexpr void emplace(A&&... a) { insert(T(a...)); }
  constexpr auto begin() const {return v.begin();}
  constexpr auto end() const {return v.end();}
  constexpr size_t size() const {return v.size();}
  constexpr bool empty() const {return v.empty();}
};
}
#define set fxset
#define private public
#include <ftk/mesh/lattice.hh>
#include <ftk/mesh/simplicial_regular_mesh.hh>
#undef set
#undef private
using M = ftk::simplicial_regular_mesh;
using E = ftk::simplicial_regular_mesh_element;
typedef std::vector<int> V;
typedef std::vector<V> VV;
constexpr VV sorted(VV a) { std::sort(a.begin(), a.end()); return a; }
constexpr bool subset(const VV& a, const VV& b) { for (auto& x : a) { bool f = false; for (auto& y : b) if (x == y) f = true; if (!f) return false; } return true; }
constexpr bool distinct(const VV& a) { for (size_t i = 0; i < a.size(); i ++) for (size_t j = 0; j < i; j ++) if (a[i] == a[j]) return false; return true; }
constexpr int det(VV m) { int n = m.size(); if (n == 1) return m[0][0]; int r = 0; for (int c = 0; c < n; c ++) { VV s; for (int i = 1; i < n; i ++) { V row; for (int j = 0; j < n; j ++) if (j != c) row.push_back(m[i][j]); s.push_back(row); } r += (c % 2 ? -1 : 1) * m[0][c] * det(s); } return r; }
/* orientation of the simplex whose vertex p is listed after the others */
constexpr int orient(const VV& facet, const V& p) { int n = p.size(); VV m; for (int i = 1; i <= n; i ++) { V r; for (int j = 0; j < n; j ++) r.push_back((i < n ? facet[i][j] : p[j]) - facet[0][j]); m.push_back(r); } return det(m); }
constexpr V opposite(const VV& cell, const VV& facet) { for (auto& x : cell) { bool f = false; for (auto& y : facet) if (x == y) f = true; if (!f) return x; } return V(); }
enum { COUNT = 1, SHAPE = 2, CANON = 4, VOLUME = 8, SIDES = 16, SIDEOF = 32, FACET = 64, ORDINAL = 128, VERTICES = 256, LOOKUP = 512 };
constexpr V some_corner(int n) { V c; for (int i = 0; i < n; i ++) c.push_back(i % 2 ? 7 - i : 3 + i); return c; }
constexpr int fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }
/* the k-simplex types themselves */
constexpr unsigned shapes(const M& m, int n, int k) {
  unsigned r = 0;
  const auto& U = m.unit_simplices[k];
  for (size_t t = 0; t < U.size(); t ++) {
    if (U[t].size() != (size_t)k + 1 || !distinct(U[t])) { r |= SHAPE; continue; }
    for (auto& v : U[t]) { if (v.size() != (size_t)n) r |= SHAPE; for (int x : v) if (x != 0 && x != 1) r |= SHAPE; }
    for (int j = 0; j < n; j ++) { bool z = false; for (auto& v : U[t]) if (v[j] == 0) z = true; if (!z) r |= CANON; }
    for (size_t s = 0; s < t; s ++) if (sorted(U[s]) == sorted(U[t])) r |= CANON;
    if (k == n) { VV d; for (int i = 1; i <= n; i ++) { V q; for (int j = 0; j < n; j ++) q.push_back(U[t][i][j] - U[t][0][j]); d.push_back(q); } int e = det(d); if (e != 1 && e != -1) r |= VOLUME; }
  }
  if (k == n && (int)U.size() != fact(n)) r |= COUNT;
  if (k == 0 && U.size() != 1) r |= COUNT;
  return r;
}
constexpr E elem(const V& c, int k, int t) { return E(c, k, t); }
/* boundary relation of one type, through the element interface, at a corner away from the origin */
constexpr unsigned boundary(const M& m, int n, int k, int t) {
  unsigned r = 0;
  E e = elem(some_corner(n), k, t);
  VV ev = e.vertices(m);
  if (ev.size() != (size_t)k + 1) return VERTICES;
  for (int i = 0; i <= k; i ++) { if (ev[i].size() != (size_t)n) return VERTICES; for (int j = 0; j < n; j ++) if (ev[i][j] != m.unit_simplices[k][t][i][j] + e.corner[j]) r |= VERTICES; }
  if (k == 0) return r;
  auto sd = e.sides(m);
  if (sd.size() != (size_t)k + 1) r |= SIDES;
  for (size_t i = 0; i < sd.size(); i ++) {
    if (sd[i].dim != k - 1) { r |= SIDES; continue; }
    VV sv = sd[i].vertices(m);
    if (sv.size() != (size_t)k || !distinct(sv) || !subset(sv, ev)) r |= SIDES;
    for (size_t j = 0; j < i; j ++) if (sd[i] == sd[j]) r |= SIDES;
  }
  return r;
}
/* coboundary relation of one type: exactly the (k+1)-simplices that have it among their sides */
constexpr unsigned coboundary(const M& m, int n, int k, int t, bool facets) {
  unsigned r = 0;
  E e = elem(some_corner(n), k, t);
  VV ev = e.vertices(m);
  auto so = e.side_of(m);
  if (so.empty()) r |= SIDEOF;
  for (size_t i = 0; i < so.size(); i ++) {
    if (so[i].dim != k + 1 || so[i].type < 0 || so[i].type >= (int)m.unit_simplices[k + 1].size()) { r |= SIDEOF; continue; }
    if (!subset(ev, so[i].vertices(m))) r |= SIDEOF;
    for (size_t j = 0; j < i; j ++) if (so[i] == so[j]) r |= SIDEOF;
  }
  if (facets && k == n - 1) {
    if (so.size() != 2) r |= FACET;
    else { int a = orient(ev, opposite(so[0].vertices(m), ev)), b = orient(ev, opposite(so[1].vertices(m), ev)); if (a * b >= 0) r |= FACET; }
  }
  return r;
}
constexpr unsigned whole(int n) {
  M m(n);
  unsigned r = 0;
  for (int k = 0; k <= n; k ++) {
    r |= shapes(m, n, k);
    int nt = m.unit_simplices[k].size();
    if (m.ntypes(k) != nt) { r |= COUNT; return r; }
    if (r & (SHAPE | COUNT)) return r;
  }
  for (int k = 0; k <= n; k ++) {
    size_t a = 0, b = 0;
    for (int t = 0; t < m.ntypes(k); t ++) {
      r |= boundary(m, n, k, t);
      if (k < n) { r |= coboundary(m, n, k, t, true); b += elem(V(n), k, t).side_of(m).size(); }
      else if (!elem(V(n), k, t).side_of(m).empty()) r |= SIDEOF;
    }
    if (k < n) {
      for (int t = 0; t < m.ntypes(k + 1); t ++) a += elem(V(n), k + 1, t).sides(m).size();
      if (a != b) r |= SIDEOF;
    }
    int no = 0, ni = 0;
    for (int t = 0; t < m.ntypes(k); t ++) {
      bool ord = true;
      for (auto& v : m.unit_simplices[k][t]) if (v[n - 1] != m.unit_simplices[k][t][0][n - 1]) ord = false;
      if (elem(V(n), k, t).is_ordinal(m) != ord) r |= ORDINAL;
      const auto& L = ord ? m.unit_ordinal_simplex_types[k] : m.unit_interval_simplex_types[k];
      int c = 0;
      for (int x : L) if (x == t) c ++;
      if (c != 1) r |= ORDINAL;
      (ord ? no : ni) ++;
    }
    if (m.ntypes(k, ftk::ELEMENT_SCOPE_ORDINAL) != no || m.ntypes(k, ftk::ELEMENT_SCOPE_INTERVAL) != ni) r |= ORDINAL;
    if ((int)m.unit_ordinal_simplex_types[k].size() != no || (int)m.unit_interval_simplex_types[k].size() != ni) r |= ORDINAL;
  }
  return r;
}
