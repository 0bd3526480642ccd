// analysis model of TBB: parallel_for applies the body to sub-ranges that partition the range; one arbitrary sub-range is analysed
#pragma once
#include <cstddef>
extern "C" size_t m_lo();
extern "C" size_t m_hi();
extern "C" void m_range(size_t, size_t);
namespace tbb {
template <typename T> struct blocked_range {
  T a, b;
  blocked_range(T a_, T b_, size_t = 1) : a(a_), b(b_) {}
  T begin() const { return a; }
  T end() const { return b; }
  size_t size() const { return b - a; }
};
template <typename R, typename F, typename... A> void parallel_for(const R &r, const F &f, const A &...) { m_range(r.begin(), r.end()); f(R(m_lo(), m_hi())); }
}
