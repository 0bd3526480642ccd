#ifndef _FTK_OBJECT_HH
#define _FTK_OBJECT_HH
#include <vector>
#include <functional>
#include <algorithm>
#include <thread>
namespace ftk {
enum {FTK_XL_NONE = 0};
struct object { constexpr bool is_root_proc() const {return false;}
 template <typename F> static constexpr void parallel_for(size_t n, F f, int, int, bool) { for (size_t j = 0; j < n; j ++) f(j); } };
}
#endif
