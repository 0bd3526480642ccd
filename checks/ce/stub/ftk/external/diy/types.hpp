#ifndef DIY_TYPES_STUB
#define DIY_TYPES_STUB
#include <vector>
namespace diy { struct DP : std::vector<int> { using std::vector<int>::vector; constexpr DP(const std::vector<int>& v) : std::vector<int>(v) {} constexpr int dimension() const {return size();} };
struct DiscreteBounds { DP min, max; constexpr DiscreteBounds(const std::vector<int>& a, const std::vector<int>& b) : min(a), max(b) {} }; }
#endif
