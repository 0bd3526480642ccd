// instances of the templates of the library that no program of the repository uses, for the analysis
#include <ftk/utils/gather.hh>
#include <ftk/utils/scatter.hh>
#include <ftk/utils/all2all.hh>
namespace verif {
using map_t = std::map<int, int>;
template <typename C> auto use_allgather(const C& c, const map_t& a, map_t& b, int) -> decltype(diy::mpi::allgather(c, a, b)) { diy::mpi::allgather(c, a, b); }
template <typename C> void use_allgather(const C&, const map_t&, map_t&, long) {}
template <typename C> auto use_all2all(const C& c, const std::vector<map_t>& a, map_t& b, int) -> decltype(diy::mpi::all2all(c, a, b)) { diy::mpi::all2all(c, a, b); }
template <typename C> void use_all2all(const C&, const std::vector<map_t>&, map_t&, long) {}
template <typename C> auto use_scatterv(const C& c, const std::vector<map_t>& a, map_t& b, int) -> decltype(diy::mpi::scatterv(c, a, b)) { diy::mpi::scatterv(c, a, b); }
template <typename C> void use_scatterv(const C&, const std::vector<map_t>&, map_t&, long) {}
inline void use(const diy::mpi::communicator& c, const map_t& a, const std::vector<map_t>& v, map_t& b) { use_allgather(c, a, b, 0); use_all2all(c, v, b, 0); use_scatterv(c, v, b, 0); }
}
