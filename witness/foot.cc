#include "fp.h"
using namespace wit;
// supported for footprinting alone, and pointers
struct Raw { long a; int b; Raw* next; std::vector<int> v; };   // nothing to traverse it by
struct Node { long a; Raw* r; void* o; FILE* f; std::shared_ptr<E> s; int* i;
  template <typename S> void serialize(S& s_) { s_ | a; s_ | r; s_ | o; s_ | f; s_ | s; s_ | i; } };
WIT(raw, Raw)
WIT(vraw, std::vector<Raw>)
WIT(rp, Raw*)
WIT(ip, int*)
WIT(ep, E*)
WIT(vp, void*)
WIT(file, FILE*)
WIT(comm, ompi_communicator_t*)
WIT(grp, ompi_group_t*)
WIT(req, ompi_request_t*)
WIT(win, ompi_win_t*)
WIT(vep, std::vector<E*>)
WIT(vcomm, std::vector<ompi_communicator_t*>)
WIT(lvp, std::list<void*>)
WIT(mptr, std::map<int, E*>)
WIT(epp, E**)
WIT(spE, std::shared_ptr<E>)
WIT(spv, std::shared_ptr<std::vector<long>>)
WIT(vsp, std::vector<std::shared_ptr<E>>)
WIT(upup, std::unique_ptr<std::unique_ptr<E>>)
WIT(uraw, std::unique_ptr<Raw>)
WIT(node, Node)
WIT(vnode, std::vector<Node>)
WIT(fn, std::function<int(long, E&)>)
WIT(vfn, std::vector<std::function<void()>>)
WIT(atb, std::atomic<bool>)
WIT(atl, std::atomic<long>)
WIT(thr, std::thread)
WIT(stk, std::stack<long>)
WIT(pq, std::priority_queue<int>)
WIT(qint, std::queue<int>)
WIT(qE, std::queue<E>)
WIT(oraw, std::optional<Raw>)
WIT(tupp, std::tuple<E*, std::shared_ptr<E>, void*>)
WIT(vvs, std::vector<std::vector<std::string>>)
WIT(mvs, std::map<std::string, std::vector<E>>)
