// Instantiates the searches over planner nodes; see sets.cc.
#include <string>
#include <utility>
#include <vector>

#include "symbolic/planning/a_star.h"
#include "symbolic/planning/breadth_first_search.h"
#include "symbolic/planning/depth_first_search.h"
#include "symbolic/planning/planner.h"

namespace symbolic {

using Node = Planner::Node;
struct NodeCompare {
  bool operator()(const SearchNode<Node>& a, const SearchNode<Node>& b) const {
    return a.ancestors.size() > b.ancestors.size();
  }
};

template class BreadthFirstSearch<Node>;
template class DepthFirstSearch<Node>;
template class AStar<Node, NodeCompare>;

}  // namespace symbolic

namespace verif_force {

template <typename S>
void UseSearch(S& s) {
  for (const std::vector<symbolic::Node>& plan : s) {
    (void)plan.size();
  }
  auto it = s.begin();
  ++it;
  (void)*it;
  (void)(it == s.end());
  (void)(it != s.end());
}

void UseSearches(const symbolic::Node& root) {
  symbolic::BreadthFirstSearch<symbolic::Node> bfs(root, 5);
  symbolic::DepthFirstSearch<symbolic::Node> dfs(root, 5);
  symbolic::NodeCompare cmp;
  symbolic::AStar<symbolic::Node, symbolic::NodeCompare> astar(cmp, root, 5);
  UseSearch(bfs);
  UseSearch(dfs);
  UseSearch(astar);
}

}  // namespace verif_force
