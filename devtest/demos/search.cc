// The plans the searches report, against a recursive enumeration of a small tree.
#include <algorithm>
#include <cstdio>
#include <iostream>
#include <memory>
#include <string>
#include <vector>
#include "symbolic/planning/a_star.h"
#include "symbolic/planning/breadth_first_search.h"
#include "symbolic/planning/depth_first_search.h"
#define CHECK(x) do { if (!(x)) { std::printf("failed line %d: %s (case %d)\n", __LINE__, #x, g_case); return 1; } } while (0)
static int g_case = 0;
struct Node {
  // A moved-from node has no implementation, like the planner's.
  std::shared_ptr<std::vector<int>> path;
  static int goal_mod, fan;
  const std::vector<int>& p() const { if (!path) throw 1; return *path; }
  int value() const { int s = 1; for (int x : p()) s = (s * 7 + x * 3) % 11; return s; }
  explicit operator bool() const { return value() % goal_mod == 0; }
  struct It {
    const Node* n; int i; std::shared_ptr<Node> child;
    const Node& operator*() { child = std::make_shared<Node>(); child->path = std::make_shared<std::vector<int>>(n->p()); child->path->push_back(i); return *child; }
    It& operator++() { ++i; return *this; }
    bool operator==(const It& o) const { return i == o.i; }
    bool operator!=(const It& o) const { return i != o.i; }
  };
  int kids() const { return value() % 4 == 1 && !p().empty() ? 0 : fan; }
  It begin() const { return {this, 0, {}}; }
  It end() const { return {this, kids(), {}}; }
  friend std::ostream& operator<<(std::ostream& o, const Node& n) { return o << n.p().size(); }
};
int Node::goal_mod = 3, Node::fan = 2;
using Key = std::vector<std::vector<int>>;
static void Enumerate(const Node& n, std::vector<Node> anc, size_t limit, std::vector<Key>* out) {
  anc.push_back(n);
  if (n) { Key k; for (const Node& a : anc) k.push_back(a.p()); out->push_back(k); return; }
  if (anc.size() > limit) return;
  for (const Node& c : n) Enumerate(c, anc, limit, out);
}
struct Cmp {
  bool operator()(const symbolic::SearchNode<Node>& a, const symbolic::SearchNode<Node>& b) const { return a.ancestors.size() > b.ancestors.size(); }
};
template <typename S>
static std::vector<Key> All(S& s) {
  std::vector<Key> out;
  auto end = s.end();
  for (auto it = s.begin(); it != end; ++it) {
    if (it == end) { out.push_back({}); break; }
    Key k;
    for (const Node& a : *it) k.push_back(a.p());
    out.push_back(k);
    if (out.size() > 5000) break;
  }
  return out;
}
static bool Shortest(const std::vector<Key>& v) {
  return std::is_sorted(v.begin(), v.end(), [](const Key& a, const Key& b) { return a.size() < b.size(); });
}
int main() {
  std::cout.setstate(std::ios::badbit);
  for (Node::goal_mod = 1; Node::goal_mod < 6; Node::goal_mod++)
    for (Node::fan = 0; Node::fan < 4; Node::fan++)
      for (size_t limit = 0; limit < 5; limit++)
        for (int from = 0; from < 3; from++) {
          g_case++;
          Node root{std::make_shared<std::vector<int>>(std::vector<int>(from, from))};
          std::vector<Key> want;
          Enumerate(root, {}, limit, &want);
          symbolic::BreadthFirstSearch<Node> bfs(root, limit, g_case % 2 == 0, std::chrono::microseconds(g_case % 3 == 0 ? 100000000 : 0));
          symbolic::DepthFirstSearch<Node> dfs(root, limit);
          Cmp cmp;
          symbolic::AStar<Node, Cmp> astar(cmp, root, limit);
          std::vector<Key> b = All(bfs), d = All(dfs), a = All(astar);
          CHECK(Shortest(b));
          CHECK(Shortest(a));
          std::vector<Key> byfirst = want;
          for (std::vector<Key>* v : {&b, &d, &a, &want}) std::sort(v->begin(), v->end());
          CHECK(b == want);
          CHECK(d == want);
          CHECK(a == want);
        }
  return 0;
}
