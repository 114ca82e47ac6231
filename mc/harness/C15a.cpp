// C15: pairs.
#include "c15.hpp"
C15_BOTH(a)
namespace {
void both(int r1, int r2, Val const& a, Val const& b) {
  MC_NOTE(std::string(rep_name[r1]) + " " + dump(a) + " and " + rep_name[r2] + " " + dump(b));
  (r1 < 3 ? c15_both_a : r1 < 6 ? c15_both_b : r1 < 10 ? c15_both_c : c15_both_d)(r1, r2, a, b);
  mc::state(mc::mix(hash(a), hash(b))); if (same(a, b)) mc::nontrivial();
}
MC_SPACE(pairs, "pairs", "every ordered pair of 76 values that differ in one aspect, in every ordered pair of 13 representations, views and reference counters; reflexivity and copies") { int r1 = choose(kReps), r2 = choose(kReps); auto& a = pick(fam()); auto& b = pick(fam()); if ((a.s.size() > 60000) != (b.s.size() > 60000) && r1 != r2) mc::prune(); both(r1, r2, a, b); }

// Trees, in all pairs.
void gen(std::vector<Val>& out, int n, int depth) { // all trees with at most n nodes below the root
  out.push_back(Val::null()); out.push_back(Val::integer(1)); if (!depth) return; std::vector<Val> sub; if (n > 0) gen(sub, n - 1, depth - 1);
  out.push_back(Val::arr()); out.push_back(Val::obj());
  for (auto& a : sub) { if (n < 1) break; out.push_back(Val::arr({a})); for (char const* k : {"a", "b"}) out.push_back(Val::obj({{k, a}})); }
  if (n >= 2) { std::vector<Val> s2; gen(s2, n - 2, depth - 1); for (auto& a : s2) for (auto& b : s2) { out.push_back(Val::arr({a, b})); out.push_back(Val::obj({{"a", a}, {"b", b}})); } }
}
MC_SPACE(trees, "trees", "every ordered pair of all trees of at most 2 (thorough 3) nodes below the root over null, 1, arrays and two-key objects, in 6 (thorough 13) representations against 4") {
  static std::vector<Val> t; if (t.empty()) gen(t, mc::thorough() ? 3 : 2, mc::thorough() ? 2 : 2); int r1 = mc::thorough() ? choose(kReps) : std::vector<int> {0, 1, 2, 3, 5, 9}[choose(6)], r2 = std::vector<int> {0, 1, 4, 5}[choose(4)]; both(r1, r2, pick(t), pick(t));
}
}
