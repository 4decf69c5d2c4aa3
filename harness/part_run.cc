// The work distribution as the real classes compute it: part_run MAXNS MAXTHREADS MAXPOINTS EXTRA... -> JSON lines
#include <cstdlib>
#include <iostream>
#include <memory>
#include <nlohmann/json.hpp>
#include "vmecpp/common/util/util.h"
#include "vmecpp/free_boundary/tangential_partitioning/tangential_partitioning.h"
#include "vmecpp/vmec/radial_partitioning/radial_partitioning.h"
using json = nlohmann::json; using namespace vmecpp;
static void radial(int ns, bool free, int asked, json hist) {
  int n = vmec_adjust_num_threads(asked, free ? ns : ns - 1);
  json o = {{"kind", "radial"}, {"ns", ns}, {"free", free}, {"asked", asked}, {"w", json::array()}};
  for (int i = 0; i < n; ++i) {
    RadialPartitioning r;  // re-used for a sequence of grids as in a multi-grid run
    for (auto& h : hist) { int m = vmec_adjust_num_threads(asked, free ? h.get<int>() : h.get<int>() - 1); if (i < m) r.adjustRadialPartitioning(m, i, h, free, false); }
    r.adjustRadialPartitioning(n, i, ns, free, false);
    o["w"].push_back({r.nsMinF, r.nsMaxF, r.nsMinF1, r.nsMaxF1, r.nsMinH, r.nsMaxH, r.nsMinFi, r.nsMaxFi, r.nsMaxFIncludingLcfs, (int)r.has_boundary()});
    if (r.get_num_threads() != n || r.get_thread_id() != i) o["w"].push_back({0, 0, 0, 0, 0, 0, 0, 0, 0, 0});
  }
  std::cout << o.dump() << "\n";
}
static void points(int p, int asked) {
  int n = vmec_adjust_vacuum_num_threads(asked, p);
  json o = {{"kind", "points"}, {"points", p}, {"asked", asked}, {"w", json::array()}};
  for (int i = 0; i < n; ++i) { TangentialPartitioning t(p, n, i); if (p % 3 == 0) { t.adjustPartitioning(p + 5); t.adjustPartitioning(p); } o["w"].push_back({t.ztMin, t.ztMax}); }
  std::cout << o.dump() << "\n";
}
int main(int c, char** a) {
  int N = atoi(a[1]), T = atoi(a[2]), P = atoi(a[3]);
  for (int ns = 3; ns <= N; ++ns) for (bool f : {false, true}) for (int t = 1; t <= std::min(T, ns / 2 + 2); ++t) radial(ns, f, t, ns % 2 ? json::array({3}) : json::array({ns + 4, 5}));
  for (int p = 1; p <= P; ++p) for (int t = 1; t <= std::min(T, p + 2); ++t) points(p, t);
  for (int i = 4; i + 1 < c; i += 2) { int x = atoi(a[i]), t = atoi(a[i + 1]); radial(x, false, t, json::array()); radial(x, true, t, json::array({x / 2 + 3})); points(x, t); }
}
