#pragma once
// Scripted forward model used to replay behaviours of spec/solver/SolverControl.tla into the real loops.
// The forward model (IdealMhdModel::update) and the output computation are replaced by scripted
// stand-ins (this object comes first on the link line, --allow-multiple-definition), everything else -
// stages, control, damping, checkpoints, OpenMP structure - is the code of the repository.
#include <omp.h>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <limits>
#include <vector>
#include <nlohmann/json.hpp>
#include "vmecpp/vmec/vmec/vmec.h"
using json = nlohmann::json;
using namespace vmecpp;

namespace {
struct Ev { char k; double r, z, l, f; int poll; };
struct Obs { int i1, i2, ns, niter; double ftol; long off; int len; int overlap_bad; };
struct G_t {
  std::vector<Ev> script;
  int k = 0;              // evaluations so far
  bool extra = false;
  std::vector<Obs> obs;
  std::vector<std::pair<int, int>> polls;  // (evaluation index, raised)
  std::vector<double> x, pool;
  bool output = false; long out_off = -1; int out_status = -1, out_iter2 = -1;
  int overlap_bad = 0;
  int err = 0;
} G;

std::vector<std::span<double>> comps(const FourierGeometry& x) {
  return {x.rmncc, x.zmnsc, x.lmnsc, x.rmnss, x.zmncs, x.lmncs,
          x.rmnsc, x.zmncc, x.lmncc, x.rmncs, x.zmnss, x.lmnss};
}
std::vector<std::span<double>> comps(const FourierForces& x) {
  return {x.frcc, x.fzsc, x.flsc, x.frss, x.fzcs, x.flcs,
          x.frsc, x.fzcc, x.flcc, x.frcs, x.fzss, x.flss};
}
// collect one thread's rows into G.x; every component that exists has mn values per row
void gather(const FourierGeometry& x, int ns, int mn) {
  auto c = comps(x);
  for (int q = 0; q < 12; ++q) {
    if (c[q].empty()) continue;
    for (int j = x.nsMin(); j < x.nsMax(); ++j)
      for (int i = 0; i < mn; ++i) {
        double v = c[q][(size_t)(j - x.nsMin()) * mn + i];
        double& g = G.x[((size_t)q * ns + j) * mn + i];
        if (g != g) g = v;
        else if (std::memcmp(&g, &v, 8) != 0) G.overlap_bad++;
      }
  }
}
}  // namespace

namespace vmecpp {
absl::StatusOr<bool> IdealMhdModel::update(
    FourierGeometry& m_decomposed_x, FourierGeometry& m_physical_x,
    FourierForces& m_decomposed_f, FourierForces& m_physical_f,
    bool& m_need_restart, int& m_last_preconditioner_update,
    int& m_last_full_update_nestor, FlowControl& m_fc, const int iter1,
    const int iter2, const VmecCheckpoint& checkpoint,
    const int iterations_before_checkpointing, bool verbose,
    bool always_fix_m1_gauge) {
  const int ns = m_fc.ns;
  const int mn = (int)m_decomposed_x.rmncc.size() / (m_decomposed_x.nsMax() - m_decomposed_x.nsMin());
#pragma omp barrier
#pragma omp single
  {
    G.x.assign((size_t)12 * ns * mn, std::numeric_limits<double>::quiet_NaN());
    G.overlap_bad = 0;
    G.k++;
  }
#pragma omp critical
  gather(m_decomposed_x, ns, mn);
#pragma omp barrier
#pragma omp single
  {
    Obs o{iter1, iter2, ns, m_fc.niterv, m_fc.ftolv, (long)G.pool.size(), (int)G.x.size(), G.overlap_bad};
    G.pool.insert(G.pool.end(), G.x.begin(), G.x.end());
    G.obs.push_back(o);
    if (G.k > (int)G.script.size()) G.extra = true;
  }
  if (G.extra) return absl::InternalError("script exhausted");
  const Ev& e = G.script[G.k - 1];
  if (e.k == 'P') return absl::FailedPreconditionError("scripted");
  if (e.k == 'I') return absl::InternalError("scripted");
  if (e.k != 'b') {
    auto c = comps(m_decomposed_f);
    for (int q = 0; q < 12; ++q) {
      if (c[q].empty()) continue;
      for (int j = m_decomposed_f.nsMin(); j < m_decomposed_f.nsMax(); ++j)
        for (int i = 0; i < mn; ++i)
          c[q][(size_t)(j - m_decomposed_f.nsMin()) * mn + i] =
              (j == ns - 1) ? 0.0 : (((G.k * 31 + q * 7 + j * 3 + i) % 11) - 5) / 64.0;
    }
  }
#pragma omp single
  {
    if (e.k != 'b') {
      m_fc.fsqr = e.r; m_fc.fsqz = e.z; m_fc.fsql = e.l;
      double f = e.f * 8192.0, a = std::floor(f / 2), b = std::floor(f / 3);
      m_fc.fsqr1 = a / 8192.0; m_fc.fsqz1 = b / 8192.0; m_fc.fsql1 = (f - a - b) / 8192.0;
    }
    if (e.k == 'b' || e.k == 'v') m_fc.restart_reason = RestartReason::BAD_JACOBIAN;
    if (e.k == 'h') m_fc.restart_reason = RestartReason::HUGE_INITIAL_FORCES;
  }
  if (e.k == 'v') m_need_restart = true;
  return false;
}

OutputQuantities ComputeOutputQuantities(
    const int sign_of_jacobian, const VmecINDATA& indata, const Sizes& s,
    const FlowControl& fc, const VmecConstants& constants,
    const FourierBasisFastPoloidal& t, const HandoverStorage& h,
    const std::string& mgrid_mode,
    const std::vector<std::unique_ptr<RadialPartitioning>>& radial_partitioning,
    const std::vector<std::unique_ptr<FourierGeometry>>& decomposed_x,
    const std::vector<std::unique_ptr<IdealMhdModel>>& models_from_threads,
    const std::vector<std::unique_ptr<RadialProfiles>>& radial_profiles,
    const VmecCheckpoint& checkpoint, VacuumPressureState vacuum_pressure_state,
    VmecStatus vmec_status, int iter2) {
  const int ns = fc.ns;
  const int mn = (int)decomposed_x[0]->rmncc.size() / (decomposed_x[0]->nsMax() - decomposed_x[0]->nsMin());
  G.x.assign((size_t)12 * ns * mn, std::numeric_limits<double>::quiet_NaN());
  G.overlap_bad = 0;
  for (auto& x : decomposed_x) gather(*x, ns, mn);
  G.output = true; G.out_off = (long)G.pool.size(); G.out_status = (int)vmec_status; G.out_iter2 = iter2;
  G.pool.insert(G.pool.end(), G.x.begin(), G.x.end());
  return OutputQuantities();
}
}  // namespace vmecpp


namespace {
void load_script(const json& sc) {
  G = G_t();
  for (auto& e : sc["evals"]) {
    Ev v; v.k = e[0].get<std::string>()[0];
    auto val = [&](int i) -> double {
      if (e[i].is_string()) return e[i] == "inf" ? std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN();
      return e[i].get<double>() / 8192.0; };
    v.r = val(1); v.z = val(2); v.l = val(3); v.f = val(4); v.poll = e[5];
    G.script.push_back(v);
  }
}
long g_base = 0;
void report(json& o, std::FILE* bin) {
  o["evals"] = json::array();
  for (auto& b : G.obs) o["evals"].push_back({b.i1, b.i2, b.ns, b.niter, b.ftol * 8192.0, g_base + b.off, b.len, b.overlap_bad});
  o["polls"] = json::array();
  for (auto& p : G.polls) o["polls"].push_back({p.first, p.second});
  o["output"] = G.output; o["out_off"] = G.out_off < 0 ? -1 : g_base + G.out_off; o["out_iter2"] = G.out_iter2; o["out_status"] = G.out_status;
  o["extra"] = G.extra;
  std::fwrite(G.pool.data(), 8, G.pool.size(), bin);
  g_base += (long)G.pool.size();
  std::fflush(bin);
}
}  // namespace
