// Whole solves, watched at every iteration, with the workers scheduled as the case says (omp_sched.h).
// obs_run CASES OUT : one JSON line per case in, one out; every case runs in a process of its own.
#include <sys/wait.h>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <nlohmann/json.hpp>

#include "vmecpp/vmec/vmec/vmec.h"
#include "vmecpp/common/vmec_indata/vmec_indata.h"
#include "omp_sched.h"
using json = nlohmann::json; using namespace vmecpp;
static std::string OUT; static json O;
static void finish(int rc) { std::ofstream(OUT, std::ios::app) << O.dump() << "\n" << std::flush; _exit(rc); }
static json num(double d) { return std::isfinite(d) ? json(d) : json(std::isnan(d) ? "nan" : d > 0 ? "inf" : "-inf"); }
template <class V> static json vec(const V& v) { json a = json::array(); for (long i = 0; i < (long)v.size(); ++i) a.push_back(num(v.data()[i])); return a; }
static json mat(const RowMatrixXd& m) { json a = json::array(); for (long i = 0; i < m.rows(); ++i) { json b = json::array(); for (long j = 0; j < m.cols(); ++j) b.push_back(num(m(i, j))); a.push_back(b); } return a; }
static RowMatrixXd tomat(const json& j) { RowMatrixXd m(j.size(), j.size() ? j[0].size() : 0); for (size_t i = 0; i < j.size(); ++i) for (size_t k = 0; k < j[i].size(); ++k) m(i, k) = j[i][k]; return m; }
static json ranges(Vmec& v) {
  json o; o["ns"] = v.fc_.ns; o["threads"] = v.num_threads_; o["w"] = json::array(); o["vac"] = json::array(); o["points"] = v.s_.nZnT;
  for (auto& r : v.r_) o["w"].push_back({r->nsMinF, r->nsMaxF, r->nsMinF1, r->nsMaxF1, r->nsMinH, r->nsMaxH, r->nsMinFi, r->nsMaxFi, r->nsMaxFIncludingLcfs, (int)r->has_boundary()});
  for (auto& t : v.tp_vac_) o["vac"].push_back({t->ztMin, t->ztMax});
  return o;
}
// all coefficients of one surface as seen by worker t (R, Z, lambda; active basis functions)
static json surface(Vmec& v, int t, int j, int kinds = 3) {
  json a = json::array();
  for (int k = 0; k < kinds; ++k) for (int b = 0; b < v.s_.num_basis; ++b) for (int n = 0; n <= v.s_.ntor; ++n) for (int m = 0; m < v.s_.mpol; ++m) a.push_back(num(v.decomposed_x_[t]->GetXcElement(k, b, j, n, m)));
  return a;
}
// every coefficient of every surface, R / Z / lambda, minus `back` times its velocity
static json whole(Vmec& v, double back) {
  json out = json::array(); out.get_ref<json::array_t&>().resize(v.fc_.ns);
  for (int t = 0; t < v.num_threads_; ++t) for (int j = v.r_[t]->nsMinF; j < v.r_[t]->nsMaxFIncludingLcfs; ++j) {
    json a = json::array();
    for (int k = 0; k < 3; ++k) for (int b = 0; b < v.s_.num_basis; ++b) for (int n = 0; n <= v.s_.ntor; ++n) for (int m = 0; m < v.s_.mpol; ++m)
      a.push_back(num(v.decomposed_x_[t]->GetXcElement(k, b, j, n, m) - (back != 0. ? back * v.decomposed_v_[t]->GetXcElement(k, b, j, n, m) : 0.)));
    out[j] = a;
  }
  return out;
}
// how far the geometry of this iteration is from "checkpoint plus one step with the velocity at hand"
static double restdiff(Vmec& v) {
  double d = 0;
  for (int t = 0; t < v.num_threads_; ++t) for (int j = v.r_[t]->nsMinF; j < v.r_[t]->nsMaxF; ++j) for (int k = 0; k < 2; ++k) for (int b = 0; b < v.s_.num_basis; ++b) for (int n = 0; n <= v.s_.ntor; ++n) for (int m = 0; m < v.s_.mpol; ++m)
    d = std::max(d, std::abs(v.decomposed_x_[t]->GetXcElement(k, b, j, n, m) - v.fc_.delt0r * v.decomposed_v_[t]->GetXcElement(k, b, j, n, m) - v.physical_x_backup_[t]->GetXcElement(k, b, j, n, m)));
  return d;
}
static double edgepressure(Vmec& v) { double d = 0; for (int t = 0; t < v.num_threads_; ++t) if (v.r_[t]->nsMaxF1 == v.fc_.ns) d = v.m_[t]->rBSq.size() ? v.m_[t]->rBSq.norm() : 0; return d; }
static void one(const json& c) {
  O["id"] = c["id"];
  on_deadlock = [] { O["deadlock"] = deadlock; finish(0); };
  if (c.contains("perms")) for (auto& x : c["perms"]) { List l; l.hold = x["hold"]; for (int i : x["p"].get<std::vector<int>>()) l.p.push_back(i - 1); lists.push_back(l); }
  if (c.contains("limit")) limit = c["limit"];
  const json w = c.value("watch", json::object());
  auto in = VmecINDATA::FromJson(c["input"].is_string() ? c["input"].get<std::string>() : c["input"].dump());
  if (!in.ok()) { O["code"] = (int)in.status().code(); O["msg"] = std::string(in.status().message()); finish(0); }
  std::optional<makegrid::MagneticFieldResponseTable> tab;
  if (c.contains("table")) {
    const json& t = c["table"]; makegrid::MakegridParameters p; const json& q = t["par"];
    p.normalize_by_currents = q["norm"]; p.assume_stellarator_symmetry = q["sym"]; p.number_of_field_periods = q["nfp"]; p.r_grid_minimum = q["rmin"]; p.r_grid_maximum = q["rmax"]; p.number_of_r_grid_points = q["r"];
    p.z_grid_minimum = q["zmin"]; p.z_grid_maximum = q["zmax"]; p.number_of_z_grid_points = q["z"]; p.number_of_phi_grid_points = q["p"];
    tab.emplace(p, tomat(t["b"][0]), tomat(t["b"][1]), tomat(t["b"][2]));
  }
  Vmec* V = nullptr; int last = -1, calls = 0; int lastit = 0; json starts = json::array(), iters = json::array(), rng = json::array(), surf = json::array(), seam = json::array();
  auto cb = [&]() -> bool {
    Vmec& v = *V; ++calls;
    if (v.fc_.ns != last) { last = v.fc_.ns; if (w.value("ranges", false)) rng.push_back(ranges(v)); }
    if (w.value("iters", false)) iters.push_back({v.fc_.ns, v.get_iter1(), v.get_iter2(), v.get_ivac(), num(v.fc_.fsqr), num(v.fc_.fsqz), num(v.fc_.fsql), (int)v.fc_.restart_reason, v.fc_.ijacob, num(v.fc_.delt0r), v.get_last_full_update_nestor(), (int)v.fc_.force_residual_r.size(), w.value("vac", false) ? num(restdiff(v)) : json(0), w.value("vac", false) ? num(edgepressure(v)) : json(0)});
    if (w.value("start", false)) {  // the whole state: where a stage began (the step undone), and where it is now
      const bool fresh = starts.empty() || v.get_iter2() <= lastit; lastit = v.get_iter2();
      if (fresh) starts.push_back({{"ns", v.fc_.ns}, {"iter2", v.get_iter2()}, {"evals", (int)v.fc_.force_residual_r.size()}, {"x", whole(v, v.fc_.delt0r)}});
      starts.back()["end"] = whole(v, 0.); starts.back()["after"] = (int)v.fc_.force_residual_r.size(); starts.back()["calls"] = starts.back().value("calls", 0) + 1;
    }
    if (w.value("edge", false)) { int t = -1; for (int k = 0; k < v.num_threads_; ++k) if (v.r_[k]->nsMaxF1 == v.fc_.ns) t = k; if (t >= 0) surf.push_back(surface(v, t, v.fc_.ns - 1, 2)); }
    if (w.value("seams", false)) {  // the copies neighbouring workers hold of the same surface
      for (int t = 0; t + 1 < v.num_threads_; ++t) for (int j = v.r_[t + 1]->nsMinF1; j < v.r_[t]->nsMaxF1; ++j) if (surface(v, t, j) != surface(v, t + 1, j) && seam.size() < 5) seam.push_back({v.fc_.ns, v.get_iter2(), t, j});
    }
    return w.contains("stop") && calls >= w["stop"].get<int>();
  };
  auto m = Vmec::FromIndata(*in, tab ? &*tab : nullptr, c["threads"].get<int>(), OutputMode::kSilent, cb);
  if (!m.ok()) { O["code"] = (int)m.status().code(); O["msg"] = std::string(m.status().message()); finish(0); }
  V = m->get(); std::optional<HotRestartState> init;
  if (c.contains("restart")) {
    const json& r = c["restart"]; auto ri = VmecINDATA::FromJson(r["input"].dump());
    auto m0 = Vmec::FromIndata(*ri, tab ? &*tab : nullptr, 1, OutputMode::kSilent); auto s0 = (*m0)->run();
    if (!s0.ok()) { O["code"] = -1; O["msg"] = std::string(s0.status().message()); finish(0); }
    init.emplace((*m0)->output_quantities_.wout, (*m0)->output_quantities_.indata);
    if (r.contains("indata")) init->indata = *VmecINDATA::FromJson(r["indata"].dump());
    if (r.contains("tables")) { auto& q = init->wout; for (auto& [n, x] : r["tables"].items()) { RowMatrixXd m = tomat(x); if (n == "rmnc") q.rmnc = m; if (n == "zmns") q.zmns = m; if (n == "lmns_full") q.lmns_full = m; if (n == "rmns") q.rmns = m; if (n == "zmnc") q.zmnc = m; if (n == "lmnc_full") q.lmnc_full = m; } }
    omp_set_num_threads(c["threads"].get<int>());
  }
  auto s = V->run(VmecCheckpoint::NONE, INT_MAX, 500, std::move(init));
  Vmec& v = *V;
  O["code"] = (int)s.status().code(); O["msg"] = std::string(s.status().message()).substr(0, 200); O["status"] = (int)v.get_status(); O["ivac"] = v.get_ivac(); O["nthreads"] = v.num_threads_; O["vacthreads"] = v.vac_num_threads_;
  O["hist"] = {vec(v.fc_.force_residual_r), vec(v.fc_.force_residual_z), vec(v.fc_.force_residual_lambda), vec(v.fc_.mhd_energy), vec(v.fc_.delbsq)};
  json rr = json::array(); for (auto x : v.fc_.restart_reasons) rr.push_back((int)x); O["reasons"] = rr;
  if (s.ok()) {
    auto& q = v.output_quantities_.wout;
    O["out"] = {{"rmnc", vec(q.rmnc)}, {"zmns", vec(q.zmns)}, {"lmns", vec(q.lmns)}, {"bmnc", vec(q.bmnc)}, {"bsubumnc", vec(q.bsubumnc)}, {"iotaf", vec(q.iotaf)}, {"presf", vec(q.presf)}, {"jdotb", vec(q.jdotb)}, {"DMerc", vec(q.DMerc)}, {"equif", vec(q.equif)}, {"scal", {num(q.wb), num(q.wp), num(q.volume), num(q.aspect), num(q.betatotal), num(q.rbtor), num(q.ctor), num(q.fsqr), num(q.itfsq), num(q.b0)}}};
  }
  O["iters"] = iters; O["ranges"] = rng; O["edge"] = surf; O["seams"] = seam; O["starts"] = starts; O["calls"] = calls;
  O["sched"] = {{"barriers", nbar}, {"choices", choices}, {"singles", nsingle}, {"divergences", divergences}};
  finish(0);
}
int main(int, char** a) {
  std::ifstream f(a[1]); OUT = a[2]; std::string line;
  while (std::getline(f, line)) {
    json c = json::parse(line); pid_t p = fork();
    if (p == 0) { alarm(c.value("seconds", 60)); try { one(c); } catch (const std::exception& e) { O["exc"] = e.what(); finish(0); } }
    int st; waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { json o = {{"id", c["id"]}}; if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) o["hang"] = true; else o["crash"] = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st)); std::ofstream(OUT, std::ios::app) << o.dump() << "\n"; }
  }
}
