// Replays behaviours of spec/solver/SolverControl.tla into the real Vmec::run().
#include "ctl_mock.h"
int main(int argc, char** argv) {
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  std::FILE* bin = std::fopen(argv[3], "wb");
  std::string line;
  while (std::getline(in, line)) {
    json sc = json::parse(line);
    load_script(sc);
    VmecINDATA d;
    d.lasym = sc["lasym"]; d.nfp = 1; d.ncurr = 0; d.mpol = 3; d.ntor = sc["ntor"]; d.ntheta = 0; d.nzeta = d.ntor > 0 ? 8 : 1;
    auto& cf = sc["cfg"];
    std::vector<int> ns = cf["ns"], niter = cf["niter"]; std::vector<double> ft = cf["ftol"];
    d.ns_array = Eigen::Map<Eigen::VectorXi>(ns.data(), ns.size());
    d.niter_array = Eigen::Map<Eigen::VectorXi>(niter.data(), niter.size());
    for (auto& v : ft) v /= 8192.0;
    d.ftol_array = Eigen::Map<Eigen::VectorXd>(ft.data(), ft.size());
    d.phiedge = 1.0; d.pmass_type = "power_series"; d.piota_type = "power_series";
    d.am = Eigen::VectorXd::Zero(1); d.ai = Eigen::VectorXd::Constant(1, 0.4); d.ac = Eigen::VectorXd::Zero(1);
    d.curtor = 0; d.delt = sc["delt"]; d.nstep = cf["nstep"];
    d.return_outputs_even_if_not_converged = cf["ret"];
    d.iteration_style = cf["style"] == "parvmec" ? IterationStyle::PARVMEC : IterationStyle::VMEC_8_52;
    d.raxis_c = Eigen::VectorXd::Zero(d.ntor + 1); d.raxis_c[0] = 3.1;
    d.zaxis_s = Eigen::VectorXd::Zero(d.ntor + 1);
    d.rbc = RowMatrixXd::Zero(d.mpol, 2 * d.ntor + 1); d.zbs = d.rbc;
    d.rbc(0, d.ntor) = 3.0; d.rbc(1, d.ntor) = 1.0; d.zbs(1, d.ntor) = 1.3; d.rbc(2, d.ntor) = 0.05; d.zbs(2, d.ntor) = -0.04;
    if (d.ntor > 0) { d.rbc(1, d.ntor + 1) = 0.1; d.zbs(1, d.ntor + 1) = -0.12; d.rbc(1, d.ntor - 1) = 0.03; d.raxis_c[1] = 0.02; d.zaxis_s[1] = -0.03; }
    if (d.lasym) {
      d.raxis_s = Eigen::VectorXd::Zero(d.ntor + 1); d.zaxis_c = Eigen::VectorXd::Constant(d.ntor + 1, 0.01);
      RowMatrixXd z = RowMatrixXd::Zero(d.mpol, 2 * d.ntor + 1);
      d.rbs = z; d.zbc = z; (*d.rbs)(1, d.ntor) = 0.0; (*d.zbc)(2, d.ntor) = 0.02; (*d.rbs)(2, d.ntor) = 0.03;
    }
    json o; o["id"] = sc["id"];
    try {
      Vmec v(d, (int)sc["threads"], OutputMode::kSilent, [&]() -> bool {
        int p = G.k <= (int)G.script.size() && G.k > 0 ? G.script[G.k - 1].poll : 0;
        bool raise = p == 2;
        G.polls.push_back({G.k, raise ? 1 : 0});
        return raise; });
      auto r = v.run();
      o["code"] = (int)r.status().code();
      o["msg"] = std::string(r.status().message()).substr(0, 200);
      o["status"] = (int)v.get_status();
      o["threads"] = v.num_threads_;
      o["hist"] = (int)v.fc_.force_residual_r.size();
    } catch (const std::exception& e) { o["exc"] = e.what(); }
    report(o, bin);
    out << o.dump() << "\n" << std::flush;
  }
  std::fclose(bin);
  return 0;
}
