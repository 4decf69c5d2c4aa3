// Stand-in for abscab-cpp (not available offline): the same four entry points
// with the closed-form Biot-Savart expressions (straight segments:
// Hanson & Hirshman 2002; circular loop: complete elliptic integrals).
#ifndef VP_ABSCAB_SHIM_H_
#define VP_ABSCAB_SHIM_H_
#include <algorithm>
#include <cmath>

namespace abscab {
inline constexpr double MU_0 = 1.25663706212e-6;
namespace vp {
inline double dot(const double* a, const double* b) {
  return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}
inline void segment(const double* p0, const double* p1, const double* x,
                    double current, double* B, double* A) {
  double d[3], r0[3], r1[3];
  for (int i = 0; i < 3; ++i) {
    d[i] = p1[i] - p0[i];
    r0[i] = x[i] - p0[i];
    r1[i] = x[i] - p1[i];
  }
  const double L = std::sqrt(dot(d, d));
  if (L == 0.0) return;
  const double R0 = std::sqrt(dot(r0, r0)), R1 = std::sqrt(dot(r1, r1));
  const double sum = R0 + R1;
  if (B != nullptr) {
    const double denom = R0 * R1 * (sum * sum - L * L);
    if (denom > 0.0) {
      const double f = MU_0 * current / (4.0 * M_PI) * 2.0 * sum / denom;
      B[0] += f * (d[1] * r0[2] - d[2] * r0[1]);
      B[1] += f * (d[2] * r0[0] - d[0] * r0[2]);
      B[2] += f * (d[0] * r0[1] - d[1] * r0[0]);
    }
  }
  if (A != nullptr && sum > L) {
    const double eps = L / sum;
    const double f = MU_0 * current / (4.0 * M_PI) * 2.0 * std::atanh(eps) / L;
    for (int i = 0; i < 3; ++i) A[i] += f * d[i];
  }
}
inline void loop(const double* c, const double* nrm, double radius,
                 double current, const double* x, double* B, double* A) {
  const double nl = std::sqrt(dot(nrm, nrm));
  double n[3], r[3], e[3];
  for (int i = 0; i < 3; ++i) {
    n[i] = nrm[i] / nl;
    r[i] = x[i] - c[i];
  }
  const double z = dot(r, n);
  for (int i = 0; i < 3; ++i) e[i] = r[i] - z * n[i];
  const double rho = std::sqrt(dot(e, e));
  if (rho > 0.0)
    for (int i = 0; i < 3; ++i) e[i] /= rho;
  const double a = radius;
  const double alpha2 = (a - rho) * (a - rho) + z * z;
  const double beta2 = (a + rho) * (a + rho) + z * z;
  const double k2 = std::min(std::max(1.0 - alpha2 / beta2, 0.0), 1.0);
  const double k = std::sqrt(k2);
  const double K = std::comp_ellint_1(k), E = std::comp_ellint_2(k);
  const double C = MU_0 * current / M_PI;
  if (B != nullptr) {
    const double beta = std::sqrt(beta2);
    const double Bz = C / (2.0 * alpha2 * beta) *
                      ((a * a - rho * rho - z * z) * E + alpha2 * K);
    double Br = 0.0;
    if (rho > 0.0)
      Br = C * z / (2.0 * alpha2 * beta * rho) *
           ((a * a + rho * rho + z * z) * E - alpha2 * K);
    for (int i = 0; i < 3; ++i) B[i] += Br * e[i] + Bz * n[i];
  }
  if (A != nullptr && rho > 0.0 && k > 0.0) {
    const double Aphi =
        C / k * std::sqrt(a / rho) * ((1.0 - 0.5 * k2) * K - E);
    const double ph[3] = {n[1] * e[2] - n[2] * e[1], n[2] * e[0] - n[0] * e[2],
                          n[0] * e[1] - n[1] * e[0]};
    for (int i = 0; i < 3; ++i) A[i] += Aphi * ph[i];
  }
}
}  // namespace vp

inline void magneticFieldPolygonFilament(int nv, const double* v, double current,
                                         int ne, const double* x, double* B,
                                         int = 1, bool = true) {
  for (int i = 0; i < ne; ++i)
    for (int j = 0; j + 1 < nv; ++j)
      vp::segment(v + 3 * j, v + 3 * (j + 1), x + 3 * i, current, B + 3 * i, nullptr);
}
inline void vectorPotentialPolygonFilament(int nv, const double* v, double current,
                                           int ne, const double* x, double* A,
                                           int = 1, bool = true) {
  for (int i = 0; i < ne; ++i)
    for (int j = 0; j + 1 < nv; ++j)
      vp::segment(v + 3 * j, v + 3 * (j + 1), x + 3 * i, current, nullptr, A + 3 * i);
}
inline void magneticFieldCircularFilament(const double* c, const double* n,
                                          double radius, double current, int ne,
                                          const double* x, double* B, int = 1) {
  for (int i = 0; i < ne; ++i) vp::loop(c, n, radius, current, x + 3 * i, B + 3 * i, nullptr);
}
inline void vectorPotentialCircularFilament(const double* c, const double* n,
                                            double radius, double current, int ne,
                                            const double* x, double* A, int = 1) {
  for (int i = 0; i < ne; ++i) vp::loop(c, n, radius, current, x + 3 * i, nullptr, A + 3 * i);
}
}  // namespace abscab
#endif
