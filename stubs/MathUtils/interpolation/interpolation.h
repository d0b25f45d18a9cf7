// Stand-in: piecewise linear / natural cubic spline interpolation, with extrapolation.
#ifndef VP_ALEX_INTERPOLATION_H
#define VP_ALEX_INTERPOLATION_H
#include <algorithm>
#include "MathUtils/function/Function.h"
#include "ElementsKernel/Exception.h"
namespace Euclid { namespace MathUtils {
enum class InterpolationType { LINEAR, CUBIC_SPLINE };
inline std::unique_ptr<Function> interpolate(const std::vector<double>& x, const std::vector<double>& y, InterpolationType t, bool extrapolate = false) {
  if (x.size() != y.size()) throw Elements::Exception() << "Interpolation: x and y sizes differ";
  if (x.size() < 2) { double v = y.empty() ? 0. : y[0]; return std::unique_ptr<Function>(new FunctionAdapter([v](double) { return v; })); }
  size_t n = x.size();
  std::vector<double> m(n, 0.);
  if (t == InterpolationType::CUBIC_SPLINE && n > 2) {
    std::vector<double> u(n, 0.);
    for (size_t i = 1; i + 1 < n; ++i) {
      double sig = (x[i] - x[i - 1]) / (x[i + 1] - x[i - 1]), p = sig * m[i - 1] + 2.;
      m[i] = (sig - 1.) / p;
      u[i] = (y[i + 1] - y[i]) / (x[i + 1] - x[i]) - (y[i] - y[i - 1]) / (x[i] - x[i - 1]);
      u[i] = (6. * u[i] / (x[i + 1] - x[i - 1]) - sig * u[i - 1]) / p;
    }
    for (size_t k = n - 1; k-- > 0;) m[k] = m[k] * m[k + 1] + u[k];
  }
  return std::unique_ptr<Function>(new FunctionAdapter([x, y, m, n, extrapolate](double v) {
    if (!extrapolate && (v < x.front() || v > x.back())) return 0.;
    size_t hi = std::lower_bound(x.begin(), x.end(), v) - x.begin();
    hi = std::min(std::max<size_t>(hi, 1), n - 1);
    size_t lo = hi - 1;
    double h = x[hi] - x[lo], a = (x[hi] - v) / h, b = (v - x[lo]) / h;
    return a * y[lo] + b * y[hi] + ((a * a * a - a) * m[lo] + (b * b * b - b) * m[hi]) * h * h / 6.;
  }));
}
} }
#endif
