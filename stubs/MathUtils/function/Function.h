#ifndef VP_ALEX_FUNCTION_H
#define VP_ALEX_FUNCTION_H
#include <functional>
#include <memory>
#include <vector>
namespace Euclid { namespace MathUtils {
class Function {
public:
  virtual ~Function() = default;
  virtual double operator()(const double) const = 0;
  virtual std::unique_ptr<Function> clone() const = 0;
};
class FunctionAdapter : public Function {
public:
  explicit FunctionAdapter(std::function<double(double)> f) : m_f(std::move(f)) {}
  double operator()(const double x) const override { return m_f(x); }
  std::unique_ptr<Function> clone() const override { return std::unique_ptr<Function>(new FunctionAdapter(m_f)); }
private:
  std::function<double(double)> m_f;
};
} }
#endif
