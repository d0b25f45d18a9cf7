// Stand-in for Elements' floating point comparison helpers (ULP based).
#ifndef VP_ELEMENTS_REAL_H
#define VP_ELEMENTS_REAL_H
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
namespace Elements {
template <typename T> struct VpUlp;
template <> struct VpUlp<float> { using U = uint32_t; static constexpr U max = 4; };
template <> struct VpUlp<double> { using U = uint64_t; static constexpr U max = 10; };
template <typename T> bool vpAlmost(T a, T b) {
  if (a != a || b != b) return false;
  using U = typename VpUlp<T>::U;
  auto bias = [](T v) { U u; std::memcpy(&u, &v, sizeof u); U s = U(1) << (sizeof(U) * 8 - 1);
                        return (u & s) ? U(~u + 1) : U(s | u); };
  U x = bias(a), y = bias(b);
  return (x > y ? x - y : y - x) <= VpUlp<T>::max;
}
inline bool isEqual(float a, float b) { return vpAlmost<float>(a, b); }
inline bool isEqual(double a, double b) { return vpAlmost<double>(a, b); }
inline bool isNotEqual(double a, double b) { return !isEqual(a, b); }
inline bool isNotEqual(float a, float b) { return !isEqual(a, b); }
inline bool almostEqual2sComplement(double a, double b, int = 10) { return isEqual(a, b); }
inline bool realBitWiseEqual(double a, double b) { return a == b; }
}  // namespace Elements
#endif
