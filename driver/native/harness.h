// Declarations the emitted C++ is compiled against: user types, external functions, containers.
#pragma once
#define WF_SPAN_EIGEN_SUPPORT
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <Eigen/Core>
#include <wrenfold/span.h>

struct Point2 { double x; double y; };
struct Pose { Eigen::Matrix<double, 3, 1> t; double k; };
struct Box { Point2 a; Eigen::Matrix<double, 2, 2> m; double w; };
struct Nest { Box b; std::int64_t n; Point2 p; };
struct Table { double value; };

// ---- flattened elements <-> objects (declaration order, matrices row-major)
inline void load(const double*& p, double& x) { x = *p++; }
inline void load(const double*& p, float& x) { x = static_cast<float>(*p++); }
inline void load(const double*& p, std::int64_t& x) { x = static_cast<std::int64_t>(*p++); }
template <class S, int R, int C> void load(const double*& p, Eigen::Matrix<S, R, C>& m) {
  for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) load(p, m(i, j));
}
inline void load(const double*& p, Point2& v) { load(p, v.x); load(p, v.y); }
inline void load(const double*& p, Pose& v) { load(p, v.t); load(p, v.k); }
inline void load(const double*& p, Box& v) { load(p, v.a); load(p, v.m); load(p, v.w); }
inline void load(const double*& p, Nest& v) { load(p, v.b); load(p, v.n); load(p, v.p); }
inline void load(const double*& p, Table& v) { load(p, v.value); }
inline void dump(double*& p, double x) { *p++ = x; }
inline void dump(double*& p, float x) { *p++ = x; }
inline void dump(double*& p, std::int64_t x) { *p++ = static_cast<double>(x); }
template <class S, int R, int C> void dump(double*& p, const Eigen::Matrix<S, R, C>& m) {
  for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) dump(p, m(i, j));
}
inline void dump(double*& p, const Point2& v) { dump(p, v.x); dump(p, v.y); }
inline void dump(double*& p, const Pose& v) { dump(p, v.t); dump(p, v.k); }
inline void dump(double*& p, const Box& v) { dump(p, v.a); dump(p, v.m); dump(p, v.w); }
inline void dump(double*& p, const Nest& v) { dump(p, v.b); dump(p, v.n); dump(p, v.p); }

// ---- the user's own matrix: R x C elements somewhere in a buffer
template <class S, int R, int C> struct Strided {
  S* ptr;
  std::ptrdiff_t rs, cs;
};
namespace wf {
template <typename Dimensions, class S, int R, int C> struct convert_to_span<Dimensions, Strided<S, R, C>> {
  template <typename U> constexpr auto convert(U&& m) const noexcept {
    static_assert(constant_value_pack_axis_v<0, Dimensions> == R, "rows");
    static_assert(constant_value_pack_axis_v<1, Dimensions> == C, "cols");
    return make_span(m.ptr, make_constant_value_pack<R, C>(), make_value_pack(dynamic(m.rs), dynamic(m.cs)));
  }
};
}  // namespace wf

// ---- external functions: the interpretation given in Sem.tla (ExtInterp)
inline double interp(double sh, std::initializer_list<double> xs) {
  double s = sh;
  int i = 1;
  for (double x : xs) { s += x * (2 * i + 1) / (i + 3); ++i; }
  return s * (1 + sh / 5) + 2.0 / 11 * (*xs.begin() * *(xs.end() - 1));
}
inline double ext_s(double a, double b) { return interp(0.5, {a, b}); }
template <class M> double ext_v(const M& v, double s) { return interp(-0.75, {v(0, 0), v(1, 0), s}); }
inline Eigen::Matrix<double, 2, 2> ext_m(double a) {
  return (Eigen::Matrix<double, 2, 2>() << interp(1.0 / 3, {a}), interp(-0.4, {a}), interp(7.0 / 8, {a}),
          interp(-1.25, {a})).finished();
}
template <class M> Eigen::Matrix<double, 2, 3> ext_n(const M& v, double s) {
  const auto f = [&](double sh) { return interp(sh, {v(0, 0), v(0, 1), v(0, 2), s}); };
  return (Eigen::Matrix<double, 2, 3>() << f(2.0 / 9), f(-5.0 / 7), f(11.0 / 8), f(-4.0 / 3), f(6.0 / 5), f(-1.0 / 9)).finished();
}
inline Point2 ext_p(double s, const Point2& p) { return {interp(3.0 / 7, {s, p.x, p.y}), interp(-1.0 / 6, {s, p.x, p.y})}; }
inline double ext_0() { return 1.4; }
inline std::int64_t ext_i(double a) { return a < 0 ? -2 : 3; }
inline double ext_t(const Table& t, double a) { return interp(1.8, {t.value, a}); }
inline Box ext_b(const Eigen::Matrix<double, 2, 2>& m, const Pose& b) {
  const auto f = [&](double sh) {
    return interp(sh, {m(0, 0), m(0, 1), m(1, 0), m(1, 1), b.t(0), b.t(1), b.t(2), b.k});
  };
  return Box{Point2{f(1.0 / 8), f(-3.0 / 8)},
             (Eigen::Matrix<double, 2, 2>() << f(5.0 / 8), f(-7.0 / 8), f(9.0 / 8), f(-11.0 / 8)).finished(), f(13.0 / 8)};
}
