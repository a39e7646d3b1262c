// Groups of functions: in each namespace every k* computes the same as ref, every x* does not.
// tools/idioms.py parses this file with the front end and asks the engine about each pair.
#include <Eigen/Dense>
#include <algorithm>
#include <cmath>
#include <functional>
#include <numeric>
#include <vector>
#include <limits>
#include <utility>
#include <array>
typedef Eigen::VectorXd VectorX;
typedef Eigen::MatrixXd MatrixX;
typedef Eigen::Vector2d Vector2;
typedef Eigen::Vector3d Vector3;

namespace cwise {
VectorX ref(const VectorX& a, const VectorX& b) { VectorX r(a.size()); for (int i = 0; i < a.size(); ++i) r(i) = a(i)*b(i) + 2.0; return r; }
VectorX k1(const VectorX& a, const VectorX& b) { return (a.array()*b.array() + 2.0).matrix(); }
VectorX k2(const VectorX& a, const VectorX& b) { return a.cwiseProduct(b) + VectorX::Constant(a.size(), 2.0); }
VectorX k3(const VectorX& a, const VectorX& b) { VectorX r = a; r.array() *= b.array(); r.array() += 2.0; return r; }
VectorX k4(const VectorX& a, const VectorX& b) { VectorX r = b; r = a.asDiagonal()*r; for (int i = 0; i != r.rows(); i++) r[i] += 2; return r; }
VectorX x1(const VectorX& a, const VectorX& b) { return (a.array()*b.array() + 1.0).matrix(); }
VectorX x2(const VectorX& a, const VectorX& b) { return a.cwiseProduct(a) + VectorX::Constant(a.size(), 2.0); }
VectorX x3(const VectorX& a, const VectorX& b) { return (a.array() + b.array() + 2.0).matrix(); }
}
namespace quotient {
VectorX ref(const VectorX& a, const VectorX& b) { VectorX r(a.size()); for (int i = 0; i < a.size(); ++i) r(i) = a(i)/b(i); return r; }
VectorX k1(const VectorX& a, const VectorX& b) { return a.cwiseQuotient(b); }
VectorX k2(const VectorX& a, const VectorX& b) { return a.array()/b.array(); }
VectorX k3(const VectorX& a, const VectorX& b) { return a.cwiseProduct(b.cwiseInverse()); }
VectorX x1(const VectorX& a, const VectorX& b) { return b.cwiseQuotient(a); }
}
namespace arrayabs {
double ref(const VectorX& a) { double s = 0; for (int i = 0; i < a.rows(); ++i) s += std::abs(a(i)); return s; }
double k1(const VectorX& a) { return a.cwiseAbs().sum(); }
double k2(const VectorX& a) { return a.array().abs().sum(); }
double k3(const VectorX& a) { double s = 0; int i = 0; while (i < a.rows()) { s += std::fabs(a(i)); ++i; } return s; }
double x1(const VectorX& a) { return a.sum(); }
}
namespace squares {
double ref(const VectorX& a) { double s = 0; for (int i = 0; i < a.rows(); ++i) s += a(i)*a(i); return s; }
double k1(const VectorX& a) { return a.squaredNorm(); }
double k2(const VectorX& a) { return a.dot(a); }
double k3(const VectorX& a) { return a.array().square().sum(); }
double k4(const VectorX& a) { return (a.transpose()*a)(0, 0); }
double k5(const VectorX& a) { return a.cwiseAbs2().sum(); }
double k6(const VectorX& a) { return a.cwiseProduct(a).sum(); }
double k7(const VectorX& a) { return (a.transpose()*a).value(); }
double x1(const VectorX& a) { return a.norm(); }
}
namespace norm2 {
double ref(const Vector2& a) { return std::sqrt(a(0)*a(0) + a(1)*a(1)); }
double k1(const Vector2& a) { return a.norm(); }
double k2(const Vector2& a) { return std::sqrt(a.squaredNorm()); }
double k3(const Vector2& a) { return std::sqrt(std::pow(a.x(), 2) + std::pow(a.y(), 2)); }
double k4(const Vector2& a) { return std::hypot(a.x(), a.y()); }
double k5(const Vector2& a) { return std::pow(a.squaredNorm(), 0.5); }
double x1(const Vector2& a) { return a.squaredNorm(); }
}
namespace normalize {
Vector2 ref(const Vector2& a) { return a/a.norm(); }
Vector2 k1(const Vector2& a) { return a.normalized(); }
Vector2 k2(const Vector2& a) { Vector2 b = a; b.normalize(); return b; }
Vector2 k3(const Vector2& a) { Vector2 b = a; b /= std::sqrt(a.squaredNorm()); return b; }
Vector2 x1(const Vector2& a) { return a; }
}
namespace comma {
VectorX ref(double a, double b, const VectorX& v) { VectorX r(v.size()+2); r(0) = a; r(1) = b; for (int i = 0; i < v.size(); ++i) r(i+2) = v(i); return r; }
VectorX k1(double a, double b, const VectorX& v) { VectorX r(v.size()+2); r << a, b, v; return r; }
VectorX k2(double a, double b, const VectorX& v) { VectorX r(v.size()+2); r << Vector2(a, b), v; return r; }
VectorX k3(double a, double b, const VectorX& v) { VectorX r(v.size()+2); r.head(2) << a, b; r.tail(v.size()) = v; return r; }
VectorX k4(double a, double b, const VectorX& v) { VectorX r(v.size()+2); r.segment<2>(0) = Vector2(a, b); r.tail(v.size()) << v; return r; }
VectorX x1(double a, double b, const VectorX& v) { VectorX r(v.size()+2); r << b, a, v; return r; }
VectorX x2(double a, double b, const VectorX& v) { VectorX r(v.size()+2); r << v, a, b; return r; }
}
namespace comma2 {
MatrixX ref(const MatrixX& a, const MatrixX& b) { MatrixX r(a.rows(), a.cols()+b.cols()); r.leftCols(a.cols()) = a; r.rightCols(b.cols()) = b; return r; }
MatrixX k1(const MatrixX& a, const MatrixX& b) { MatrixX r(a.rows(), a.cols()+b.cols()); r << a, b; return r; }
MatrixX k2(const MatrixX& a, const MatrixX& b) { MatrixX r = MatrixX::Zero(a.rows(), a.cols()+b.cols()); r.block(0, 0, a.rows(), a.cols()) += a; r.block(0, a.cols(), a.rows(), b.cols()) += b; return r; }
MatrixX x1(const MatrixX& a, const MatrixX& b) { MatrixX r(a.rows(), a.cols()+b.cols()); r << b, a; return r; }
}
namespace comma3 {
Eigen::Matrix2d ref(double t) { Eigen::Matrix2d r; r(0,0) = std::cos(t); r(0,1) = -std::sin(t); r(1,0) = std::sin(t); r(1,1) = std::cos(t); return r; }
Eigen::Matrix2d k1(double t) { Eigen::Matrix2d r; r << std::cos(t), -std::sin(t), std::sin(t), std::cos(t); return r; }
Eigen::Matrix2d k2(double t) { const double c = std::cos(t), s = std::sin(t); Eigen::Matrix2d r; r.row(0) << c, -s; r.row(1) << s, c; return r; }
Eigen::Matrix2d k3(double t) { const double c = std::cos(t), s = std::sin(t); Eigen::Matrix2d r; r.col(0) = Vector2(c, s); r.col(1) = Vector2(-s, c); return r; }
Eigen::Matrix2d k4(double t) { const double c = std::cos(t), s = std::sin(t); return (Eigen::Matrix2d() << c, -s, s, c).finished(); }
Eigen::Matrix2d x1(double t) { const double c = std::cos(t), s = std::sin(t); return (Eigen::Matrix2d() << c, s, -s, c).finished(); }
}
namespace lambda {
double ref(double a, double b) { return (a*a + 1)*b + (b*b + 1)*a; }
double k1(double a, double b) { auto f = [](double x) { return x*x + 1; }; return f(a)*b + f(b)*a; }
double k2(double a, double b) { double s = 0; auto add = [&](double x, double y) { s += (x*x + 1)*y; }; add(a, b); add(b, a); return s; }
double k3(double a, double b) { auto f = [&a](auto x) { return (x*x + 1)*a; }; return f(b) + (a*a + 1)*b; }
double k4(double a, double b) { std::function<double(double)> f = [](double x) { return x*x + 1; }; return f(a)*b + f(b)*a; }
double k5(double a, double b) { const auto f = [a](double x) -> double { if (x > 0) { return (x*x + 1)*a; } return a*(1 + x*x); }; return f(b) + (a*a + 1)*b; }
double x1(double a, double b) { auto f = [](double x) { return x*x + 1; }; return f(a)*b - f(b)*a; }
double x2(double a, double b) { double s = 0; auto add = [s](double x, double y) mutable { s += (x*x + 1)*y; return s; }; add(a, b); add(b, a); return s; }
}
namespace vecsum {
double ref(const std::vector<double>& v) { double s = 0; for (size_t i = 0; i < v.size(); ++i) s += v[i]; return s; }
double k1(const std::vector<double>& v) { double s = 0; for (double x : v) s += x; return s; }
double k2(const std::vector<double>& v) { return std::accumulate(v.begin(), v.end(), 0.0); }
double k3(const std::vector<double>& v) { double s = 0; for (std::vector<double>::const_iterator it = v.begin(); it != v.end(); ++it) s += *it; return s; }
double k4(const std::vector<double>& v) { double s = 0; std::for_each(v.begin(), v.end(), [&s](double x) { s += x; }); return s; }
double k5(const std::vector<double>& v) { double s = 0; for (auto it = v.cbegin(); it < v.cend(); it++) { s = *it + s; } return s; }
double k6(const std::vector<double>& v) { double s = 0; for (auto it = v.rbegin(); it != v.rend(); ++it) s += *it; return s; }
double k7(const std::vector<double>& v) { double s = 0; for (size_t i = v.size(); i > 0; --i) s += v[i-1]; return s; }
double k8(const std::vector<double>& v) { double s = 0; size_t i = 0; while (true) { if (i >= v.size()) break; s += v[i++]; } return s; }
double k9(const std::vector<double>& v) { double s = 0; if (!v.empty()) { size_t i = 0; do { s += v[i]; ++i; } while (i < v.size()); } return s; }
double x1(const std::vector<double>& v) { double s = 0; for (size_t i = 0; i + 1 < v.size(); ++i) s += v[i]; return s; }
double x2(const std::vector<double>& v) { return std::accumulate(v.begin(), v.end(), 1.0); }
double x3(const std::vector<double>& v) { double s = 0; for (double x : v) s = x; return s; }
}
namespace fill {
std::vector<double> ref(int n, double x) { std::vector<double> v(n); for (int i = 0; i < n; ++i) v[i] = x; return v; }
std::vector<double> k1(int n, double x) { return std::vector<double>(n, x); }
std::vector<double> k2(int n, double x) { std::vector<double> v(n); std::fill(v.begin(), v.end(), x); return v; }
std::vector<double> k3(int n, double x) { std::vector<double> v; v.resize(n, x); return v; }
std::vector<double> k4(int n, double x) { std::vector<double> v; v.reserve(n); for (int i = 0; i < n; ++i) v.push_back(x); return v; }
std::vector<double> k5(int n, double x) { std::vector<double> v; v.assign(n, x); return v; }
std::vector<double> k6(int n, double x) { std::vector<double> v(n); std::fill_n(v.begin(), n, x); return v; }
std::vector<double> k7(int n, double x) { std::vector<double> v(n); for (double& y : v) y = x; return v; }
std::vector<double> k8(int n, double x) { std::vector<double> v(n); for (auto it = v.begin(); it != v.end(); ++it) *it = x; return v; }
std::vector<double> x1(int n, double x) { std::vector<double> v(n); return v; }
}
namespace transform {
std::vector<double> ref(const std::vector<double>& a) { std::vector<double> v(a.size()); for (size_t i = 0; i < a.size(); ++i) v[i] = 2*a[i]; return v; }
std::vector<double> k1(const std::vector<double>& a) { std::vector<double> v(a); for (auto& x : v) x *= 2; return v; }
std::vector<double> k2(const std::vector<double>& a) { std::vector<double> v(a.size()); std::transform(a.begin(), a.end(), v.begin(), [](double x) { return x + x; }); return v; }
std::vector<double> k3(const std::vector<double>& a) { std::vector<double> v; std::transform(a.begin(), a.end(), std::back_inserter(v), [](double x) { return 2*x; }); return v; }
std::vector<double> k4(const std::vector<double>& a) { std::vector<double> v; for (const double& x : a) v.push_back(2*x); return v; }
std::vector<double> k5(const std::vector<double>& a) { std::vector<double> v(a.begin(), a.end()); for (size_t i = 0; i < v.size(); ++i) v.at(i) = v[i] + a[i]; return v; }
std::vector<double> x1(const std::vector<double>& a) { std::vector<double> v(a); return v; }
}
namespace copy {
std::vector<double> ref(const std::vector<double>& a) { return a; }
std::vector<double> k1(const std::vector<double>& a) { std::vector<double> v(a.size()); std::copy(a.begin(), a.end(), v.begin()); return v; }
std::vector<double> k2(const std::vector<double>& a) { std::vector<double> v; v.assign(a.begin(), a.end()); return v; }
std::vector<double> k3(const std::vector<double>& a) { std::vector<double> v; v.insert(v.end(), a.begin(), a.end()); return v; }
std::vector<double> k4(const std::vector<double>& a) { std::vector<double> v, w = a; v.swap(w); return v; }
std::vector<double> k5(const std::vector<double>& a) { std::vector<double> v, w = a; std::swap(v, w); return v; }
std::vector<double> k6(const std::vector<double>& a) { std::vector<double> w = a, v(std::move(w)); return v; }
std::vector<double> k7(const std::vector<double>& a) { std::vector<double> w = a, v; v = std::move(w); return v; }
}
namespace minmax {
double ref(double a, double b) { return a < b ? b - a : a - b; }
double k1(double a, double b) { return std::max(a, b) - std::min(a, b); }
double k2(double a, double b) { return std::abs(a - b); }
double k3(double a, double b) { return std::fabs(b - a); }
double k4(double a, double b) { const std::pair<double, double> p = std::minmax(a, b); return p.second - p.first; }
double k5(double a, double b) { if (a > b) { std::swap(a, b); } return b - a; }
double k6(double a, double b) { return std::max({a, b}) - std::min({a, b}); }
double x1(double a, double b) { return a - b; }
}
namespace clamp {
double ref(double x, double lo) { if (x < lo) return lo; if (x > lo + 1) return lo + 1; return x; }
double k1(double x, double lo) { return std::min(std::max(x, lo), lo + 1); }
double k2(double x, double lo) { double r = x; if (r < lo) r = lo; else if (r > lo + 1) r = lo + 1; return r; }
double k3(double x, double lo) { return x < lo ? lo : (x > lo + 1 ? lo + 1 : x); }
double x1(double x, double lo) { return std::max(x, lo); }
}
namespace looprev {
VectorX ref(const VectorX& a) { VectorX r(a.size()); for (int i = 0; i < a.size(); ++i) r(i) = i*a(i); return r; }
VectorX k1(const VectorX& a) { VectorX r(a.size()); for (int i = a.size() - 1; i >= 0; --i) r(i) = i*a(i); return r; }
VectorX k2(const VectorX& a) { VectorX r = VectorX::Zero(a.size()); int i = 0; do { if (i < a.size()) r(i) = i*a(i); i += 1; } while (i < a.size()); return r; }
VectorX k3(const VectorX& a) { VectorX r(a.size()); for (int i = 0;; ++i) { if (i == a.size()) break; r(i) = i*a(i); } return r; }
VectorX k4(const VectorX& a) { VectorX r(a.size()); for (int i = 0; i < a.size(); ++i) { if (i == 0) { r(i) = 0; continue; } r(i) = i*a(i); } return r; }
VectorX k5(const VectorX& a) { VectorX r(a.size()); for (int i = 1; i <= a.size(); ++i) r(i-1) = (i-1)*a(i-1); return r; }
VectorX k6(const VectorX& a) { VectorX r(a.size()); int n = a.size(); while (n--) r(n) = n*a(n); return r; }
VectorX k7(const VectorX& a) { return VectorX::LinSpaced(a.size(), 0, a.size() - 1).cwiseProduct(a); }
VectorX x1(const VectorX& a) { VectorX r = VectorX::Zero(a.size()); for (int i = 0; i < a.size() - 1; ++i) r(i) = i*a(i); return r; }
}
namespace step2 {
VectorX ref(const VectorX& a) { VectorX r(2*a.size()); for (int i = 0; i < a.size(); ++i) { r(2*i) = a(i); r(2*i+1) = -a(i); } return r; }
VectorX k1(const VectorX& a) { VectorX r(2*a.size()); for (int i = 0; i < a.size(); ++i) { r.segment(2*i, 2) << a(i), -a(i); } return r; }
VectorX k2(const VectorX& a) { VectorX r(2*a.size()); for (int i = 0; i < 2*a.size(); i += 2) { r(i) = a(i/2); r(i+1) = -a(i/2); } return r; }
VectorX k3(const VectorX& a) { VectorX r(2*a.size()); int j = 0; for (int i = 0; i < a.size(); ++i) { r(j++) = a(i); r(j++) = -a(i); } return r; }
VectorX k4(const VectorX& a) { VectorX r(2*a.size()); for (int i = 0; i < a.size(); ++i) r(2*i) = a(i); for (int i = 0; i < a.size(); ++i) r(2*i + 1) = -r(2*i); return r; }
VectorX x1(const VectorX& a) { VectorX r(2*a.size()); for (int i = 0; i < a.size(); ++i) { r(2*i) = a(i); r(2*i+1) = a(i); } return r; }
}
namespace matprod {
MatrixX ref(const MatrixX& a, const MatrixX& b) { return a.transpose()*b; }
MatrixX k1(const MatrixX& a, const MatrixX& b) { MatrixX r; r.noalias() = a.transpose()*b; return r; }
MatrixX k2(const MatrixX& a, const MatrixX& b) { return (b.transpose()*a).transpose(); }
MatrixX k3(const MatrixX& a, const MatrixX& b) { MatrixX r = MatrixX::Zero(a.cols(), b.cols()); for (int i = 0; i < a.cols(); ++i) for (int j = 0; j < b.cols(); ++j) r(i, j) = a.col(i).dot(b.col(j)); return r; }
MatrixX k4(const MatrixX& a, const MatrixX& b) { MatrixX r(a.cols(), b.cols()); for (int j = 0; j < b.cols(); ++j) r.col(j) = a.transpose()*b.col(j); return r; }
MatrixX k5(const MatrixX& a, const MatrixX& b) { MatrixX r = MatrixX::Zero(a.cols(), b.cols()); for (int i = 0; i < a.cols(); ++i) for (int j = 0; j < b.cols(); ++j) for (int k = 0; k < a.rows(); ++k) r(i, j) += a(k, i)*b(k, j); return r; }
MatrixX k6(const MatrixX& a, const MatrixX& b) { const auto at = a.transpose(); return at*b; }
MatrixX k7(const MatrixX& a, const MatrixX& b) { MatrixX c = a; MatrixX t = c.transpose().eval(); t *= b; return t; }
MatrixX k8(const MatrixX& a, const MatrixX& b) { return a.adjoint()*b; }
MatrixX x1(const MatrixX& a, const MatrixX& b) { return b.transpose()*a; }
}
namespace diag {
MatrixX ref(const VectorX& a) { MatrixX r = MatrixX::Zero(a.size(), a.size()); for (int i = 0; i < a.size(); ++i) r(i, i) = a(i); return r; }
MatrixX k1(const VectorX& a) { return a.asDiagonal(); }
MatrixX k2(const VectorX& a) { MatrixX r = MatrixX::Zero(a.size(), a.size()); r.diagonal() = a; return r; }
MatrixX k3(const VectorX& a) { MatrixX r; r.setZero(a.size(), a.size()); r.diagonal() += a; return r; }
MatrixX k4(const VectorX& a) { MatrixX r(a.size(), a.size()); r.setZero(); for (int i = 0; i < a.size(); ++i) r.row(i)(i) = a(i); return r; }
MatrixX x1(const VectorX& a) { return MatrixX::Identity(a.size(), a.size()); }
}
namespace trace {
double ref(const MatrixX& a) { double s = 0; for (int i = 0; i < a.rows(); ++i) s += a(i, 0)*a(i, 0); return s; }
double k1(const MatrixX& a) { return a.col(0).squaredNorm(); }
double k2(const MatrixX& a) { return (a.col(0)*a.col(0).transpose()).trace(); }
double k3(const MatrixX& a) { return a.leftCols<1>().squaredNorm(); }
double k4(const MatrixX& a) { return a.leftCols(1).cwiseAbs2().sum(); }
double x1(const MatrixX& a) { return a.col(0).sum(); }
}
namespace sums {
VectorX ref(const MatrixX& a) { VectorX r = VectorX::Zero(a.rows()); for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) r(i) += a(i, j); return r; }
VectorX k1(const MatrixX& a) { return a.rowwise().sum(); }
VectorX k2(const MatrixX& a) { return a*VectorX::Ones(a.cols()); }
VectorX k3(const MatrixX& a) { VectorX r(a.rows()); for (int i = 0; i < a.rows(); ++i) r(i) = a.row(i).sum(); return r; }
VectorX x1(const MatrixX& a) { return 2*(a*VectorX::Ones(a.cols())); }
}
namespace sw {
int ref(int k, int n) { if (k == 0) return n; if (k == 1) return n + 1; return 2*n; }
int k1(int k, int n) { switch (k) { case 0: return n; case 1: return n + 1; default: return 2*n; } }
int k2(int k, int n) { int r = 2*n; switch (k) { case 0: r = n; break; case 1: r = n + 1; break; } return r; }
int k3(int k, int n) { return k == 0 ? n : k == 1 ? n + 1 : n*2; }
int k4(int k, int n) { int r = n; if (k != 0) { if (k != 1) r += n; else ++r; } return r; }
int k5(int k, int n) { if (k == 0 || k == 1) { return n + k; } else { return n << 1; } }
int x1(int k, int n) { switch (k) { case 0: return n; case 1: default: return 2*n; } }
}
namespace boolx {
bool ref(double a, double b) { return a < b && b < 3; }
bool k1(double a, double b) { if (!(a < b)) return false; return b < 3; }
bool k2(double a, double b) { return !(a >= b || b >= 3); }
bool k3(double a, double b) { bool r = true; r = r && a < b; r &= b < 3; return r; }
bool k4(double a, double b) { const bool u = b > a, v = 3 > b; return u & v; }
bool k5(double a, double b) { return a < b ? b < 3 : false; }
bool k6(double a, double b) { return (a - b < 0) != (b >= 3) ? a < b : false; }
bool x1(double a, double b) { return a < b || b < 3; }
}
namespace find {
int ref(const std::vector<double>& v, double x) { for (size_t i = 0; i < v.size(); ++i) { if (v[i] == x) return (int)i; } return -1; }
int k1(const std::vector<double>& v, double x) { int r = -1; for (size_t i = 0; i < v.size(); ++i) { if (v[i] == x) { r = i; break; } } return r; }
int k2(const std::vector<double>& v, double x) { size_t i = 0; while (i < v.size() && v[i] != x) ++i; return i < v.size() ? (int)i : -1; }
int k3(const std::vector<double>& v, double x) { auto it = std::find(v.begin(), v.end(), x); return it == v.end() ? -1 : (int)(it - v.begin()); }
int k4(const std::vector<double>& v, double x) { auto it = std::find_if(v.begin(), v.end(), [x](double y) { return y == x; }); if (it == v.end()) return -1; return (int)std::distance(v.begin(), it); }
int x1(const std::vector<double>& v, double x) { for (size_t i = 0; i < v.size(); ++i) { if (v[i] == x) return (int)i + 1; } return -1; }
}
namespace anyof {
bool ref(const std::vector<double>& v, double x) { for (size_t i = 0; i < v.size(); ++i) { if (v[i] > x) return true; } return false; }
bool k1(const std::vector<double>& v, double x) { bool r = false; for (double y : v) { if (y > x) r = true; } return r; }
bool k2(const std::vector<double>& v, double x) { return std::any_of(v.begin(), v.end(), [&](double y) { return y > x; }); }
bool k3(const std::vector<double>& v, double x) { bool r = false; for (double y : v) r = r || y > x; return r; }
bool k4(const std::vector<double>& v, double x) { return !std::all_of(v.begin(), v.end(), [&](double y) { return y <= x; }); }
bool k5(const std::vector<double>& v, double x) { return !std::none_of(v.begin(), v.end(), [&](double y) { return y > x; }); }
bool x1(const std::vector<double>& v, double x) { return std::all_of(v.begin(), v.end(), [&](double y) { return y > x; }); }
}
namespace maxel {
double ref(const std::vector<double>& v) { if (v.empty()) return 0; double m = v[0]; for (size_t i = 1; i < v.size(); ++i) if (v[i] > m) m = v[i]; return m; }
double k1(const std::vector<double>& v) { if (v.empty()) return 0; double m = v[0]; for (size_t i = 1; i < v.size(); ++i) m = std::max(m, v[i]); return m; }
double k2(const std::vector<double>& v) { if (v.empty()) return 0; return *std::max_element(v.begin(), v.end()); }
double k3(const std::vector<double>& v) { if (v.empty()) return 0; double m = v.front(); for (double x : v) { m = x > m ? x : m; } return m; }
double x1(const std::vector<double>& v) { if (v.empty()) return 0; double m = v[0]; for (size_t i = 1; i < v.size(); ++i) if (v[i] < m) m = v[i]; return m; }
}
namespace structs {
struct P { double x, y; P() : x(0), y(0) {} P(double a, double b) : x(a), y(b) {} P operator+(const P& o) const { return P(x + o.x, y + o.y); } double sum() const { return x + y; } };
double ref(double a, double b) { return a + 2*b; }
double k1(double a, double b) { P p(a, b), q(b, 0); return (p + q).sum(); }
double k2(double a, double b) { P p; p.x = a; p.y = b; P q = p; q.y += b; return q.sum(); }
double k3(double a, double b) { std::vector<P> v; v.push_back(P(a, b)); v.emplace_back(b, 0); double s = 0; for (const P& p : v) s += p.sum(); return s; }
double k4(double a, double b) { P p(a, b); P* q = &p; q->y *= 2; return p.sum(); }
double k5(double a, double b) { const std::pair<double, double> p(a, 2*b); return p.first + p.second; }
double k6(double a, double b) { auto p = std::make_pair(a, b); p.second *= 2; return p.first + p.second; }
double k7(double a, double b) { double v[2] = {a, 2*b}; return v[0] + v[1]; }
double k8(double a, double b) { std::array<double, 2> v = {{a, 2*b}}; return v[0] + v[1]; }
double k9(double a, double b) { std::vector<double> v = {a, b, b}; double s = 0; for (double x : v) s += x; return s; }
double k10(double a, double b) { P p{a, b}; std::vector<P> v(2, p); v[0].x = 0; return v[0].sum() + v[1].sum(); }
double k11(double a, double b) { static const double two = 2.0; return a + two*b; }
double k12(double a, double b) { enum { A = 2 }; constexpr int two = A; return a + two*b; }
double x1(double a, double b) { P p(a, b), q(b, 1); return (p + q).sum(); }
}
namespace ptrs {
double ref(double a, double b) { double x = a, y = b; if (a < 0) x += 1; else y += 1; return 2*x + y; }
double k1(double a, double b) { double x = a, y = b; double* p = a < 0 ? &x : &y; *p += 1; return 2*x + y; }
double k2(double a, double b) { double x = a, y = b; double& p = a < 0 ? x : y; p += 1; return 2*x + y; }
void inc(double& v) { v += 1; }
double k3(double a, double b) { double x = a, y = b; inc(a < 0 ? x : y); return 2*x + y; }
double x1(double a, double b) { double x = a, y = b; inc(y); return 2*x + y; }
}
namespace blockloop {
MatrixX ref(const MatrixX& a, int n) { MatrixX r = MatrixX::Zero(2*n, 2*n); r.block(0, 0, n, n) = a.block(0, 0, n, n); r.block(n, n, n, n) = a.block(0, 0, n, n); return r; }
MatrixX k1(const MatrixX& a, int n) { MatrixX r = MatrixX::Zero(2*n, 2*n); for (int k = 0; k < 2; ++k) r.block(k*n, k*n, n, n) = a.topLeftCorner(n, n); return r; }
MatrixX k2(const MatrixX& a, int n) { MatrixX r(2*n, 2*n); r.fill(0); r.topLeftCorner(n, n) = a.topLeftCorner(n, n); r.bottomRightCorner(n, n) = r.topLeftCorner(n, n); return r; }
MatrixX k3(const MatrixX& a, int n) { const auto b = a.block(0, 0, n, n); MatrixX r = MatrixX::Zero(2*n, 2*n); r.topRows(n).leftCols(n) = b; r.bottomRows(n).rightCols(n) = b; return r; }
MatrixX k4(const MatrixX& a, int n) { MatrixX r = MatrixX::Zero(2*n, 2*n); Eigen::Ref<MatrixX> t = r.topLeftCorner(n, n); t = a.block(0, 0, n, n); Eigen::Block<MatrixX> q(r, n, n, n, n); q = a.block(0, 0, n, n); return r; }
MatrixX k5(const MatrixX& a, int n) { MatrixX z = MatrixX::Zero(n, n), b = a.topLeftCorner(n, n); MatrixX r(2*n, 2*n); r << b, z, z, b; return r; }
MatrixX x1(const MatrixX& a, int n) { MatrixX r = MatrixX::Zero(2*n, 2*n); r.topLeftCorner(n, n) = a.topLeftCorner(n, n); return r; }
}
namespace selectx {
VectorX ref(const VectorX& a) { VectorX r(a.size()); for (int i = 0; i < a.size(); ++i) r(i) = a(i) > 0 ? a(i) : 0; return r; }
VectorX k1(const VectorX& a) { return a.cwiseMax(0); }
VectorX k2(const VectorX& a) { return (a.array() > 0).select(a, 0.0); }
VectorX k3(const VectorX& a) { return a.array().max(0.0); }
VectorX k4(const VectorX& a) { return a.unaryExpr([](double x) { return x > 0 ? x : 0.0; }); }
VectorX x1(const VectorX& a) { return a; }
}
namespace inpl {
void ref(VectorX& a, double k) { a = a*k + VectorX::Ones(a.size()); }
void k1(VectorX& a, double k) { a *= k; a += VectorX::Ones(a.size()); }
void k2(VectorX& a, double k) { for (int i = 0; i < a.size(); ++i) { a(i) *= k; a(i) += 1; } }
void k3(VectorX& a, double k) { a = (k*a.array() + 1).matrix(); }
void k4(VectorX& a, double k) { VectorX b(a); b *= k; for (int i = 0; i < b.size(); ++i) ++b(i); a.swap(b); }
void x1(VectorX& a, double k) { a *= k; }
}
namespace angle {
double ref(const Vector2& a, const Vector2& b) { return std::acos(a.dot(b)/(a.norm()*b.norm())); }
double k1(const Vector2& a, const Vector2& b) { return std::acos(a.normalized().dot(b.normalized())); }
double k2(const Vector2& a, const Vector2& b) { const double c = (a.transpose()*b)(0)/a.norm(); return std::acos(c/b.norm()); }
double x1(const Vector2& a, const Vector2& b) { return std::acos(a.dot(b)); }
}
namespace power {
double ref(double t) { return t*t*t/6; }
double k1(double t) { return std::pow(t, 3)/6; }
double k2(double t) { return std::pow(t, 3.0)*(1.0/6.0); }
double k3(double t) { const double t2 = t*t; return t2*t/6.; }
double k4(double t) { double p = 1; for (int i = 0; i < 3; ++i) p *= t; return p/6; }
double k5(double t) { return std::pow(t, 2)*t/(2*3); }
double x1(double t) { return t*t/6; }
}
namespace intdiv {
int ref(int n) { return n%2 == 0 ? n/2 : (n - 1)/2 ; }
int k1(int n) { if (n%2 != 0) return (n - 1)/2; return n/2; }
int k2(int n) { const bool odd = n%2; return odd ? (n - 1)/2 : n/2; }
int x1(int n) { return n; }
}
namespace early {
double ref(double a, bool u, bool v) { double r = a; if (u) { if (v) r = 1; else r = 2; } return r; }
double k1(double a, bool u, bool v) { if (!u) return a; if (v) return 1; return 2; }
double k2(double a, bool u, bool v) { return u ? (v ? 1 : 2) : a; }
double k3(double a, bool u, bool v) { double r = a; if (u && v) r = 1; else if (u) r = 2; return r; }
double k4(double a, bool u, bool v) { do { if (!u) break; a = v ? 1 : 2; } while (false); return a; }
double x1(double a, bool u, bool v) { if (!u) return a; return 2; }
}
