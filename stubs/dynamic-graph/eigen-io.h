#ifndef VSTUB_DG_EIO
#define VSTUB_DG_EIO
#include <dynamic-graph/linear-algebra.h>
#include <boost/format.hpp>
#include <boost/numeric/conversion/cast.hpp>
#include <dynamic-graph/exception-abstract.h>
#include <stdexcept>
namespace Eigen {
inline std::istringstream &operator>>(std::istringstream &iss, dynamicgraph::Vector &inst) {
  unsigned int _size; char _ch; double v;
  iss >> _ch >> _size >> _ch >> _ch;
  inst.resize(_size);
  for (unsigned i = 0; i < _size; ++i) { iss >> v; inst(i) = v; iss >> _ch; }
  return iss;
}
template <typename Derived>
inline std::istringstream &operator>>(std::istringstream &iss, DenseBase<Derived> &) { return iss; }
inline std::ostream &operator<<(std::ostream &os, Transform<double, 3, Affine> MH) { os << MH.matrix(); return os; }
template <typename Scalar, int Mode>
inline std::istringstream &operator>>(std::istringstream &iss, Transform<Scalar, 3, Mode> &MH) { return iss >> MH.matrix(); }
inline std::istringstream &operator>>(std::istringstream &iss, Quaternion<double> &) { return iss; }
inline std::istringstream &operator>>(std::istringstream &iss, AngleAxis<double> &) { return iss; }
inline std::ostream &operator<<(std::ostream &os, AngleAxis<double> quat) { os << quat.angle() << quat.axis(); return os; }
inline std::ostream &operator<<(std::ostream &os, Quaternion<double> quat) { os << quat.coeffs(); return os; }
}
#endif
