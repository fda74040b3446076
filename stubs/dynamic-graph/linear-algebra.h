#ifndef VSTUB_DG_LA
#define VSTUB_DG_LA
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/LU>
#include <boost/function.hpp>
#include <boost/bind.hpp>
namespace dynamicgraph {
typedef Eigen::MatrixXd Matrix;
typedef Eigen::VectorXd Vector;
typedef Eigen::Transform<double, 3, Eigen::Affine> Matrix4dAffine_;
}
#endif
