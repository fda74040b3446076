#ifndef VSTUB_DG_VALUE
#define VSTUB_DG_VALUE
#include <dynamic-graph/linear-algebra.h>
#include <dynamic-graph/exception-abstract.h>
#include <boost/any.hpp>
namespace dynamicgraph {
namespace command {
class Value;
typedef std::vector<Value> Values;
class EitherType {
 public:
  EitherType(const Value &v);
  ~EitherType();
  EitherType(const EitherType &o);
  operator bool() const;
  operator unsigned() const;
  operator int() const;
  operator float() const;
  operator double() const;
  operator std::string() const;
  operator dynamicgraph::Vector() const;
  operator Eigen::MatrixXd() const;
  operator Eigen::Matrix4d() const;
  operator Values() const;
 private:
  const Value *value_;
};
class Value {
 public:
  enum Type { NONE, BOOL, UNSIGNED, INT, FLOAT, DOUBLE, STRING, VECTOR, MATRIX, MATRIX4D, VALUES, NB_TYPES };
  ~Value() {}
  explicit Value(const bool &v) : type_(BOOL), a_(v) {}
  explicit Value(const unsigned &v) : type_(UNSIGNED), a_(v) {}
  explicit Value(const int &v) : type_(INT), a_(v) {}
  explicit Value(const float &v) : type_(FLOAT), a_(v) {}
  explicit Value(const double &v) : type_(DOUBLE), a_(v) {}
  explicit Value(const std::string &v) : type_(STRING), a_(v) {}
  explicit Value(const Vector &v) : type_(VECTOR), a_(v) {}
  explicit Value(const Eigen::MatrixXd &v) : type_(MATRIX), a_(v) {}
  explicit Value(const Eigen::Matrix4d &v) : type_(MATRIX4D), a_(v) {}
  explicit Value(const Values &v) : type_(VALUES), a_(v) {}
  Value() : type_(NONE) {}
  Type type() const { return type_; }
  const EitherType value() const { return EitherType(*this); }
  const Values constValuesValue() const { return boost::any_cast<Values>(a_); }
  static std::string typeName(Type) { return ""; }
  template <class T> T as_() const { return boost::any_cast<T>(a_); }
 private:
  Type type_;
  boost::any a_;
};
inline EitherType::EitherType(const Value &v) : value_(new Value(v)) {}
inline EitherType::~EitherType() { delete value_; }
inline EitherType::EitherType(const EitherType &o) : value_(new Value(*o.value_)) {}
inline EitherType::operator bool() const { return value_->as_<bool>(); }
inline EitherType::operator unsigned() const { return value_->type() == Value::INT ? (unsigned)value_->as_<int>() : value_->as_<unsigned>(); }
inline EitherType::operator int() const { return value_->as_<int>(); }
inline EitherType::operator float() const { return value_->as_<float>(); }
inline EitherType::operator double() const { return value_->as_<double>(); }
inline EitherType::operator std::string() const { return value_->as_<std::string>(); }
inline EitherType::operator Vector() const { return value_->as_<Vector>(); }
inline EitherType::operator Eigen::MatrixXd() const { return value_->as_<Eigen::MatrixXd>(); }
inline EitherType::operator Eigen::Matrix4d() const { return value_->as_<Eigen::Matrix4d>(); }
inline EitherType::operator Values() const { return value_->as_<Values>(); }
template <class T> struct ValueHelper { static const Value::Type TypeID = Value::NONE; };
#define VSTUB_VH(T, I) template <> struct ValueHelper<T> { static const Value::Type TypeID = Value::I; };
VSTUB_VH(bool, BOOL) VSTUB_VH(unsigned, UNSIGNED) VSTUB_VH(int, INT) VSTUB_VH(float, FLOAT) VSTUB_VH(double, DOUBLE)
VSTUB_VH(std::string, STRING) VSTUB_VH(Vector, VECTOR) VSTUB_VH(Eigen::MatrixXd, MATRIX) VSTUB_VH(Eigen::Matrix4d, MATRIX4D) VSTUB_VH(Values, VALUES)
}
}
#endif
