// Reference semantics of the vector and matrix operators.
#include "assume.hh"
#include <dynamic-graph/all-signals.h>
#include <dynamic-graph/entity.h>
#include <dynamic-graph/linear-algebra.h>
#include <deque>
#include <stdexcept>
#include <vector>
#include <sot/core/matrix-geometry.hh>
namespace spec {
using dynamicgraph::Vector;
using dynamicgraph::Matrix;
using dynamicgraph::SignalPtr;
using dynamicgraph::SignalTimeDependent;
using dynamicgraph::Entity;
using namespace dynamicgraph::sot;
template <typename A, typename B> struct Unary { typedef A Tin; typedef B Tout; };
template <typename A, typename B, typename C> struct Binary { typedef A Tin1; typedef B Tin2; typedef C Tout; };

// the segments, one after the other
struct VectorSelecter : Unary<Vector, Vector> {
  typedef std::pair<Vector::Index, Vector::Index> segment_t;
  std::vector<segment_t> idxs; Vector::Index size;
  VectorSelecter() : size(0) {}
  void setBounds(const int& m, const int& M) { idxs.clear(); idxs.push_back(segment_t(m, M - m)); size = M - m; }
  void addBounds(const int& m, const int& M) { idxs.push_back(segment_t(m, M - m)); size = size + (M - m); }
};
struct VectorComponent : Unary<Vector, double> {
  int index;
  void setIndex(const int& m) { index = m; }
  void valid_op_(const Vector& v) const { assume_in(index, 0, v.size()); }
  void operator()(const Vector& v, double& r) const { r = v(index); }
};
struct MatrixSelector : Unary<Matrix, Matrix> {
  int imin, imax, jmin, jmax;
  void setBoundsRow(const int& m, const int& M) { imin = m; imax = M; }
  void setBoundsCol(const int& m, const int& M) { jmin = m; jmax = M; }
  void operator()(const Matrix& m, Matrix& r) const { r = m.block(imin, jmin, imax - imin, jmax - jmin); }
};
struct MatrixColumnSelector : Unary<Matrix, Vector> {
  int imin, imax, jcol;
  void setBoundsRow(const int& m, const int& M) { imin = m; imax = M; }
  void selectCol(const int& m) { jcol = m; }
  void operator()(const Matrix& m, Vector& r) const {
    Vector x(imax - imin);
    for (int i = 0; i < imax - imin; i++) x(i) = m(imin + i, jcol);
    r = x;
  }
};
struct MatrixTranspose : Unary<Matrix, Matrix> {
  void operator()(const Matrix& m, Matrix& r) const {
    Matrix x(m.cols(), m.rows());
    for (int i = 0; i < m.cols(); i++) for (int j = 0; j < m.rows(); j++) x(i, j) = m(j, i);
    r = x;
  }
};
struct Diagonalizer : Unary<Vector, Matrix> {
  unsigned int nbr, nbc;
  Diagonalizer() : nbr(0), nbc(0) {}
  void resize(const int& r, const int& c) { nbr = r; nbc = c; }
  void operator()(const Vector& v, Matrix& r) {
    r = Matrix::Zero(v.size(), v.size());
    for (int i = 0; i < v.size(); i++) r(i, i) = v(i);
  }
};
struct Normalize : Unary<Vector, double> {
  void operator()(const Vector& v, double& r) const { r = v.norm(); }
};
template <typename F, typename E> struct Multiplier_FxE__E : Binary<F, E, E> {
  void operator()(const F& f, const E& e, E& r) const { r = f * e; }
};
template <> struct Multiplier_FxE__E<MatrixHomogeneous, Vector> : Binary<MatrixHomogeneous, Vector, Vector> {
  void operator()(const MatrixHomogeneous& f, const Vector& e, Vector& r) const { r = f.matrix() * e; }
};
template struct Multiplier_FxE__E<double, Vector>;
template struct Multiplier_FxE__E<Matrix, Vector>;
template struct Multiplier_FxE__E<MatrixTwist, Vector>;
template <typename T> struct Substraction : Binary<T, T, T> {
  void operator()(const T& a, const T& b, T& r) const { r = a - b; }
};
template struct Substraction<double>;
template struct Substraction<Vector>;
template struct Substraction<Matrix>;
struct VectorStack : Binary<Vector, Vector, Vector> {
  int v1min, v1max, v2min, v2max;
  void selec1(const int& m, const int M) { v1min = m; v1max = M; }
  void selec2(const int& m, const int M) { v2min = m; v2max = M; }
  void operator()(const Vector& a, const Vector& b, Vector& r) const {
    int n = v1max - v1min, m = v2max - v2min;
    Vector x(n + m);
    for (int i = 0; i < n + m; i++) x(i) = i < n ? a(v1min + i) : b(v2min + i - n);
    r = x;
  }
};
struct Composer : Binary<Matrix, Vector, MatrixHomogeneous> {
  void operator()(const Matrix& R, const Vector& t, MatrixHomogeneous& H) const {
    for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) H(i, j) = R(i, j); H(i, 3) = t(i); }
  }
};
// the samples of the last cols(m) steps, most recent first
struct ConvolutionTemporal : Binary<Vector, Matrix, Vector> {
  std::deque<Vector> memory;
  void operator()(const Vector& v, const Matrix& m, Vector& res) {
    memory.push_front(v);
    while ((int)memory.size() > m.cols()) memory.pop_back();
    convolution(memory, m, res);
  }
  void valid_convolution_(const std::deque<Vector>& f, const Matrix& w, Vector& res) { assume((int)f.size() <= w.cols()); }
  void convolution(const std::deque<Vector>& f, const Matrix& w, Vector& res) {
    for (unsigned int j = 0; j < f.size(); j++) if (f[j].size() != w.rows()) throw std::invalid_argument("");
    Vector r = Vector::Zero(w.rows());
    for (unsigned int j = 0; j < f.size(); j++) for (int i = 0; i < w.rows(); i++) r(i) += w(i, j) * f[j](i);
    res = r;
  }
};
template <typename T> struct Comparison : Binary<T, T, bool> {
  void operator()(const T& a, const T& b, bool& r) const { r = a < b; }
};
template struct Comparison<double>;
template <typename A, typename B = A> struct MatrixComparison : Binary<A, B, bool> {
  bool any, equal;
  MatrixComparison() : any(true), equal(false) {}
  void operator()(const A& a, const B& b, bool& r) const {
    bool some = false, all = true;
    for (int i = 0; i < a.size(); i++) {
      bool x = equal ? a(i) <= b(i) : a(i) < b(i);
      some = some || x;
      all = all && x;
    }
    r = any ? some : all;
  }
};
template struct MatrixComparison<Vector>;
template <typename T> struct WeightedAdder : Binary<T, T, T> {
  double gain1, gain2;
  void operator()(const T& a, const T& b, T& r) const { r = gain1 * a + gain2 * b; }
};
template struct WeightedAdder<double>;
template struct WeightedAdder<Vector>;
template struct WeightedAdder<Matrix>;
template <typename T> bool same_(const std::vector<const T*>& vs) {
  bool ok = true;
  for (std::size_t i = 1; i < vs.size(); i++) ok = ok && vs[i]->rows() == vs[0]->rows() && vs[i]->cols() == vs[0]->cols();
  return ok;
}
struct VectorMix {
  struct segment_t { Vector::Index index, size, input; std::size_t sigIdx; 
    segment_t(Vector::Index i, Vector::Index s, std::size_t k) : index(i), size(s), sigIdx(k) {} };
  std::vector<segment_t> idxs;
  void valid_op_(const std::vector<const Vector*>& vs, Vector& res) const {
    bool ok = vs.size() > 0;
    for (std::size_t k = 0; k < idxs.size(); k++)
      ok = ok && idxs[k].index >= 0 && idxs[k].size >= 0 && idxs[k].index + idxs[k].size <= vs[0]->size() &&
           (idxs[k].sigIdx >= vs.size() || idxs[k].size == vs[idxs[k].sigIdx]->size());
    assume(ok);
  }
  void operator()(const std::vector<const Vector*>& vs, Vector& res) const {
    Vector r = *vs[0];
    for (std::size_t k = 0; k < idxs.size(); k++) {
      if (idxs[k].sigIdx >= vs.size()) throw std::invalid_argument("");
      for (int i = 0; i < idxs[k].size; i++) r(idxs[k].index + i) = (*vs[idxs[k].sigIdx])(i);
    }
    res = r;
  }
  void addSelec(const int& sigIdx, const int& i, const int& s) { idxs.push_back(segment_t(i, s, sigIdx)); }
};
template <typename T> struct AdderVariadic : Unary<T, T> {
  Vector coeffs;
  AdderVariadic() : coeffs() {}
  void operator()(const std::vector<const T*>& vs, T& res) const {
    if (vs.size() == 0) return;
    T r = coeffs[0] * *vs[0];
    for (std::size_t i = 1; i < vs.size(); i++) r = r + coeffs[i] * *vs[i];
    res = r;
  }
  void updateSignalNumber(const int& n) { coeffs = Vector::Constant(n, 1.); }
};
template struct AdderVariadic<double>;
template struct AdderVariadic<Vector>;
template struct AdderVariadic<Matrix>;
// the product in order; of nothing: the identity
template <typename T> struct Multiplier : Unary<T, T> {
  void operator()(const std::vector<const T*>& vs, T& res) const {
    if (vs.size() == 0) { res.setIdentity(); return; }
    T r = *vs[0];
    for (std::size_t i = 1; i < vs.size(); i++) r = r * *vs[i];
    res = r;
  }
};
template <> struct Multiplier<double> {
  void operator()(const std::vector<const double*>& vs, double& res) const {
    res = 1;
    for (std::size_t i = 0; i < vs.size(); i++) res = res * *vs[i];
  }
};
template <> struct Multiplier<Vector> {
  void valid_op_(const std::vector<const Vector*>& vs, Vector& res) const { assume(same_(vs)); }
  void operator()(const std::vector<const Vector*>& vs, Vector& res) const {
    if (vs.size() == 0) { res.resize(0); return; }
    Vector r = *vs[0];
    for (std::size_t k = 1; k < vs.size(); k++) for (int i = 0; i < r.size(); i++) r(i) = r(i) * (*vs[k])(i);
    res = r;
  }
};
template struct Multiplier<Matrix>;
template struct Multiplier<MatrixRotation>;
template struct Multiplier<MatrixHomogeneous>;
template struct Multiplier<MatrixTwist>;
template struct Multiplier<VectorQuaternion>;
template <int operation> struct BoolOp : Unary<bool, bool> {
  void operator()(const std::vector<const bool*>& vs, bool& res) const {
    bool r = operation == 0;
    for (std::size_t i = 0; i < vs.size(); i++) r = operation == 0 ? r && *vs[i] : r || *vs[i];
    res = r;
  }
};
template struct BoolOp<0>;
template struct BoolOp<1>;
// an operator entity applies its operator to its inputs in order, at the time of the request
template <typename Op> struct UnaryOp {
  typedef typename Op::Tin Tin; typedef typename Op::Tout Tout;
  Op op; SignalPtr<Tin, int> SIN; SignalTimeDependent<Tout, int> SOUT;
  UnaryOp(const std::string& name);
  Tout& computeOperation(Tout& res, int time) { const Tin& x = SIN(time); op(x, res); return res; }
};
template struct UnaryOp<MatrixTranspose>;
template struct UnaryOp<Diagonalizer>;
template struct UnaryOp<Normalize>;
template <typename Op> struct BinaryOp {
  typedef typename Op::Tin1 Tin1; typedef typename Op::Tin2 Tin2; typedef typename Op::Tout Tout;
  Op op; SignalPtr<Tin1, int> SIN1; SignalPtr<Tin2, int> SIN2; SignalTimeDependent<Tout, int> SOUT;
  BinaryOp(const std::string& name);
  Tout& computeOperation(Tout& res, int time) { const Tin1& a = SIN1(time); const Tin2& b = SIN2(time); op(a, b, res); return res; }
};
template struct BinaryOp<Substraction<Vector>>;
template struct BinaryOp<Substraction<double>>;
template struct BinaryOp<Composer>;
template struct BinaryOp<Comparison<double>>;
template <typename Tin, typename Tout, typename Time> struct VariadicAbstract : Entity {
  typedef SignalPtr<Tin, int> signal_t;
  SignalTimeDependent<Tout, int> SOUT;
  std::vector<signal_t*> signalsIN;
  VariadicAbstract(const std::string& name, const std::string& className);
  int getSignalNumber() const { return (int)signalsIN.size(); }
  signal_t* getSignalIn(int i) {
    if (i < 0 || i >= (int)signalsIN.size()) throw std::out_of_range("");
    return signalsIN[i];
  }
};
template struct VariadicAbstract<Vector, Vector, int>;
template <typename Op> struct VariadicOp : VariadicAbstract<typename Op::Tin, typename Op::Tout, int> {
  typedef typename Op::Tin Tin; typedef typename Op::Tout Tout;
  Op op;
  VariadicOp(const std::string& name);
  Tout& computeOperation(Tout& res, int time) {
    std::vector<const Tin*> in;
    for (std::size_t i = 0; i < this->signalsIN.size(); i++) in.push_back(&this->signalsIN[i]->access(time));
    op(in, res);
    return res;
  }
};
template struct VariadicOp<AdderVariadic<double>>;
template struct VariadicOp<Multiplier<Matrix>>;
template struct VariadicOp<BoolOp<0>>;
}
