// Reference semantics of the linear filters.
#include "assume.hh"
#include <Eigen/Core>
#include <dynamic-graph/all-signals.h>
#include <dynamic-graph/exception-signal.h>
#include <Eigen/Geometry>
#include <string>
#include <vector>
namespace spec {
typedef Eigen::VectorXd Vector;
typedef Eigen::MatrixXd Matrix;
// a0 y[N] = sum_k b_k x[N-k] - sum_{k>0} a_k y[N-k]
class CausalFilter {
 public:
  double m_dt; int m_x_size;
  Eigen::VectorXd::Index m_filter_order_m, m_filter_order_n;
  Eigen::VectorXd m_filter_numerator, m_filter_denominator;
  bool m_first_sample; int m_pt_numerator, m_pt_denominator;
  Eigen::MatrixXd m_input_buffer, m_output_buffer;
  void valid_() const {
    assume_eq(m_x_size, m_input_buffer.rows());
    assume_eq(m_output_buffer.rows(), m_input_buffer.rows());
    assume_eq(m_filter_order_m, m_input_buffer.cols());
    assume_eq(m_filter_order_n, m_output_buffer.cols() + 1);
    assume_eq(m_filter_numerator.size(), m_input_buffer.cols());
    assume_eq(m_filter_denominator.size(), m_output_buffer.cols() + 1);
    assume(m_input_buffer.cols() >= 1);
    assume(m_output_buffer.cols() >= 1);
    assume_in(m_pt_numerator, 0, m_input_buffer.cols());
    assume_in(m_pt_denominator, 0, m_output_buffer.cols());
  }
  CausalFilter(const double& timestep, const int& xSize, const Eigen::VectorXd& num, const Eigen::VectorXd& den)
    : m_dt(timestep), m_x_size(xSize), m_filter_order_m(num.size()), m_filter_order_n(den.size()),
      m_filter_numerator(num), m_filter_denominator(den), m_first_sample(true), m_pt_numerator(0), m_pt_denominator(0),
      m_input_buffer(Eigen::MatrixXd::Zero(xSize, num.size())), m_output_buffer(Eigen::MatrixXd::Zero(xSize, den.size() - 1)) {}
  void valid_ctor_(const double& timestep, const int& xSize, const Eigen::VectorXd& num, const Eigen::VectorXd& den) {
    assume(xSize >= 0); assume(den.size() >= 1); assume(num.size() >= 1);
  }
  void valid_get_x_dx_ddx_(const Eigen::VectorXd& x, Eigen::VectorXd& out) {
    assume_eq(x.size(), m_input_buffer.rows());
    assume_eq(out.size(), 3 * m_input_buffer.rows());
    // the second difference needs two stored outputs
    assume(m_output_buffer.cols() >= 2);
  }
  void get_x_dx_ddx(const Eigen::VectorXd& x, Eigen::VectorXd& out) {
    int m = m_filter_order_m, n = m_filter_order_n - 1;
    if (m_first_sample) {
      // steady state for the first sample
      double gain = m_filter_numerator.sum() / m_filter_denominator.sum();
      for (int i = 0; i < m; i++) m_input_buffer.col(i) = x;
      for (int i = 0; i < n; i++) m_output_buffer.col(i) = x * gain;
      m_first_sample = false;
    }
    m_input_buffer.col(m_pt_numerator) = x;
    int last = m_pt_denominator, last2 = m_pt_denominator == 0 ? n - 1 : m_pt_denominator - 1;
    Eigen::VectorXd y(m_x_size);
    for (int r = 0; r < m_x_size; r++) {
      double acc = 0;
      for (int k = 0; k < m; k++) acc += m_filter_numerator(k) * m_input_buffer(r, (m_pt_numerator + m - k) % m);
      for (int k = 0; k < n; k++) acc -= m_filter_denominator(k + 1) * m_output_buffer(r, (m_pt_denominator + n - k) % n);
      y(r) = acc / m_filter_denominator(0);
    }
    for (int r = 0; r < m_x_size; r++) {
      out(r) = y(r);
      out(m_x_size + r) = (y(r) - m_output_buffer(r, last)) / m_dt;
      out(2 * m_x_size + r) = (y(r) - 2 * m_output_buffer(r, last) + m_output_buffer(r, last2)) / (m_dt * m_dt);
    }
    m_pt_numerator = (m_pt_numerator + 1) % m;
    m_pt_denominator = (m_pt_denominator + 1) % n;
    m_output_buffer.col(m_pt_denominator) = y;
  }
  void valid_switch_filter_(const Eigen::VectorXd& num, const Eigen::VectorXd& den) {
    assume(den.size() >= 1); assume(num.size() >= 1);
  }
  void switch_filter(const Eigen::VectorXd& num, const Eigen::VectorXd& den) {
    int m = m_filter_order_m;
    Eigen::VectorXd x = m_input_buffer.col((m_pt_numerator + m - 1) % m);
    m_filter_order_m = num.size();
    m_filter_order_n = den.size();
    m_filter_numerator = num;
    m_filter_denominator = den;
    double gain = num.sum() / den.sum();
    m_input_buffer.resize(m_x_size, num.size());
    m_output_buffer.resize(m_x_size, den.size() - 1);
    for (int i = 0; i < num.size(); i++) m_input_buffer.col(i) = x;
    for (int i = 0; i < den.size() - 1; i++) m_output_buffer.col(i) = x * gain;
    m_pt_numerator = 0;
    m_pt_denominator = 0;
  }
};

// y(n) = sum_i c_i s(n-i) over the samples received since the last resize
namespace detail {
template <class T> class circular_buffer {
 public:
  std::vector<T> buf; size_t start, numel;
  circular_buffer() : buf(1), start(0), numel(0) {}
  void valid_() const { assume(buf.size() >= 1); assume_in(start, 0, buf.size()); assume_in(numel, 0, buf.size() + 1); }
  void push_front(const T& d) {
    size_t n = buf.size();
    start = (start + n - 1) % n;
    buf[start] = d;
    if (numel < n) numel = numel + 1;
  }
  void valid_reset_capacity_(size_t n) { assume(n >= 1); }
  void reset_capacity(size_t n) { buf.resize(n); start = 0; numel = 0; }
  void valid_operator_(size_t i) { assume(i < numel); }
  T& operator[](size_t i) { return buf[(start + i) % buf.size()]; }
  size_t size() const { return numel; }
};
}
template <class S, class C> class FIRFilter {
 public:
  dynamicgraph::SignalPtr<S, int> SIN;
  dynamicgraph::SignalTimeDependent<S, int> SOUT;
  std::vector<C> coefs;
  detail::circular_buffer<S> data;
  static void clear_(double& r, const double& s) { r = 0; }
  static void clear_(Vector& r, const Vector& s) { r = Vector::Zero(s.size()); }
  void valid_() const { assume(data.buf.size() >= 1); assume_in(data.start, 0, data.buf.size()); assume_in(data.numel, 0, data.buf.size() + 1);
    assume_eq(coefs.size(), data.buf.size()); }
  S& compute(S& res, int time) {
    data.push_front(SIN(time));
    clear_(res, SIN(time));
    size_t n = data.numel < coefs.size() ? data.numel : coefs.size();
    for (size_t i = 0; i < n; i++) res += coefs[i] * data.buf[(data.start + i) % data.buf.size()];
    return res;
  }
  void resizeBuffer(const unsigned int& size) { data.reset_capacity(size); coefs.resize(size); }
  unsigned int getBufferSize() const { return coefs.size(); }
  void setElement(const unsigned int& r, const C& c) { if (r >= coefs.size()) throw std::out_of_range(""); coefs[r] = c; }
  C getElement(const unsigned int& r) const { if (r >= coefs.size()) throw std::out_of_range(""); return coefs[r]; }
};
template class FIRFilter<double, double>;
template class FIRFilter<Vector, double>;
template class FIRFilter<Vector, Matrix>;
template class detail::circular_buffer<double>;
template class detail::circular_buffer<Vector>;

// a_p y^(p) + ... + a_0 y = b_m x^(m) + ... + b_0 x, explicit Euler, a_p = 1
template <class S, class C> class IntegratorAbstract {
 public:
  dynamicgraph::SignalPtr<S, int> SIN;
  dynamicgraph::SignalTimeDependent<S, int> SOUT;
  std::vector<C> numerator, denominator;
  void pushNumCoef(const C& c) { numerator.push_back(c); }
  void pushDenomCoef(const C& c) { denominator.push_back(c); }
  void popNumCoef() { if (numerator.empty()) throw std::out_of_range(""); numerator.pop_back(); }
  void popDenomCoef() { if (denominator.empty()) throw std::out_of_range(""); denominator.pop_back(); }
  const std::vector<C>& numCoeffs() const { return numerator; }
  void numCoeffs(const std::vector<C>& c) { numerator = c; }
  const std::vector<C>& denomCoeffs() const { return denominator; }
  void denomCoeffs(const std::vector<C>& c) { denominator = c; }
};
template <class S, class C> class IntegratorEuler : public IntegratorAbstract<S, C> {
 public:
  using IntegratorAbstract<S, C>::SIN;
  using IntegratorAbstract<S, C>::SOUT;
  using IntegratorAbstract<S, C>::numerator;
  using IntegratorAbstract<S, C>::denominator;
  std::vector<S> inputMemory, outputMemory;
  double dt, invdt;
  void valid_integrate_(S&, int) const {
    assume(numerator.size() >= 1); assume(denominator.size() >= 1);
    assume_eq(inputMemory.size(), numerator.size());
    assume_eq(outputMemory.size(), denominator.size());
  }
  S& integrate(S& res, int time) {
    S x = SIN(time);
    S before = inputMemory[0];
    inputMemory[0] = x;
    S acc = numerator[0] * x;
    for (size_t i = 1; i < numerator.size(); i++) {
      S d = (inputMemory[i - 1] - before) * invdt;   // d^i x, from the (i-1)-th derivatives now and one step ago
      before = inputMemory[i];
      inputMemory[i] = d;
      acc += numerator[i] * d;
    }
    size_t p = denominator.size() - 1;
    for (size_t i = 0; i < p; i++) acc -= denominator[i] * outputMemory[i];
    outputMemory[p] = acc;
    for (int i = (int)p - 1; i >= 0; i--) outputMemory[i] += outputMemory[i + 1] * dt;
    res = outputMemory[0];
    return res;
  }
  S& derivative(S& res, int time) {
    if (outputMemory.size() < 2) throw dynamicgraph::ExceptionSignal(dynamicgraph::ExceptionSignal::GENERIC, "");
    SOUT.recompute(time);
    res = outputMemory[1];
    return res;
  }
  static bool unit_(double c) { return c == 1; }
  static bool unit_(const Matrix& c) { return c.isIdentity(); }
  void initialize() {
    if (denominator.empty() || numerator.empty()) throw dynamicgraph::ExceptionSignal(dynamicgraph::ExceptionSignal::GENERIC, "");
    if (!unit_(denominator.back())) throw dynamicgraph::ExceptionSignal(dynamicgraph::ExceptionSignal::GENERIC, "");
    S x = SIN.accessCopy();
    inputMemory.resize(numerator.size());
    outputMemory.resize(denominator.size());
    for (size_t i = 0; i < numerator.size(); i++) inputMemory[i] = x;
    for (size_t i = 0; i < denominator.size(); i++) outputMemory[i] = x;
  }
  void valid_setSamplingPeriod_(const double& p) { assume(p != 0); }
  void setSamplingPeriod(const double& p) { dt = p; invdt = 1 / p; }
  double getSamplingPeriod() const { return dt; }
};
template class IntegratorEuler<double, double>;
template class IntegratorEuler<Vector, double>;
template class IntegratorEuler<Vector, Matrix>;

template <class T> class Derivator {
 public:
  T memory; bool initialized; double timestep;
  dynamicgraph::SignalPtr<T, int> SIN;
  static void diff_(double& r, const double& a, const double& b, double k) { r = (a - b) * k; }
  static void diff_(Vector& r, const Vector& a, const Vector& b, double k) { r = (a - b) * k; }
  static void diff_(Matrix& r, const Matrix& a, const Matrix& b, double k) { r = (a - b) * k; }
  static void diff_(Eigen::Quaterniond& r, const Eigen::Quaterniond& a, const Eigen::Quaterniond& b, double k) { r.coeffs() = (a.coeffs() - b.coeffs()) * k; }
  static bool fits_(double, double) { return true; }
  template <class A, class B> static bool fits_(const A& a, const B& b) { return a.rows() == b.rows() && a.cols() == b.cols(); }
  static bool fits_(const Eigen::Quaterniond&, const Eigen::Quaterniond&) { return true; }
  void valid_computeDerivation_(T&, int t) { assume(timestep != 0); assume(!initialized || fits_(memory, SIN(t))); }
  T& computeDerivation(T& res, int time) {
    T x = SIN(time);
    if (initialized) diff_(res, x, memory, 1 / timestep);
    else diff_(res, x, x, 1);
    initialized = true;
    memory = x;
    return res;
  }
};
template class Derivator<double>;
template class Derivator<Vector>;
template class Derivator<Matrix>;
template class Derivator<Eigen::Quaterniond>;

class ExpMovingAvg {
 public:
  dynamicgraph::SignalPtr<Vector, int> updateSIN;
  Vector average; double alpha; bool init;
  void setAlpha(const double& a) { alpha = a; }
  Vector& update(Vector& res, const int& t) {
    Vector x = updateSIN(t);
    Vector prev = init ? average : Vector(Vector::Zero(x.size()));
    init = true;
    average = alpha * prev + (1 - alpha) * x;
    res = average;
    return res;
  }
  void valid_update_(Vector& res, const int& t) { assume_eq(average.size(), updateSIN(t).size()); }
};
class GradientAscent {
 public:
  dynamicgraph::SignalPtr<Vector, int> gradientSIN;
  dynamicgraph::SignalPtr<double, int> learningRateSIN;
  Vector value; bool init;
  void valid_update_(Vector& res, const int& t) { assume_eq(value.size(), gradientSIN(t).size()); }
  Vector& update(Vector& res, const int& t) {
    Vector g = gradientSIN(t);
    Vector prev = init ? value : Vector(Vector::Zero(g.size()));
    init = true;
    value = prev + learningRateSIN(t) * g;
    res = value;
    return res;
  }
};

class FilterDifferentiator {
 public:
  dynamicgraph::SignalTimeDependent<Vector, int> m_x_dx_ddxSINNER;
  int m_x_size;
  void valid_x_filteredSOUT_function_(Vector&, int t) { in_(t); }
  void valid_dxSOUT_function_(Vector&, int t) { in_(t); }
  void valid_ddxSOUT_function_(Vector&, int t) { in_(t); }
  void in_(int t) { assume(m_x_size >= 0); assume_eq(m_x_dx_ddxSINNER(t).size(), 3 * m_x_size); }
  Vector& x_filteredSOUT_function(Vector& s, int t) { s = part_(t, 0); return s; }
  Vector& dxSOUT_function(Vector& s, int t) { s = part_(t, 1); return s; }
  Vector& ddxSOUT_function(Vector& s, int t) { s = part_(t, 2); return s; }
  Vector part_(int t, int k) {
    Vector r(m_x_size);
    for (int i = 0; i < m_x_size; i++) r(i) = m_x_dx_ddxSINNER(t)(k * m_x_size + i);
    return r;
  }
};
}
