// Reference semantics of task-error bounds.
#include <string>
#include <iostream>
#include <vector>
namespace spec {
struct ExceptionTask { enum E { ERROR_IN_TASK = 200, EMPTY_LIST, NON_ADEQUATE_TYPE, MATRIX_SIZE, BOUND_TYPE, PARSER_MULTI_BOUND };
  ExceptionTask(E, const std::string&) {} };
class MultiBound {
 public:
  enum MultiBoundModeType { MODE_SINGLE, MODE_DOUBLE };
  enum SupInfType { BOUND_SUP, BOUND_INF };
  MultiBoundModeType mode; double boundSingle, boundSup, boundInf; bool boundSupSetup, boundInfSetup;
  MultiBound(const double x = 0.) : mode(MODE_SINGLE), boundSingle(x), boundSup(0), boundInf(0), boundSupSetup(false), boundInfSetup(false) {}
  MultiBound(const double lo, const double hi) : mode(MODE_DOUBLE), boundSingle(0), boundSup(hi), boundInf(lo), boundSupSetup(true), boundInfSetup(true) {}
  MultiBound(const double x, const SupInfType b) : mode(MODE_DOUBLE), boundSingle(0), boundSup(0), boundInf(0), boundSupSetup(false), boundInfSetup(false) {
    if (b == BOUND_SUP) { boundSup = x; boundSupSetup = true; }
    if (b == BOUND_INF) { boundInf = x; boundInfSetup = true; }
  }
  MultiBound(const MultiBound& c) : mode(c.mode), boundSingle(c.boundSingle), boundSup(c.boundSup), boundInf(c.boundInf), boundSupSetup(c.boundSupSetup), boundInfSetup(c.boundInfSetup) {}
  MultiBoundModeType getMode() const { return mode; }
  double getSingleBound() const {
    if (mode == MODE_SINGLE) return boundSingle;
    throw ExceptionTask(ExceptionTask::BOUND_TYPE, "");
  }
  double getDoubleBound(const SupInfType b) const {
    if (mode != MODE_DOUBLE) throw ExceptionTask(ExceptionTask::BOUND_TYPE, "");
    if (b == BOUND_SUP) { if (boundSupSetup) return boundSup; throw ExceptionTask(ExceptionTask::BOUND_TYPE, ""); }
    if (b == BOUND_INF) { if (boundInfSetup) return boundInf; throw ExceptionTask(ExceptionTask::BOUND_TYPE, ""); }
    return 0;
  }
  bool getDoubleBoundSetup(const SupInfType b) const {
    if (mode != MODE_DOUBLE) throw ExceptionTask(ExceptionTask::BOUND_TYPE, "");
    return b == BOUND_SUP ? boundSupSetup : boundInfSetup;
  }
  void setDoubleBound(SupInfType b, double v) {
    if (mode != MODE_DOUBLE) { mode = MODE_DOUBLE; boundSupSetup = boundInfSetup = false; }
    if (b == BOUND_INF) { boundInfSetup = true; boundInf = v; }
    if (b == BOUND_SUP) { boundSupSetup = true; boundSup = v; }
  }
  void unsetDoubleBound(SupInfType b) {
    if (mode != MODE_DOUBLE) { mode = MODE_DOUBLE; boundSupSetup = boundInfSetup = false; }
    if (b == BOUND_INF) boundInfSetup = false;
    if (b == BOUND_SUP) boundSupSetup = false;
  }
  void setSingleBound(double v) { mode = MODE_SINGLE; boundSingle = v; }
};
typedef std::vector<MultiBound> VectorMultiBound;
// textual form: x | (inf,sup) with -- for an absent side ; vectors: [n](b,b,...)
std::ostream& operator<<(std::ostream& os, const MultiBound& m) {
  if (m.mode == MultiBound::MODE_SINGLE) { os << m.boundSingle; }
  if (m.mode == MultiBound::MODE_DOUBLE) {
    os << "(";
    if (m.boundInfSetup) os << m.boundInf; else os << "--";
    os << ",";
    if (m.boundSupSetup) os << m.boundSup; else os << "--";
    os << ")";
  }
  return os;
}
std::istream& operator>>(std::istream& is, MultiBound& m) {
  char c; double val;
  is.get(c);
  if (c != '(') { is.putback(c); is >> val; m.setSingleBound(val); return is; }
  char c2[3];
  is.get(c2, 3);
  if (std::string(c2, 2) == "--") m.unsetDoubleBound(MultiBound::BOUND_INF);
  else { is.putback(c2[1]); is.putback(c2[0]); is >> val; m.setDoubleBound(MultiBound::BOUND_INF, val); }
  is.get(c);
  if (c != ',') throw ExceptionTask(ExceptionTask::PARSER_MULTI_BOUND, "");
  is.get(c2, 3);
  if (std::string(c2, 2) == "--") m.unsetDoubleBound(MultiBound::BOUND_SUP);
  else { is.putback(c2[1]); is.putback(c2[0]); is >> val; m.setDoubleBound(MultiBound::BOUND_SUP, val); }
  is.get(c);
  if (c != ')') throw ExceptionTask(ExceptionTask::PARSER_MULTI_BOUND, "");
  return is;
}
std::ostream& operator<<(std::ostream& os, const VectorMultiBound& v) {
  os << "[" << v.size() << "](";
  for (std::size_t i = 0; i < v.size(); ++i) { if (i > 0) os << ","; os << v[i]; }
  os << ")";
  return os;
}
inline void expect_(std::istream& is, char want) {
  char c;
  is.get(c);
  if (c != want) throw ExceptionTask(ExceptionTask::PARSER_MULTI_BOUND, "");
}
std::istream& operator>>(std::istream& is, VectorMultiBound& v) {
  unsigned int n;
  expect_(is, '[');
  is >> n;
  v.resize(n);
  expect_(is, ']');
  expect_(is, '(');
  for (unsigned int i = 0; i < n; ++i) {
    is >> v[i];
    if (i + 1 < n) expect_(is, ',');
  }
  expect_(is, ')');
  return is;
}
}
