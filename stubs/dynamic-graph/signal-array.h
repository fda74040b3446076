#ifndef VSTUB_DG_SA
#define VSTUB_DG_SA
#include <dynamic-graph/signal-base.h>
namespace dynamicgraph {
template <typename Time>
class SignalArray_const {
 public:
  static const int DEFAULT_SIZE = 20;
  explicit SignalArray_const<Time>(const unsigned int & = DEFAULT_SIZE) {}
  SignalArray_const(const SignalBase<Time> &sig) { array.push_back(&sig); }
  SignalArray_const &operator<<(const SignalBase<Time> &sig) { array.push_back(&sig); return *this; }
  const SignalBase<Time> &operator[](const unsigned int &i) const { return *array[i]; }
  unsigned int getSize() const { return (unsigned int)array.size(); }
 protected:
  std::vector<const SignalBase<Time> *> array;
};
template <typename Time>
SignalArray_const<Time> operator<<(const SignalBase<Time> &s1, const SignalBase<Time> &s2) { SignalArray_const<Time> r; r << s1 << s2; return r; }
template <typename Time>
class SignalArray : public SignalArray_const<Time> {
 public:
  explicit SignalArray<Time>(const unsigned int & = 20) {}
  SignalArray(SignalBase<Time> &sig) : SignalArray_const<Time>(sig) { mut.push_back(&sig); }
  SignalArray &operator<<(SignalBase<Time> &sig) { this->array.push_back(&sig); mut.push_back(&sig); return *this; }
  SignalBase<Time> &operator[](const unsigned int &i) const { return *mut[i]; }
 protected:
  std::vector<SignalBase<Time> *> mut;
};
template <typename Time>
SignalArray<Time> operator<<(SignalBase<Time> &s1, SignalBase<Time> &s2) { SignalArray<Time> r; r << s1 << s2; return r; }
static SignalArray<int> sotNOSIGNAL(0);
}
#endif
