#ifndef VSTUB_DG_CBIND
#define VSTUB_DG_CBIND
#include <dynamic-graph/command.h>
#include <dynamic-graph/all-signals.h>
#include <functional>
namespace dynamicgraph {
namespace command {
class CallBind_ : public Command {
 public:
  typedef std::function<Value(const std::vector<Value>&)> F;
  CallBind_(Entity &e, const std::vector<Value::Type> &t, F f, const std::string &doc) : Command(e, t, doc), f_(f) {}
 protected:
  virtual Value doExecute() { return f_(this->getParameterValues()); }
 private:
  F f_;
};
template <class T> T valueAs_(const Value &v) { T x = v.value(); return x; }
template <class E>
CallBind_ *makeCommandVoid0(E &entity, void (E::*f)(), const std::string &doc) {
  E *e = &entity; return new CallBind_(entity, std::vector<Value::Type>{}, [e, f](const std::vector<Value> &v) { (void)v; (e->*f)(); return Value(); }, doc);
}
template <class E>
CallBind_ *makeCommandVoid0(E &entity, boost::function<void()> f, const std::string &doc) {
  return new CallBind_(entity, std::vector<Value::Type>{}, [f](const std::vector<Value> &v) { (void)v; f(); return Value(); }, doc);
}
template <class E, class R>
CallBind_ *makeCommandReturnType0(E &entity, R (E::*f)(), const std::string &doc) {
  E *e = &entity; return new CallBind_(entity, std::vector<Value::Type>{}, [e, f](const std::vector<Value> &v) { (void)v; return Value((e->*f)()); }, doc);
}
inline std::string docCommandVoid0(const std::string &doc) { return doc; }
template <class R_>
inline std::string docCommandReturnType0(const std::string &doc, const std::string & = "") { return doc; }
template <class E, class A0>
CallBind_ *makeCommandVoid1(E &entity, void (E::*f)(const A0&), const std::string &doc) {
  E *e = &entity; return new CallBind_(entity, std::vector<Value::Type>{ValueHelper<A0>::TypeID}, [e, f](const std::vector<Value> &v) { (void)v; (e->*f)(valueAs_<A0>(v[0])); return Value(); }, doc);
}
template <class E, class A0>
CallBind_ *makeCommandVoid1(E &entity, boost::function<void(const A0&)> f, const std::string &doc) {
  return new CallBind_(entity, std::vector<Value::Type>{ValueHelper<A0>::TypeID}, [f](const std::vector<Value> &v) { (void)v; f(valueAs_<A0>(v[0])); return Value(); }, doc);
}
template <class E, class R, class A0>
CallBind_ *makeCommandReturnType1(E &entity, R (E::*f)(const A0&), const std::string &doc) {
  E *e = &entity; return new CallBind_(entity, std::vector<Value::Type>{ValueHelper<A0>::TypeID}, [e, f](const std::vector<Value> &v) { (void)v; return Value((e->*f)(valueAs_<A0>(v[0]))); }, doc);
}
inline std::string docCommandVoid1(const std::string &doc, const std::string &t0) { return doc + t0; }
template <class R_>
inline std::string docCommandReturnType1(const std::string &doc, const std::string &t0, const std::string & = "") { return doc + t0; }
template <class E, class A0, class A1>
CallBind_ *makeCommandVoid2(E &entity, void (E::*f)(const A0&, const A1&), const std::string &doc) {
  E *e = &entity; return new CallBind_(entity, std::vector<Value::Type>{ValueHelper<A0>::TypeID, ValueHelper<A1>::TypeID}, [e, f](const std::vector<Value> &v) { (void)v; (e->*f)(valueAs_<A0>(v[0]), valueAs_<A1>(v[1])); return Value(); }, doc);
}
template <class E, class A0, class A1>
CallBind_ *makeCommandVoid2(E &entity, boost::function<void(const A0&, const A1&)> f, const std::string &doc) {
  return new CallBind_(entity, std::vector<Value::Type>{ValueHelper<A0>::TypeID, ValueHelper<A1>::TypeID}, [f](const std::vector<Value> &v) { (void)v; f(valueAs_<A0>(v[0]), valueAs_<A1>(v[1])); return Value(); }, doc);
}
template <class E, class R, class A0, class A1>
CallBind_ *makeCommandReturnType2(E &entity, R (E::*f)(const A0&, const A1&), const std::string &doc) {
  E *e = &entity; return new CallBind_(entity, std::vector<Value::Type>{ValueHelper<A0>::TypeID, ValueHelper<A1>::TypeID}, [e, f](const std::vector<Value> &v) { (void)v; return Value((e->*f)(valueAs_<A0>(v[0]), valueAs_<A1>(v[1]))); }, doc);
}
inline std::string docCommandVoid2(const std::string &doc, const std::string &t0, const std::string &t1) { return doc + t0 + t1; }
template <class R_>
inline std::string docCommandReturnType2(const std::string &doc, const std::string &t0, const std::string &t1, const std::string & = "") { return doc + t0 + t1; }
template <class E, class A0, class A1, class A2>
CallBind_ *makeCommandVoid3(E &entity, void (E::*f)(const A0&, const A1&, const A2&), const std::string &doc) {
  E *e = &entity; return new CallBind_(entity, std::vector<Value::Type>{ValueHelper<A0>::TypeID, ValueHelper<A1>::TypeID, ValueHelper<A2>::TypeID}, [e, f](const std::vector<Value> &v) { (void)v; (e->*f)(valueAs_<A0>(v[0]), valueAs_<A1>(v[1]), valueAs_<A2>(v[2])); return Value(); }, doc);
}
template <class E, class A0, class A1, class A2>
CallBind_ *makeCommandVoid3(E &entity, boost::function<void(const A0&, const A1&, const A2&)> f, const std::string &doc) {
  return new CallBind_(entity, std::vector<Value::Type>{ValueHelper<A0>::TypeID, ValueHelper<A1>::TypeID, ValueHelper<A2>::TypeID}, [f](const std::vector<Value> &v) { (void)v; f(valueAs_<A0>(v[0]), valueAs_<A1>(v[1]), valueAs_<A2>(v[2])); return Value(); }, doc);
}
template <class E, class R, class A0, class A1, class A2>
CallBind_ *makeCommandReturnType3(E &entity, R (E::*f)(const A0&, const A1&, const A2&), const std::string &doc) {
  E *e = &entity; return new CallBind_(entity, std::vector<Value::Type>{ValueHelper<A0>::TypeID, ValueHelper<A1>::TypeID, ValueHelper<A2>::TypeID}, [e, f](const std::vector<Value> &v) { (void)v; return Value((e->*f)(valueAs_<A0>(v[0]), valueAs_<A1>(v[1]), valueAs_<A2>(v[2]))); }, doc);
}
inline std::string docCommandVoid3(const std::string &doc, const std::string &t0, const std::string &t1, const std::string &t2) { return doc + t0 + t1 + t2; }
template <class R_>
inline std::string docCommandReturnType3(const std::string &doc, const std::string &t0, const std::string &t1, const std::string &t2, const std::string & = "") { return doc + t0 + t1 + t2; }
template <class E, class A0, class A1, class A2, class A3>
CallBind_ *makeCommandVoid4(E &entity, void (E::*f)(const A0&, const A1&, const A2&, const A3&), const std::string &doc) {
  E *e = &entity; return new CallBind_(entity, std::vector<Value::Type>{ValueHelper<A0>::TypeID, ValueHelper<A1>::TypeID, ValueHelper<A2>::TypeID, ValueHelper<A3>::TypeID}, [e, f](const std::vector<Value> &v) { (void)v; (e->*f)(valueAs_<A0>(v[0]), valueAs_<A1>(v[1]), valueAs_<A2>(v[2]), valueAs_<A3>(v[3])); return Value(); }, doc);
}
template <class E, class A0, class A1, class A2, class A3>
CallBind_ *makeCommandVoid4(E &entity, boost::function<void(const A0&, const A1&, const A2&, const A3&)> f, const std::string &doc) {
  return new CallBind_(entity, std::vector<Value::Type>{ValueHelper<A0>::TypeID, ValueHelper<A1>::TypeID, ValueHelper<A2>::TypeID, ValueHelper<A3>::TypeID}, [f](const std::vector<Value> &v) { (void)v; f(valueAs_<A0>(v[0]), valueAs_<A1>(v[1]), valueAs_<A2>(v[2]), valueAs_<A3>(v[3])); return Value(); }, doc);
}
template <class E, class R, class A0, class A1, class A2, class A3>
CallBind_ *makeCommandReturnType4(E &entity, R (E::*f)(const A0&, const A1&, const A2&, const A3&), const std::string &doc) {
  E *e = &entity; return new CallBind_(entity, std::vector<Value::Type>{ValueHelper<A0>::TypeID, ValueHelper<A1>::TypeID, ValueHelper<A2>::TypeID, ValueHelper<A3>::TypeID}, [e, f](const std::vector<Value> &v) { (void)v; return Value((e->*f)(valueAs_<A0>(v[0]), valueAs_<A1>(v[1]), valueAs_<A2>(v[2]), valueAs_<A3>(v[3]))); }, doc);
}
inline std::string docCommandVoid4(const std::string &doc, const std::string &t0, const std::string &t1, const std::string &t2, const std::string &t3) { return doc + t0 + t1 + t2 + t3; }
template <class R_>
inline std::string docCommandReturnType4(const std::string &doc, const std::string &t0, const std::string &t1, const std::string &t2, const std::string &t3, const std::string & = "") { return doc + t0 + t1 + t2 + t3; }
template <class E>
CallBind_ *makeCommandVerbose(E &entity, void (E::*f)(std::ostream &), const std::string &doc) {
  E *e = &entity; return new CallBind_(entity, std::vector<Value::Type>{}, [e, f](const std::vector<Value> &) { std::ostringstream o; (e->*f)(o); return Value(o.str()); }, doc);
}
template <class E>
CallBind_ *makeCommandVerbose(E &entity, void (E::*f)(std::ostream &) const, const std::string &doc) {
  E *e = &entity; return new CallBind_(entity, std::vector<Value::Type>{}, [e, f](const std::vector<Value> &) { std::ostringstream o; (e->*f)(o); return Value(o.str()); }, doc);
}
template <class E>
CallBind_ *makeCommandVerbose(E &entity, boost::function<void(std::ostream &)> f, const std::string &doc) {
  return new CallBind_(entity, std::vector<Value::Type>{}, [f](const std::vector<Value> &) { std::ostringstream o; f(o); return Value(o.str()); }, doc);
}
inline std::string docCommandVerbose(const std::string &doc) { return doc; }
}
}
#endif
