#ifndef VSTUB_DG_FACTORY
#define VSTUB_DG_FACTORY
#include <dynamic-graph/entity.h>
namespace dynamicgraph {
class FactoryStorage {
 public:
  typedef Entity *(*EntityConstructor_ptr)(const std::string &);
  static FactoryStorage *getInstance() { static FactoryStorage f; return &f; }
  void registerEntity(const std::string &n, EntityConstructor_ptr p) { if (m_.count(n)) throw ExceptionFactory(ExceptionFactory::OBJECT_CONFLICT, "Another entity class already defined with the same name. "); m_[n] = p; }
  void deregisterEntity(const std::string &n) { m_.erase(n); }
  Entity *newEntity(const std::string &c, const std::string &o) { if (!m_.count(c)) throw ExceptionFactory(ExceptionFactory::UNREFERED_OBJECT, "Unknown entity."); return m_[c](o); }
  bool existEntity(const std::string &n) const { return m_.count(n) > 0; }
 private:
  std::map<std::string, EntityConstructor_ptr> m_;
};
class EntityRegisterer {
 public:
  explicit EntityRegisterer(const std::string &n, FactoryStorage::EntityConstructor_ptr p) : entityName(n) { FactoryStorage::getInstance()->registerEntity(n, p); }
  ~EntityRegisterer() {}
 private:
  std::string entityName;
};
}
#define DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN(CLASSTYPE, CLASSNAME) \
  const std::string CLASSTYPE::CLASS_NAME = CLASSNAME;           \
  DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN_WITHOUT_NAME(CLASSTYPE, CLASSNAME)
#define DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN_WITHOUT_NAME(CLASSTYPE, CLASSNAME) \
  extern "C" {                                                                \
  dynamicgraph::Entity *EntityMaker_##CLASSTYPE(const std::string &objname) { return new CLASSTYPE(objname); } \
  dynamicgraph::EntityRegisterer reg##CLASSTYPE(CLASSNAME, &EntityMaker_##CLASSTYPE); \
  }                                                                           \
  struct e_n_d__w_i_t_h__s_e_m_i_c_o_l_o_n
#endif
