#ifndef VSTUB_DG_POOL
#define VSTUB_DG_POOL
#include <dynamic-graph/entity.h>
namespace dynamicgraph {
class PoolStorage {
 public:
  typedef std::map<std::string, Entity *> Entities;
  static PoolStorage *getInstance() { if (!instance_()) instance_() = new PoolStorage; return instance_(); }
  static void destroy() { delete instance_(); instance_() = NULL; }
  void registerEntity(const std::string &n, Entity *e) { if (entityMap.count(n)) throw ExceptionFactory(ExceptionFactory::OBJECT_CONFLICT, "Another entity already defined with the same name. "); entityMap[n] = e; }
  void deregisterEntity(const std::string &n) { entityMap.erase(n); }
  Entity &getEntity(const std::string &n) { if (!entityMap.count(n)) DG_THROW ExceptionFactory(ExceptionFactory::UNREFERED_OBJECT, "Unknown entity."); return *entityMap[n]; }
  const Entities &getEntityMap() const { return entityMap; }
  bool existEntity(const std::string &n) { return entityMap.count(n) > 0; }
  bool existEntity(const std::string &n, Entity *&p) { Entities::iterator it = entityMap.find(n); if (it == entityMap.end()) return false; p = it->second; return true; }
  void clearPlugin(const std::string &) {}
  SignalBase<int> &getSignal(std::istringstream &iss) {
    std::string s; iss >> s; size_t p = s.find('.');
    return getEntity(s.substr(0, p)).getSignal(s.substr(p + 1));
  }
  void writeGraph(const std::string &) {}
 private:
  static PoolStorage *&instance_() { static PoolStorage *p = NULL; return p; }
  Entities entityMap;
};
inline Entity::Entity(const std::string &n) : name(n) { PoolStorage::getInstance()->registerEntity(n, this); }
inline Entity::~Entity() { PoolStorage::getInstance()->deregisterEntity(name); }
}
#endif
