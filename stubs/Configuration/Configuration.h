// Stand-in for Alexandria's Configuration framework.
#ifndef VP_ALEX_CONFIGURATION_H
#define VP_ALEX_CONFIGURATION_H
#include "vp_std.h"
#include "AlexandriaKernel/memory_tools.h"
#include <cstdint>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <typeindex>
#include <vector>
#include <boost/program_options.hpp>
#include "ElementsKernel/Exception.h"
namespace Euclid { namespace Configuration {
class ConfigManager;
class Configuration {
public:
  using UserValues = std::map<std::string, boost::program_options::variable_value>;
  using OptionDescriptionList = std::vector<boost::program_options::option_description>;
  enum class State { CONSTRUCTED, PRE_INITIALIZED, INITIALIZED, FINAL };
  explicit Configuration(long id) : m_manager_id(id) {}
  virtual ~Configuration() = default;
  virtual std::map<std::string, OptionDescriptionList> getProgramOptions() { return {}; }
  virtual void preInitialize(const UserValues&) {}
  virtual void initialize(const UserValues&) {}
  virtual void postInitialize(const UserValues&) {}
  State& getCurrentState() { return m_state; }
  const State& getCurrentState() const { return m_state; }
  long getManagerId() const { return m_manager_id; }
protected:
  template <typename T> void declareDependency();
  template <typename T> T& getDependency();
  template <typename T> const T& getDependency() const;
private:
  long m_manager_id;
  State m_state = State::CONSTRUCTED;
};
class ConfigManager {
public:
  static ConfigManager& getInstance(long id) {
    static std::map<long, std::unique_ptr<ConfigManager>> all;
    auto& p = all[id];
    if (!p) p.reset(new ConfigManager(id));
    return *p;
  }
  /// Not 0: the configurations are initialized in an order drawn with it, in so far as their dependencies leave a choice
  static std::uint64_t& anyOrder() { static std::uint64_t n = 0; return n; }
  static long getUniqueManagerId() { static long n = 0; return ++n; }
  template <typename T> void registerConfiguration() {
    std::type_index t(typeid(T));
    if (!m_configs.count(t)) {
      m_configs[t] = nullptr;
      m_configs[t].reset(new T(m_id));
      m_order.push_back(t);
    }
  }
  template <typename T, typename U> void registerDependency() { m_deps[typeid(T)].insert(typeid(U)); registerConfiguration<U>(); }
  boost::program_options::options_description closeRegistration() {
    std::map<std::string, boost::program_options::options_description> groups;
    boost::program_options::options_description all;
    for (auto& c : m_configs)
      for (auto& g : c.second->getProgramOptions())
        for (auto& o : g.second) all.add(boost::shared_ptr<boost::program_options::option_description>(new boost::program_options::option_description(o)));
    return all;
  }
  void initialize(const Configuration::UserValues& v) {
    std::vector<Configuration*> order;
    std::set<std::type_index> done;
    auto types = m_order;
    if (anyOrder()) {   // the real manager goes through its map of types: only dependencies give an order
      std::uint64_t x = anyOrder();
      for (size_t i = types.size(); i > 1; --i) { x = x * 6364136223846793005ull + 1442695040888963407ull; std::swap(types[i - 1], types[(x >> 33) % i]); }
    }
    for (auto& t : types) visit(t, done, order);
    for (auto c : order) { c->preInitialize(v); c->getCurrentState() = Configuration::State::PRE_INITIALIZED; }
    for (auto c : order) { c->initialize(v); c->getCurrentState() = Configuration::State::INITIALIZED; }
    for (auto c : order) { c->postInitialize(v); c->getCurrentState() = Configuration::State::FINAL; }
  }
  template <typename T> T& getConfiguration() {
    auto i = m_configs.find(typeid(T));
    if (i == m_configs.end()) throw Elements::Exception() << "Configuration not registered";
    return dynamic_cast<T&>(*i->second);
  }
  template <typename T> const T& getConfiguration() const { return const_cast<ConfigManager*>(this)->getConfiguration<T>(); }
  bool hasConfiguration(std::type_index t) const { return m_configs.count(t) > 0; }
private:
  explicit ConfigManager(long id) : m_id(id) {}
  void visit(std::type_index t, std::set<std::type_index>& done, std::vector<Configuration*>& order) {
    if (!done.insert(t).second) return;
    for (auto& d : m_deps[t]) visit(d, done, order);
    order.push_back(m_configs.at(t).get());
  }
  long m_id;
  std::map<std::type_index, std::unique_ptr<Configuration>> m_configs;
  std::map<std::type_index, std::set<std::type_index>> m_deps;
  std::vector<std::type_index> m_order;
  template <typename T> friend struct VpDep;
  friend class Configuration;
  void addDep(std::type_index a, std::type_index b) { m_deps[a].insert(b); }
};
template <typename T> void Configuration::declareDependency() {
  auto& m = ConfigManager::getInstance(m_manager_id);
  m.registerConfiguration<T>();
  m.addDep(typeid(*this), typeid(T));
}
template <typename T> T& Configuration::getDependency() {
  auto& c = ConfigManager::getInstance(m_manager_id).getConfiguration<T>();
  return c;
}
template <typename T> const T& Configuration::getDependency() const { return ConfigManager::getInstance(m_manager_id).getConfiguration<T>(); }
} }
#endif
