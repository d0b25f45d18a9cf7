// User options for the real configuration classes: the defaults they declare, then what a case overrides.
#ifndef VPCONFIG_H
#define VPCONFIG_H
#include <string>
#include <vector>
#include <boost/program_options.hpp>
#include "Configuration/ConfigManager.h"
namespace vp {
/// Registers the configuration C and what it depends on, parses `options` like the command line would, initializes them all.
template <typename C>
inline C& configured(const std::vector<std::string>& options) {
  namespace po = boost::program_options;
  auto& cm = Euclid::Configuration::ConfigManager::getInstance(Euclid::Configuration::ConfigManager::getUniqueManagerId());
  cm.registerConfiguration<C>();
  Euclid::Configuration::ConfigManager::anyOrder() = 1 + std::hash<std::string>()(options.empty() ? std::string() : options.back() + options.front() + std::to_string(options.size()));
  auto desc = cm.closeRegistration();
  std::vector<std::string> av;
  for (size_t i = 0; i + 1 < options.size(); i += 2) { av.push_back("--" + options[i]); if (!options[i + 1].empty()) av.push_back(options[i + 1]); }
  po::variables_map vm;
  po::store(po::command_line_parser(av).options(desc).allow_unregistered().run(), vm);
  Euclid::Configuration::Configuration::UserValues uv;
  for (auto& v : vm) uv[v.first] = v.second;
  cm.initialize(uv);
  return cm.getConfiguration<C>();
}
/// Registers what `who` needs, parses `options` (name, value, name, value...) like the command line would, configures `who`.
template <typename T>
inline Euclid::Configuration::ConfigManager& configure(T& who, const std::vector<std::string>& options) {
  namespace po = boost::program_options;
  auto& cm = Euclid::Configuration::ConfigManager::getInstance(Euclid::Configuration::ConfigManager::getUniqueManagerId());
  who.reportConfigDependencies(cm);
  Euclid::Configuration::ConfigManager::anyOrder() = 1 + std::hash<std::string>()(options.empty() ? std::string() : options.back() + options.front() + std::to_string(options.size()));
  auto desc = cm.closeRegistration();
  std::vector<std::string> av;
  for (size_t i = 0; i + 1 < options.size(); i += 2) { av.push_back("--" + options[i]); if (!options[i + 1].empty()) av.push_back(options[i + 1]); }
  po::variables_map vm;
  po::store(po::command_line_parser(av).options(desc).allow_unregistered().run(), vm);
  Euclid::Configuration::Configuration::UserValues uv;
  for (auto& v : vm) uv[v.first] = v.second;
  cm.initialize(uv);
  who.configure(cm);
  return cm;
}
}
#endif
