// Stand-in for Elements' program skeleton: option parsing and the call of mainMethod.
#ifndef VP_ELEMENTS_MAIN_H
#define VP_ELEMENTS_MAIN_H
#include "ElementsKernel/Exception.h"
#include "ElementsKernel/Logging.h"
#include <boost/filesystem.hpp>
#include <boost/program_options.hpp>
#include <cstdlib>
#include <fstream>
#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#define ELEMENTS_API
namespace Elements {
using ExitCodeType = std::underlying_type<ExitCode>::type;
class Program {
public:
  using OptionsDescription = boost::program_options::options_description;
  using PositionalOptionsDescription = boost::program_options::positional_options_description;
  using VariableValue = boost::program_options::variable_value;
  virtual ~Program() = default;
  virtual OptionsDescription defineSpecificProgramOptions() { return {}; }
  virtual std::pair<OptionsDescription, PositionalOptionsDescription> defineProgramArguments() { return {defineSpecificProgramOptions(), {}}; }
  virtual ExitCode mainMethod(std::map<std::string, VariableValue>& args) = 0;
};
class ProgramManager {
public:
  explicit ProgramManager(std::unique_ptr<Program> p) : m_program(std::move(p)) {}
  static void onTerminate() noexcept { std::abort(); }
  ExitCode run(int argc, char* argv[]) {
    namespace po = boost::program_options;
    auto args = m_program->defineProgramArguments();
    po::options_description all("all");
    all.add_options()("config-file", po::value<boost::filesystem::path>()->default_value(boost::filesystem::path()), "")
                     ("log-level", po::value<std::string>()->default_value("INFO"), "")
                     ("log-file", po::value<boost::filesystem::path>(), "");
    all.add(args.first);
    po::variables_map vm;
    po::store(po::command_line_parser(argc, argv).options(all).positional(args.second).run(), vm);
    auto file = vm.count("config-file") ? vm["config-file"].as<boost::filesystem::path>() : boost::filesystem::path();
    if (!file.empty() && boost::filesystem::exists(file)) {
      std::ifstream in(file.string());
      po::store(po::parse_config_file(in, all), vm);
    }
    po::notify(vm);
    std::map<std::string, po::variable_value> values(vm.begin(), vm.end());
    return m_program->mainMethod(values);
  }
private:
  std::unique_ptr<Program> m_program;
};
}  // namespace Elements
#define CREATE_MANAGER_WITH_ARGS(MANAGER, ELEMENTS_PROGRAM, ...) Elements::ProgramManager MANAGER{std::make_unique<ELEMENTS_PROGRAM>(__VA_ARGS__)}
#endif
