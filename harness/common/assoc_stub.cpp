// The segmentation factory refers to the configuration of the association catalogue, which drags in the whole
// configuration of the program. This stand-in has no catalogue.
#include "SEImplementation/Plugin/AssocMode/AssocModeConfig.h"
namespace SourceXtractor {
AssocModeConfig::AssocModeConfig(long manager_id) : Configuration(manager_id) {}
std::map<std::string, Euclid::Configuration::Configuration::OptionDescriptionList> AssocModeConfig::getProgramOptions() { return {}; }
void AssocModeConfig::initialize(const UserValues&) {}
}
