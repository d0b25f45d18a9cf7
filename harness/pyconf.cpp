// What a configuration script amounts to, as the rest of the program reads it.
#include <fstream>
#include "common/vpmain.h"
#include "Configuration/ConfigManager.h"
#include "SEImplementation/Configuration/ModelFittingConfig.h"
#include "SEImplementation/Configuration/PythonConfig.h"
#include "SEImplementation/Plugin/AperturePhotometry/AperturePhotometryConfig.h"
#include "SEImplementation/Plugin/AssocMode/AssocModeConfig.h"
#include "SEImplementation/Plugin/FlexibleModelFitting/FlexibleModelFittingFrame.h"
#include "SEImplementation/PythonConfig/PythonInterpreter.h"
#include "ModelFitting/Engine/LeastSquareEngineManager.h"
#include "Pyston/GIL.h"
using vp::J; using namespace SourceXtractor; namespace py = boost::python;
static uint64_t g_seed;
static std::string g_script;
static J ids(const std::vector<int>& v) { std::vector<J> o; for (int x : v) o.push_back(x); return vp::list(o); }
template <typename M> static J keysOf(const M& m) { std::vector<J> o; for (auto& p : m) o.push_back(static_cast<int>(p.first)); return vp::list(o); }
static void child(int c, vp::Log& L, const std::string& dir) {
  auto real = boost::filesystem::canonical(dir).string();
  auto name = [&](const std::string& p) { return p.compare(0, real.size() + 1, real + "/") == 0 ? p.substr(real.size() + 1) : p; };
  auto& pi = PythonInterpreter::getSingleton();
  auto& cm = Euclid::Configuration::ConfigManager::getInstance(Euclid::Configuration::ConfigManager::getUniqueManagerId());
  cm.registerConfiguration<ModelFittingConfig>();
  cm.registerConfiguration<AperturePhotometryConfig>();
  cm.registerConfiguration<AssocModeConfig>();
  auto desc = cm.closeRegistration();
  namespace po = boost::program_options;
  po::variables_map vm;
  std::vector<std::string> args{"--python-config-file", g_script, "--python-arg", std::to_string(g_seed * 100003 + c), real};
  po::store(po::command_line_parser(args).options(desc).run(), vm);
  Euclid::Configuration::Configuration::UserValues uv;
  for (auto& v : vm) uv[v.first] = v.second;
  bool ok = true;
  try { cm.initialize(uv); } catch (const std::exception& e) { ok = false; if (std::getenv("VP_VERBOSE")) std::fprintf(stderr, "refused: %s\n", e.what()); }
  std::ifstream in(real + "/events.jsonl");
  std::string line;
  while (std::getline(in, line)) L.lines().push_back(line);
  std::vector<J> im, models, cols, acols, frames, aps, outs, deps, pri;
  if (ok) {
    Pyston::GILLocker lock;
    for (auto& p : pi.getMeasurementImages()) {
      auto& i = p.second;
      auto q = [](double v) { return vp::scaled(v, 1); };
      im.push_back(J::obj({{"id", p.first}, {"own", i.id}, {"file", name(i.file)}, {"psf", name(i.psf_file)}, {"w", name(i.weight_file)}, {"hdu", i.image_hdu}, {"phdu", i.psf_hdu}, {"whdu", i.weight_hdu},
        {"gain", q(i.gain)}, {"sat", q(i.saturation)}, {"fs", q(i.flux_scale)}, {"wtype", i.weight_type}, {"abs", i.weight_absolute}, {"ws", q(i.weight_scaling)},
        {"hast", i.has_weight_threshold}, {"wt", q(i.weight_threshold)}, {"isbg", i.is_background_constant}, {"bg", q(i.constant_background_value)},
        {"cube", i.is_data_cube}, {"layer", i.image_layer}, {"wlayer", i.weight_layer}, {"norm", i.psf_renormalize}}));
    }
    auto model = [&](const char* kind, const std::map<int, py::object>& m, const std::vector<const char*>& names) {
      for (auto& p : m) {
        std::vector<J> a;
        for (auto n : names) a.push_back(static_cast<int>(py::extract<int>(p.second.attr(n).attr("id"))));
        models.push_back(J::obj({{"id", p.first}, {"k", kind}, {"args", vp::list(a)}}));
      }
    };
    model("Constant", pi.getConstantModels(), {"value"});
    model("Point", pi.getPointSourceModels(), {"x_coord", "y_coord", "flux"});
    std::vector<const char*> six{"x_coord", "y_coord", "flux", "effective_radius", "aspect_ratio", "angle"}, seven = six;
    seven.push_back("n");
    model("Exponential", pi.getExponentialModels(), six);
    model("DeVaucouleurs", pi.getDeVaucouleursModels(), six);
    model("Sersic", pi.getSersicModels(), seven);
    for (auto& p : pi.getPriors()) pri.push_back(static_cast<int>(py::extract<int>(p.second.attr("param"))));
    for (auto& p : pi.getDependentParameters()) {
      std::vector<J> a;
      py::list d = py::extract<py::list>(p.second.attr("params"));
      for (int i = 0; i < py::len(d); ++i) a.push_back(static_cast<int>(py::extract<int>(d[i].attr("id"))));
      deps.push_back(vp::list({p.first, vp::list(a)}));
    }
    auto& mfc = cm.getConfiguration<ModelFittingConfig>();
    for (auto& o : mfc.getOutputs()) cols.push_back(vp::list({o.first, ids(o.second)}));
    for (auto& f : pi.getFrameModelsMap()) frames.push_back(vp::list({f.first, ids(f.second)}));
    for (auto& f : mfc.getFrames()) outs.push_back(vp::list({static_cast<int>(f->getFrameNb()), static_cast<int>(f->getModels().size())}));
    auto& apc = cm.getConfiguration<AperturePhotometryConfig>();
    for (auto& a : apc.getApertures()) { std::vector<J> v; for (auto d : a.second) v.push_back(vp::scaled(d, 1)); aps.push_back(vp::list({static_cast<int>(a.first), vp::list(v)})); }
    for (auto& o : apc.getImagesToOutput()) { std::vector<J> v; for (auto i : o.second) v.push_back(static_cast<int>(i)); acols.push_back(vp::list({o.first, vp::list(v)})); }
    auto engine = mfc.getLeastSquaresEngine();
    L.ev({{"e", "Conf"}, {"ok", true}, {"images", vp::list(im)}, {"apertures", vp::list(aps)}, {"acols", vp::list(acols)}, {"cols", vp::list(cols)},
      {"params", keysOf(mfc.getParameters())}, {"consts", keysOf(pi.getConstantParameters())}, {"frees", keysOf(pi.getFreeParameters())}, {"deps", vp::list(deps)},
      {"models", vp::list(models)}, {"known", keysOf(mfc.getModels())}, {"frames", vp::list(frames)}, {"fitted", vp::list(outs)}, {"priors", vp::list(pri)}, {"npriors", static_cast<int>(mfc.getPriors().size())},
      {"set", J::obj({{"engine", engine == ModelFitting::LeastSquareEngineManager::getDefault() ? std::string("default") : engine}, {"max", static_cast<int>(mfc.getMaxIterations())}, {"chi", vp::scaled(mfc.getModifiedChiSquaredScale(), 1)},
        {"iterative", mfc.getUseIterativeFitting()}, {"meta", mfc.getMetaIterations()}, {"deblend", vp::scaled(mfc.getDeblendFactor(), 100)}, {"stop", vp::scaled(mfc.getMetaIterationStop(), 10000)},
        {"window", static_cast<int>(mfc.getWindowType())}, {"ellipse", vp::scaled(mfc.getEllipseScale(), 1)}})}});
  } else L.ev({{"e", "Conf"}, {"ok", false}});
}
int main(int argc, char** argv) {
  vp::Log L;
  L.open(vp::arg(argc, argv, "--out", "/dev/stdout"));
  g_seed = vp::argi(argc, argv, "--seed", 1);
  g_script = vp::arg(argc, argv, "--script", "/verif/harness/pyconf.py");
  int n = vp::argi(argc, argv, "--n", 10), from = vp::argi(argc, argv, "--from", 0);
  if (std::getenv("VP_VERBOSE")) Elements::Logging::hook() = [](const std::string& n, char l, const std::string& t) { std::fprintf(stderr, "%c %s: %s\n", l, n.c_str(), t.c_str()); };
  auto dir = std::string(vp::arg(argc, argv, "--out", "/tmp/pyconf")) + ".dir";
  vp::forkAll(L, dir, from, from + n, 1, vp::argi(argc, argv, "--jobs", 8), 60, child);
  boost::filesystem::remove_all(dir);
  return 0;
}
