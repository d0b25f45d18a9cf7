// The tasks draw on check images when there are any; the real class drags in the configuration of the whole
// program. This stand-in never has an image.
#include "SEImplementation/CheckImages/CheckImages.h"
namespace SourceXtractor {
std::unique_ptr<CheckImages> CheckImages::m_instance;
CheckImages::CheckImages() {}
void CheckImages::reportConfigDependencies(Euclid::Configuration::ConfigManager&) const {}
void CheckImages::configure(Euclid::Configuration::ConfigManager&) {}
std::shared_ptr<WriteableImage<int>> CheckImages::getMeasurementAutoApertureImage(unsigned int) { return nullptr; }
std::shared_ptr<WriteableImage<int>> CheckImages::getMeasurementApertureImage(unsigned int) { return nullptr; }
std::shared_ptr<WriteableImage<MeasurementImage::PixelType>> CheckImages::getModelFittingImage(unsigned int) { return nullptr; }
std::shared_ptr<WriteableImage<int>> CheckImages::getFittingWindowImage(unsigned int) { return nullptr; }
std::shared_ptr<WriteableImage<MeasurementImage::PixelType>> CheckImages::getPsfImage(unsigned int) { return nullptr; }
std::shared_ptr<WriteableImage<float>> CheckImages::getMLDetectionImage(unsigned int, size_t) { return nullptr; }
std::shared_ptr<WriteableImage<SeFloat>> CheckImages::getWriteableCheckImage(std::string, int, int) { return nullptr; }
void CheckImages::setCustomCheckImage(std::string, std::shared_ptr<Image<SeFloat>>) {}
void CheckImages::saveImages() {}
}
