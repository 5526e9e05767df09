#include <memory>
#include <vector>
#include "transmission_interface/four_bar_linkage_transmission.hpp"
std::unique_ptr<transmission_interface::Transmission> make_four_bar(
  const std::vector<double> & a, const std::vector<double> & j, const std::vector<double> & o)
{
  return std::make_unique<transmission_interface::FourBarLinkageTransmission>(a, j, o);
}
