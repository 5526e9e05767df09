#include <memory>
#include <vector>
#include "transmission_interface/differential_transmission.hpp"
std::unique_ptr<transmission_interface::Transmission> make_differential(
  const std::vector<double> & a, const std::vector<double> & j, const std::vector<double> & o)
{
  return std::make_unique<transmission_interface::DifferentialTransmission>(a, j, o);
}
