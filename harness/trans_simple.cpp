// Separate translation unit: the transmission headers define the same constant and cannot be included together.
#include <memory>
#include "transmission_interface/simple_transmission.hpp"
std::unique_ptr<transmission_interface::Transmission> make_simple(double reduction, double offset)
{
  return std::make_unique<transmission_interface::SimpleTransmission>(reduction, offset);
}
