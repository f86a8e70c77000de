#pragma once
#include <array>
#include <std_msgs/msg/header.hpp>
namespace sensor_msgs::msg
{
struct NavSatStatus {int8_t status{0}; uint16_t service{0};};
struct NavSatFix
{
  RCLCPP_SHARED_PTR_DEFINITIONS(NavSatFix)
  static constexpr uint8_t COVARIANCE_TYPE_UNKNOWN = 0, COVARIANCE_TYPE_APPROXIMATED = 1,
    COVARIANCE_TYPE_DIAGONAL_KNOWN = 2, COVARIANCE_TYPE_KNOWN = 3;
  std_msgs::msg::Header header;
  NavSatStatus status;
  double latitude{0}, longitude{0}, altitude{0};
  std::array<double, 9> position_covariance{};
  uint8_t position_covariance_type{0};
};
}
