#pragma once
#include <vector>
#include <rclcpp/rclcpp.hpp>
namespace std_msgs::msg
{
struct MultiArrayDimension {std::string label; uint32_t size{0}; uint32_t stride{0};};
struct MultiArrayLayout {std::vector<MultiArrayDimension> dim; uint32_t data_offset{0};};
struct Float64MultiArray {RCLCPP_SHARED_PTR_DEFINITIONS(Float64MultiArray) MultiArrayLayout layout; std::vector<double> data;};
}
