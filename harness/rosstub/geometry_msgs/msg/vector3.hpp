#pragma once
#include <rclcpp/rclcpp.hpp>
namespace geometry_msgs::msg
{
struct Vector3 {RCLCPP_SHARED_PTR_DEFINITIONS(Vector3) double x{0}, y{0}, z{0};};
struct Quaternion {RCLCPP_SHARED_PTR_DEFINITIONS(Quaternion) double x{0}, y{0}, z{0}, w{1};};
}
