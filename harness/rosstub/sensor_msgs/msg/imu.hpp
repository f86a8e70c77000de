#pragma once
#include <array>
#include <geometry_msgs/msg/vector3.hpp>
#include <std_msgs/msg/header.hpp>
namespace sensor_msgs::msg
{
struct Imu
{
  RCLCPP_SHARED_PTR_DEFINITIONS(Imu)
  std_msgs::msg::Header header;
  geometry_msgs::msg::Quaternion orientation;
  std::array<double, 9> orientation_covariance{};
  geometry_msgs::msg::Vector3 angular_velocity;
  std::array<double, 9> angular_velocity_covariance{};
  geometry_msgs::msg::Vector3 linear_acceleration;
  std::array<double, 9> linear_acceleration_covariance{};
};
}
