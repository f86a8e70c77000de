#pragma once
#include <cstdint>
#include <string>
#include <rclcpp/rclcpp.hpp>
namespace builtin_interfaces::msg {struct Time {int32_t sec{0}; uint32_t nanosec{0};};}
namespace std_msgs::msg
{
struct Header {RCLCPP_SHARED_PTR_DEFINITIONS(Header) builtin_interfaces::msg::Time stamp; std::string frame_id;};
}
