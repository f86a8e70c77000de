#pragma once
namespace sensor_msgs::image_encodings {inline const char MONO8[] = "mono8", BGR8[] = "bgr8", RGB8[] = "rgb8";}
