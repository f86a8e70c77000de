#pragma once
#include <string>
#include <opencv2/opencv.hpp>
#include <sensor_msgs/image_encodings.hpp>
#include <sensor_msgs/msg/image.hpp>
namespace cv_bridge
{
struct CvImage
{
  RCLCPP_SHARED_PTR_DEFINITIONS(CvImage)
  std_msgs::msg::Header header;
  std::string encoding;
  cv::Mat image;
  CvImage() {}
  CvImage(const std_msgs::msg::Header & h, const std::string & e, const cv::Mat & m = cv::Mat()) : header(h), encoding(e), image(m) {}
  sensor_msgs::msg::Image::SharedPtr toImageMsg() const
  {
    auto m = std::make_shared<sensor_msgs::msg::Image>();
    m->header = header; m->encoding = encoding;
    m->height = image.rows; m->width = image.cols;
    m->step = static_cast<uint32_t>(image.cols * image.elemSize());
    for (int r = 0; r < image.rows; ++r) {m->data.insert(m->data.end(), image.ptr(r), image.ptr(r) + m->step);}
    return m;
  }
};
using CvImagePtr = CvImage::SharedPtr;
using CvImageConstPtr = CvImage::ConstSharedPtr;
inline CvImagePtr toCvCopy(const sensor_msgs::msg::Image & m, const std::string & to = "")
{
  int type = m.encoding == "mono8" ? CV_8UC1 : CV_8UC3;
  cv::Mat a(m.height, m.width, type, const_cast<uint8_t *>(m.data.data()), m.step), b;
  std::string e = to.empty() ? m.encoding : to;
  if (e == m.encoding) {b = a.clone();
  } else if (e == "mono8") {cv::cvtColor(a, b, m.encoding == "rgb8" ? cv::COLOR_RGB2GRAY : cv::COLOR_BGR2GRAY);
  } else if (m.encoding == "mono8") {cv::cvtColor(a, b, cv::COLOR_GRAY2BGR);
  } else {cv::cvtColor(a, b, cv::COLOR_RGB2BGR);}
  return std::make_shared<CvImage>(m.header, e, b);
}
inline CvImagePtr toCvCopy(const sensor_msgs::msg::Image::ConstSharedPtr & m, const std::string & to = "") {return toCvCopy(*m, to);}
inline CvImageConstPtr toCvShare(const sensor_msgs::msg::Image::ConstSharedPtr & m, const std::string & to = "") {return toCvCopy(*m, to);}
}
