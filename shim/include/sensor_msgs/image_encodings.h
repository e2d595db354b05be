#pragma once
#include <string>
namespace sensor_msgs { namespace image_encodings {
const std::string MONO8 = "mono8", MONO16 = "mono16", BGR8 = "bgr8", RGB8 = "rgb8", TYPE_8UC1 = "8UC1", TYPE_16UC1 = "16UC1", TYPE_32FC1 = "32FC1", BGRA8 = "bgra8", RGBA8 = "rgba8";
} }
