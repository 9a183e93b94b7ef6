#pragma once
#include <string>
namespace sensor_msgs { namespace image_encodings {
static const std::string MONO8 = "mono8", RGB8 = "rgb8", BGR8 = "bgr8", RGBA8 = "rgba8";
}}
