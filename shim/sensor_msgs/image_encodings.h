#pragma once
#include <stdexcept>
#include <string>
namespace sensor_msgs {
namespace image_encodings {
const std::string RGB8 = "rgb8";
const std::string RGBA8 = "rgba8";
const std::string RGB16 = "rgb16";
const std::string BGR8 = "bgr8";
const std::string BGRA8 = "bgra8";
const std::string BGR16 = "bgr16";
const std::string MONO8 = "mono8";
const std::string MONO16 = "mono16";
const std::string TYPE_8UC1 = "8UC1";
const std::string TYPE_8UC2 = "8UC2";
const std::string TYPE_8UC3 = "8UC3";
const std::string TYPE_8UC4 = "8UC4";
const std::string TYPE_16UC1 = "16UC1";
const std::string TYPE_16SC1 = "16SC1";
const std::string TYPE_16UC3 = "16UC3";
const std::string TYPE_32FC1 = "32FC1";
const std::string TYPE_32FC3 = "32FC3";
const std::string TYPE_64FC1 = "64FC1";
const std::string BAYER_RGGB8 = "bayer_rggb8";
const std::string BAYER_BGGR8 = "bayer_bggr8";
const std::string BAYER_GBRG8 = "bayer_gbrg8";
const std::string BAYER_GRBG8 = "bayer_grbg8";
const std::string BAYER_RGGB16 = "bayer_rggb16";
const std::string BAYER_BGGR16 = "bayer_bggr16";
const std::string BAYER_GBRG16 = "bayer_gbrg16";
const std::string BAYER_GRBG16 = "bayer_grbg16";
inline bool isColor(const std::string& e) { return e == RGB8 || e == BGR8 || e == RGBA8 || e == BGRA8 || e == RGB16 || e == BGR16; }
inline bool isMono(const std::string& e) { return e == MONO8 || e == MONO16; }
inline bool isBayer(const std::string& e) { return e.compare(0, 6, "bayer_") == 0; }
inline int numChannels(const std::string& e) {
    if (e == MONO8 || e == MONO16 || isBayer(e)) return 1;
    if (e == RGB8 || e == BGR8 || e == RGB16 || e == BGR16) return 3;
    if (e == RGBA8 || e == BGRA8) return 4;
    const auto c = e.find('C');
    if (c != std::string::npos) return std::stoi(e.substr(c + 1));
    throw std::runtime_error("Unknown encoding " + e);
}
inline int bitDepth(const std::string& e) {
    if (e == MONO16 || e == RGB16 || e == BGR16) return 16;
    if (isBayer(e)) return e.substr(e.size() - 2) == "16" ? 16 : 8;
    if (isMono(e) || isColor(e)) return 8;
    if (e.substr(0, 1) == "8") return 8;
    if (e.substr(0, 2) == "16") return 16;
    if (e.substr(0, 2) == "32") return 32;
    if (e.substr(0, 2) == "64") return 64;
    throw std::runtime_error("Unknown encoding " + e);
}
}
}
