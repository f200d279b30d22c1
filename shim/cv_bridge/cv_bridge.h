#pragma once
#include <ros/ros.h>
#include <sensor_msgs/Image.h>
#include <sensor_msgs/image_encodings.h>
#include <opencv2/core.hpp>
#include <opencv2/imgproc.hpp>
namespace cv_bridge {
class Exception : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class CvImage;
typedef boost::shared_ptr<CvImage> CvImagePtr;
typedef boost::shared_ptr<CvImage const> CvImageConstPtr;
inline int cv_type(const std::string& e) {
    const int ch = sensor_msgs::image_encodings::numChannels(e);
    const int bits = sensor_msgs::image_encodings::bitDepth(e);
    if (e.find("SC") != std::string::npos) return CV_MAKETYPE(bits == 8 ? CV_8S : bits == 16 ? CV_16S : CV_32S, ch);
    if (e.find("FC") != std::string::npos) return CV_MAKETYPE(bits == 32 ? CV_32F : CV_64F, ch);
    return CV_MAKETYPE(bits == 8 ? CV_8U : CV_16U, ch);
}
class CvImage {
public:
    std_msgs::Header header;
    std::string encoding;
    cv::Mat image;
    CvImage() {}
    CvImage(const std_msgs::Header& h, const std::string& e, const cv::Mat& i = cv::Mat()) : header(h), encoding(e), image(i) {}
    sensor_msgs::ImagePtr toImageMsg() const { auto p = boost::make_shared<sensor_msgs::Image>(); toImageMsg(*p); return p; }
    void toImageMsg(sensor_msgs::Image& m) const {
        m.header = header;
        m.height = image.rows;
        m.width = image.cols;
        m.encoding = encoding;
        m.is_bigendian = 0;
        m.step = image.cols * image.elemSize();
        m.data.resize(static_cast<std::size_t>(m.step) * image.rows);
        for (int r = 0; r < image.rows; ++r) std::copy_n(image.ptr<uchar>(r), m.step, m.data.begin() + static_cast<std::size_t>(r) * m.step);
    }
};
inline CvImagePtr convert(const sensor_msgs::Image& src, const std::string& encoding) {
    const int type = cv_type(src.encoding);
    if (src.step < src.width * CV_ELEM_SIZE(type) || src.data.size() < static_cast<std::size_t>(src.step) * src.height) throw Exception("Image is wrongly formed");
    const cv::Mat view(src.height, src.width, type, const_cast<uchar*>(src.data.data()), src.step);
    auto out = boost::make_shared<CvImage>(src.header, encoding.empty() ? src.encoding : encoding);
    if (encoding.empty() || encoding == src.encoding) out->image = view.clone();
    else if (src.encoding == "bgr8" && encoding == "mono8") cv::cvtColor(view, out->image, cv::COLOR_BGR2GRAY);
    else if (src.encoding == "rgb8" && encoding == "mono8") cv::cvtColor(view, out->image, cv::COLOR_RGB2GRAY);
    else if (src.encoding == "mono8" && encoding == "bgr8") cv::cvtColor(view, out->image, cv::COLOR_GRAY2BGR);
    else if (src.encoding == "rgb8" && encoding == "bgr8") cv::cvtColor(view, out->image, cv::COLOR_RGB2BGR);
    else if (src.encoding == "bgr8" && encoding == "rgb8") cv::cvtColor(view, out->image, cv::COLOR_BGR2RGB);
    else if (cv_type(encoding) == type) out->image = view.clone();
    else throw Exception("conversion from " + src.encoding + " to " + encoding + " not supported by this stand-in");
    return out;
}
inline CvImagePtr toCvCopy(const sensor_msgs::ImageConstPtr& s, const std::string& e = "") { return convert(*s, e); }
inline CvImagePtr toCvCopy(const sensor_msgs::Image& s, const std::string& e = "") { return convert(s, e); }
inline CvImageConstPtr toCvShare(const sensor_msgs::ImageConstPtr& s, const std::string& e = "") { return convert(*s, e); }
inline CvImageConstPtr toCvShare(const sensor_msgs::Image& s, const boost::shared_ptr<void const>&, const std::string& e = "") { return convert(s, e); }
}
