#pragma once
#include <opencv2/core.hpp>
#include <sensor_msgs/Image.h>
#include <sensor_msgs/image_encodings.h>
#include <ros/ros.h>
namespace cv_bridge {
inline int type_of(const std::string& e) {
    if (e == "mono8" || e == "8UC1") return CV_8UC1;
    if (e == "mono16" || e == "16UC1") return CV_16UC1;
    if (e == "bgr8" || e == "rgb8") return CV_8UC3;
    if (e == "bgra8" || e == "rgba8") return CV_8UC4;
    if (e == "32FC1") return CV_32FC1;
    throw std::runtime_error("unsupported encoding " + e);
}
struct CvImage;
typedef boost::shared_ptr<CvImage> CvImagePtr;
typedef boost::shared_ptr<CvImage const> CvImageConstPtr;
struct CvImage {
    std_msgs::Header header;
    std::string encoding;
    cv::Mat image;
    CvImage() {}
    CvImage(const std_msgs::Header& h, const std::string& e, const cv::Mat& m = cv::Mat()) : header(h), encoding(e), image(m) {}
    void toImageMsg(sensor_msgs::Image& o) const {
        o.header = header; o.height = image.rows; o.width = image.cols; o.encoding = encoding; o.is_bigendian = 0;
        o.step = image.cols * image.elemSize(); o.data.resize(o.step * o.height);
        for (int r = 0; r < image.rows; ++r) std::memcpy(&o.data[r * o.step], image.ptr(r), o.step);
    }
    sensor_msgs::ImagePtr toImageMsg() const { sensor_msgs::ImagePtr p(new sensor_msgs::Image); toImageMsg(*p); return p; }
    boost::shared_ptr<void const> tracked;
};
inline CvImageConstPtr toCvShare(const sensor_msgs::ImageConstPtr& s, const std::string& = "") {
    boost::shared_ptr<CvImage> p(new CvImage);
    p->header = s->header; p->encoding = s->encoding; p->tracked = s;
    p->image = cv::Mat(s->height, s->width, type_of(s->encoding), const_cast<uint8_t*>(s->data.data()), s->step);
    return p;
}
inline CvImagePtr toCvCopy(const sensor_msgs::ImageConstPtr& s, const std::string& e = "") { CvImagePtr p(new CvImage(*toCvShare(s, e))); p->image = p->image.clone(); return p; }
}
