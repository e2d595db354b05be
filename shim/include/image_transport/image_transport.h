#pragma once
#include <ros/ros.h>
#include <sensor_msgs/Image.h>
namespace image_transport {
using Publisher = ros::Publisher;
using Subscriber = ros::Subscriber;
struct ImageTransport {
    ros::NodeHandle nh;
    explicit ImageTransport(const ros::NodeHandle& n) : nh(n) {}
    Publisher advertise(const std::string& t, uint32_t, bool = false) { return Publisher{t}; }
    template<class C, class A> Subscriber subscribe(const std::string& t, uint32_t q, void (C::*f)(A), C* o) { return nh.subscribe<sensor_msgs::Image>(t, q, f, o); }
};
}
