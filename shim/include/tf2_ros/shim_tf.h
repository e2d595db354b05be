// tf2 stand-in: a tree of frames given by the harness; lookups compose its edges, broadcasts go to the taps ("tf").
#pragma once
#include <geometry_msgs/TransformStamped.h>
#include <ros/ros.h>
#include <Eigen/Geometry>
namespace tf2 {
struct TransformException : std::runtime_error { using std::runtime_error::runtime_error; };
struct LookupException : TransformException { using TransformException::TransformException; };
}
namespace shim {
// child frame id -> (parent frame id, pose of the child in the parent as a function of time)
struct TfEdge { std::string parent; std::function<Eigen::Isometry3d(const ros::Time&)> pose; };
inline std::map<std::string, TfEdge>& tf_tree() { static std::map<std::string, TfEdge> t; return t; }
inline Eigen::Isometry3d tf_root(const std::string& f, const ros::Time& t, std::string& root) {
    auto it = tf_tree().find(f);
    if (it == tf_tree().end()) { root = f; return Eigen::Isometry3d::Identity(); }
    return tf_root(it->second.parent, t, root) * it->second.pose(t);
}
}
namespace tf2_ros {
struct Buffer {
    geometry_msgs::TransformStamped lookupTransform(const std::string& target, const std::string& source, const ros::Time& t, const ros::Duration& = ros::Duration(0.0)) const {
        std::string ra, rb;
        const Eigen::Isometry3d A = shim::tf_root(target, t, ra), B = shim::tf_root(source, t, rb);
        if (ra != rb) throw tf2::LookupException("no connection between " + target + " and " + source);
        const Eigen::Isometry3d T = A.inverse() * B;
        geometry_msgs::TransformStamped m;
        m.header.frame_id = target; m.child_frame_id = source; m.header.stamp = t;
        m.transform.translation.x = T.translation().x(); m.transform.translation.y = T.translation().y(); m.transform.translation.z = T.translation().z();
        const Eigen::Quaterniond q(T.rotation());
        m.transform.rotation.w = q.w(); m.transform.rotation.x = q.x(); m.transform.rotation.y = q.y(); m.transform.rotation.z = q.z();
        return m;
    }
};
struct TransformListener { explicit TransformListener(Buffer&) {} };
struct TransformBroadcaster {
    void sendTransform(const geometry_msgs::TransformStamped& t) { shim::Bus::get().published("tf", shim::Travel<geometry_msgs::TransformStamped>::in(t)); }
    void sendTransform(const std::vector<geometry_msgs::TransformStamped>& v) { for (const auto& t : v) sendTransform(t); }
};
struct StaticTransformBroadcaster {
    void sendTransform(const geometry_msgs::TransformStamped& t) { shim::Bus::get().published("tf_static", shim::Travel<geometry_msgs::TransformStamped>::in(t)); }
    void sendTransform(const std::vector<geometry_msgs::TransformStamped>& v) { for (const auto& t : v) sendTransform(t); }
};
}
