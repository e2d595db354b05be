#pragma once
#include <tf2_ros/shim_tf.h>
