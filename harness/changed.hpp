#pragma once
#include "vh.hpp"
#include <ros/ros.h>
namespace vh {
// No specification has an action for this event: a message must not change after it was published (subscribers share it).
inline const bool changed_reported = (shim::changed_hook() = [](const std::string& t) { Ev("changed").t("topic", t).emit(); }, true);
}
