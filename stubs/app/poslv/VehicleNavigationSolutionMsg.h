#pragma once
#include "../rosbag/bag.h"
#include "TimeDistance.h"
namespace poslv {
struct VehicleNavigationSolutionMsg {
  ros::Header header;
  TimeDistance timeDistance;
  double latitude, longitude, altitude, northVelocity, eastVelocity, downVelocity, roll, pitch, heading, angularRateLong, angularRateTrans, angularRateDown;
};
typedef boost::shared_ptr<VehicleNavigationSolutionMsg> VehicleNavigationSolutionMsgPtr;
typedef boost::shared_ptr<VehicleNavigationSolutionMsg const> VehicleNavigationSolutionMsgConstPtr;
}
