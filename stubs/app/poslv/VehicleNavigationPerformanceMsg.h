#pragma once
#include "../rosbag/bag.h"
#include "TimeDistance.h"
namespace poslv {
struct VehicleNavigationPerformanceMsg {
  ros::Header header;
  TimeDistance timeDistance;
  double northPositionRMSError, eastPositionRMSError, downPositionRMSError, northVelocityRMSError, eastVelocityRMSError, downVelocityRMSError, rollRMSError, pitchRMSError, headingRMSError;
};
typedef boost::shared_ptr<VehicleNavigationPerformanceMsg> VehicleNavigationPerformanceMsgPtr;
typedef boost::shared_ptr<VehicleNavigationPerformanceMsg const> VehicleNavigationPerformanceMsgConstPtr;
}
