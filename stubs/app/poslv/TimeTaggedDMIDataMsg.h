#pragma once
#include "../rosbag/bag.h"
#include "TimeDistance.h"
namespace poslv {
struct TimeTaggedDMIDataMsg {
  ros::Header header;
  TimeDistance timeDistance;
  double signedDistanceTraveled;
};
typedef boost::shared_ptr<TimeTaggedDMIDataMsg> TimeTaggedDMIDataMsgPtr;
typedef boost::shared_ptr<TimeTaggedDMIDataMsg const> TimeTaggedDMIDataMsgConstPtr;
}
