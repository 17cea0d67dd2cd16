#pragma once
#include "../rosbag/bag.h"
namespace can_prius {
struct FrontWheelsSpeedMsg {
  ros::Header header;
  double Left, Right;
};
typedef boost::shared_ptr<FrontWheelsSpeedMsg> FrontWheelsSpeedMsgPtr;
typedef boost::shared_ptr<FrontWheelsSpeedMsg const> FrontWheelsSpeedMsgConstPtr;
}
