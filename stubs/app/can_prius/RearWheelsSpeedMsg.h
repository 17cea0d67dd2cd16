#pragma once
#include "../rosbag/bag.h"
namespace can_prius {
struct RearWheelsSpeedMsg {
  ros::Header header;
  double Left, Right;
};
typedef boost::shared_ptr<RearWheelsSpeedMsg> RearWheelsSpeedMsgPtr;
typedef boost::shared_ptr<RearWheelsSpeedMsg const> RearWheelsSpeedMsgConstPtr;
}
