#pragma once
#include "../rosbag/bag.h"
namespace can_prius {
struct Steering1Msg {
  ros::Header header;
  double value;
};
typedef boost::shared_ptr<Steering1Msg> Steering1MsgPtr;
typedef boost::shared_ptr<Steering1Msg const> Steering1MsgConstPtr;
}
