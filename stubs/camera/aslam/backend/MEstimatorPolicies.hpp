#pragma once
namespace aslam { namespace backend {
struct BlakeZissermanMEstimator {
  BlakeZissermanMEstimator(size_t d) : dimension(d) {}
  size_t dimension;
};
}}
