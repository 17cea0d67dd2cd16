#pragma once
namespace aslam { namespace backend {
class TrustRegionPolicy { public: virtual ~TrustRegionPolicy() {} };
class GaussNewtonTrustRegionPolicy : public TrustRegionPolicy {};
}}
