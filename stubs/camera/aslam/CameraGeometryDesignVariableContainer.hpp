#pragma once
#include <boost/shared_ptr.hpp>
#include <aslam/cameras.hpp>
#include <aslam/backend/DesignVariable.hpp>
namespace aslam {
class CameraGeometryDesignVariableContainer {
 public:
  struct Part : backend::DesignVariable {
    Part(int d) : dim(d) { setActive(true); }
    int dim;
   protected:
    virtual int minimalDimensionsImplementation() const { return dim; }
    virtual void updateImplementation(const double*, int) {}
    virtual void revertUpdateImplementation() {}
    virtual void getParametersImplementation(Eigen::MatrixXd& v) const { v = Eigen::MatrixXd::Zero(dim, 1); }
    virtual void setParametersImplementation(const Eigen::MatrixXd&) {}
  };
  CameraGeometryDesignVariableContainer(boost::shared_ptr<cameras::CameraGeometryBase> g, bool p, bool d, bool s)
      : geometry(g), estimateProjection(p), estimateDistortion(d), estimateShutter(s), projection(g->minimalDimensionsProjection()), distortion(g->minimalDimensionsDistortion()), shutter(g->minimalDimensionsShutter()) { last = this; }
  void getDesignVariables(backend::DesignVariable::set_t& s) const {
    auto& me = const_cast<CameraGeometryDesignVariableContainer&>(*this);
    if (estimateProjection) s.insert(&me.projection);
    if (estimateDistortion) s.insert(&me.distortion);
    if (estimateShutter) s.insert(&me.shutter);
  }
  boost::shared_ptr<cameras::CameraGeometryBase> geometry;
  bool estimateProjection, estimateDistortion, estimateShutter;
  // a set of design variables lists the projection first
  Part projection, distortion, shutter;
  static CameraGeometryDesignVariableContainer* last;
};
}
