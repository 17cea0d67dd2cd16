// the options of the camera calibrator and validator, from a configuration
#pragma once
#include <cstring>
template <class Options> struct Configured {
  std::vector<std::string> keys;
  std::vector<std::function<void(sm::PropertyTree&)>> put;
  std::vector<std::function<bool(const Options&)>> holds, standard;
  void number(const char* k, double Options::*m) {
    double v = sv_double("number");
    add(k, [=](sm::PropertyTree& t) { t.setDouble(k, v); }, [=](const Options& o) { return bitEqual(o.*m, v); }, [=](const Options& o) { return bitEqual(o.*m, Options().*m); });
  }
  void number(const char* k, float Options::*m) {
    float v = sv_float("number");
    sv_assume(v == v);
    add(k, [=](sm::PropertyTree& t) { t.setDouble(k, v); }, [=](const Options& o) { return o.*m == v; }, [=](const Options& o) { return o.*m == Options().*m; });
  }
  template <class T> void integer(const char* k, T Options::*m, long v) {
    add(k, [=](sm::PropertyTree& t) { t.setInt(k, v); }, [=](const Options& o) { return o.*m == (T)v; }, [=](const Options& o) { return o.*m == Options().*m; });
  }
  void flag(const char* k, bool Options::*m) {
    bool v = sv_bool("flag");
    add(k, [=](sm::PropertyTree& t) { t.setBool(k, v); }, [=](const Options& o) { return o.*m == v; }, [=](const Options& o) { return o.*m == Options().*m; });
  }
  void text(const char* k, std::string Options::*m, const std::string& v) {
    add(k, [=](sm::PropertyTree& t) { t.setString(k, v); }, [=](const Options& o) { return o.*m == v; }, [=](const Options& o) { return o.*m == Options().*m; });
  }
  void add(const char* k, std::function<void(sm::PropertyTree&)> p, std::function<bool(const Options&)> h, std::function<bool(const Options&)> s) {
    keys.push_back(k);
    put.push_back(p);
    holds.push_back(h);
    standard.push_back(s);
  }
  void vision() {
    integer("rows", &Options::rows, 1 + sv_choose("rows", 2));
    integer("cols", &Options::cols, 1 + sv_choose("cols", 2));
    number("rowSpacingMeters", &Options::rowSpacingMeters);
    number("colSpacingMeters", &Options::colSpacingMeters);
    flag("useAdaptiveThreshold", &Options::useAdaptiveThreshold);
    flag("normalizeImage", &Options::normalizeImage);
    flag("filterQuads", &Options::filterQuads);
    flag("doSubpixelRefinement", &Options::doSubpixelRefinement);
    flag("showExtractionVideo", &Options::showExtractionVideo);
    flag("plotCornerReprojection", &Options::plotCornerReprojection);
    flag("imageStepping", &Options::imageStepping);
    flag("filterCornerOutliers", &Options::filterCornerOutliers);
    number("filterCornerSigmaThreshold", &Options::filterCornerSigmaThreshold);
    number("filterCornerMinReprojError", &Options::filterCornerMinReprojError);
    number("sigma2", &Options::sigma2);
    flag("verbose", &Options::verbose);
  }
  // all keys but one
  size_t write(sm::PropertyTree& t) {
    const size_t absent = sv_choose("absent", keys.size() + 1);
    for (size_t i = 0; i < keys.size(); ++i)
      if (i != absent) put[i](t);
    return absent;
  }
  void check(const Options& o, size_t absent) {
    for (size_t i = 0; i < keys.size(); ++i)
      if (i == absent) sv_check(standard[i](o), "absent-option-has-its-default");
      else sv_check(holds[i](o), "options-are-as-configured");
  }
};
// the target and the detector are made as the options say
template <class Options> static void made(const Options& o, bool omni) {
  auto& t = *Target::last;
  sv_check(t.rows == o.rows && t.cols == o.cols && bitEqual(t.rowMeters, o.rowSpacingMeters) && bitEqual(t.colMeters, o.colSpacingMeters), "target-is-the-configured-one");
  auto& c = t.options;
  sv_check(c.useAdaptiveThreshold == o.useAdaptiveThreshold && c.normalizeImage == o.normalizeImage && c.filterQuads == o.filterQuads && c.doSubpixelRefinement == o.doSubpixelRefinement && c.showExtractionVideo == o.showExtractionVideo, "target-is-looked-for-as-configured");
  auto& d = *GridDetector::last;
  sv_check(d.target.get() == &t && d.geometry.get() == CameraGeometryBase::last && d.geometry->omni == omni, "detector-has-the-target-and-the-camera");
  sv_check(d.options.plotCornerReprojection == o.plotCornerReprojection && d.options.imageStepping == o.imageStepping && d.options.filterCornerOutliers == o.filterCornerOutliers && d.options.filterCornerSigmaThreshold == o.filterCornerSigmaThreshold && d.options.filterCornerMinReprojError == o.filterCornerMinReprojError, "target-is-looked-for-as-configured");
}
