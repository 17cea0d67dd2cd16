#!/usr/bin/env python3
from plant import plant
I = "incremental_calibration/include/aslam/calibration/"
S = "incremental_calibration/src/"
from plants_lib_head import HEAD

plant("p10_undo_of_copy", "P10", I + "data-structures/VectorDesignVariable.tpp", [("        DesignVariable(other),\n        _value(other._value),\n        _oldValue(other._oldValue) {", "        DesignVariable(other),\n        _value(other._value),\n        _oldValue(other._value) {")], HEAD + r'''
#include <aslam/calibration/data-structures/VectorDesignVariable.h>
using namespace aslam::calibration;
int main() {
  VectorDesignVariable<2> a(Eigen::Vector2d(1, 2));
  const double d[] = {0.5, -3};
  a.update(d, 2);
  VectorDesignVariable<2> b(a);
  b.revertUpdate();
  EXPECT(b.getValue() == Eigen::Vector2d(1, 2));
  EXPECT(a.getValue() == Eigen::Vector2d(1.5, -1));
}
''', "plain", "copying a variable between an update and its reversal", "the copy cannot revert to the value before the update", stubs=["backend"])

plant("p11_long_permutation", "P11", I + "algorithms/permute.tpp", [("      if (container.size() != permutation.size())", "      if (container.size() > permutation.size())")], HEAD + r'''
#include <vector>
#include <aslam/calibration/algorithms/permute.h>
using namespace aslam::calibration;
int main() {
  std::vector<int> c{7, 8, 9};
  std::vector<size_t> p{2, 0, 1};
  permute(c, p);
  EXPECT((c == std::vector<int>{9, 7, 8}));
  p = {1, 0, 2, 0};
  EXPECT(throws([&] { permute(c, p); }));
  EXPECT((c == std::vector<int>{9, 7, 8}));
}
''', "plain", "an index vector longer than the container whose first entries are a permutation", "index vectors that are too long are accepted")

plant("p12_relative_rank", "P12", I + "algorithms/matrixOperations.tpp", [("        if (std::fabs(value) > std::numeric_limits<double>::epsilon())", "        // entries that are negligible next to the largest one do not count\n        if (std::fabs(value) > std::numeric_limits<double>::epsilon() *\n            std::fabs(R(0, 0)) && value != 0)")], HEAD + r'''
#include <Eigen/Core>
#include <aslam/calibration/algorithms/matrixOperations.h>
using namespace aslam::calibration;
int main() {
  Eigen::MatrixXd R(3, 3);
  R << 1e20, 1, 1, 0, -8, 1, 0, 0, 2;
  NEAR(computeSumLogDiagR(R, 1, 2), 4);
}
''', "plain", "a block far below the first diagonal entry in magnitude", "small entries are left out of the sum")

plant("p14_assignment_keeps_translation", "P14", I + "geometry/Transformation3d.tpp", [("        mTransformationMatrix = other.mTransformationMatrix;\n        mRotationMatrix = other.mRotationMatrix;\n        mTranslationMatrix = other.mTranslationMatrix;", "        mTransformationMatrix = other.mTransformationMatrix;\n        mRotationMatrix = other.mRotationMatrix;\n        mTranslationMatrix.setIdentity();\n        mTranslationMatrix.diagonal() = other.mTranslationMatrix.diagonal();")], HEAD + r'''
#include <aslam/calibration/geometry/Transformation.h>
using namespace aslam::calibration;
int main() {
  Transformation<double, 3> a(1, 2, 3, 0.1, -0.2, 0.7), b;
  b = a;
  Eigen::Vector3d p(4, -5, 6), q = b(p);
  EXPECT((a(p) - q).norm() < 1e-9);
  EXPECT((b.getInverse()(q) - p).norm() < 1e-9);
}
''', "plain", "a transformation assigned and then inverted", "an assigned transformation loses its translation when it is inverted")

plant("p15_linear_index", "P15", I + "data-structures/Grid.tpp", [("          mLinProd(i) *= mNumCells(j);", "          mLinProd(i) *= mNumCells(i);")], HEAD + r'''
#include <aslam/calibration/data-structures/Grid.h>
using namespace aslam::calibration;
int main() {
  typedef Grid<double, int, 2> G;
  for (int k = 0; k < 2; ++k) {
    G g(Eigen::Vector2d(0, 0), k ? Eigen::Vector2d(2, 3) : Eigen::Vector2d(3, 3), Eigen::Vector2d(1, 1));
    int n = 0;
    G::Index i = G::Index::Zero();
    for (; i != g.getNumCells(); g.incrementIndex(i)) g[i] = ++n;
    EXPECT(n == (int)g.getNumCellsTot());
    n = 0;
    for (i = G::Index::Zero(); i != g.getNumCells(); g.incrementIndex(i)) EXPECT(g[i] == ++n);
  }
}
''', "plain", "a grid with different numbers of cells per dimension", "different cells share their storage")

plant("p16_normalize_after_empty", "P16", I + "statistics/HistogramMv.tpp", [("      for (auto it = histCopy.getCellBegin(); it != histCopy.getCellEnd(); ++it)\n        *it /= sum;", "      for (auto it = histCopy.getCellBegin(); it != histCopy.getCellEnd() &&\n          *it > 0; ++it)\n        *it /= sum;")], HEAD + r'''
#include <limits>
#include <aslam/calibration/statistics/Histogram.h>
using namespace aslam::calibration;
int main() {
  Histogram<double, 2> h(Eigen::Vector2d(0, 0), Eigen::Vector2d(2, 2), Eigen::Vector2d(1, 1));
  h.addSample(Eigen::Vector2d(0.5, 0.5));
  h.addSample(Eigen::Vector2d(1.5, 1.5));
  auto n = h.getNormalized();
  NEAR(n.getSum(), 1);
  NEAR(n(Eigen::Vector2d(1.5, 1.5)), 0.5);
}
''', "plain", "an empty bin before one with samples", "bins after the first empty one are not normalized")

plant("p17_area_after_max", "P17", I + "statistics/UniformDistribution1v.tpp", [("      setSupport(mMinSupport, maxSupport);", "      if (maxSupport > mMaxSupport)\n        setSupport(mMinSupport, maxSupport);\n      else if (maxSupport > mMinSupport)\n        mMaxSupport = maxSupport;\n      else\n        setSupport(mMinSupport, maxSupport);")], HEAD + r'''
#include <aslam/calibration/statistics/UniformDistribution.h>
using namespace aslam::calibration;
int main() {
  UniformDistribution<double> u(1, 5);
  u.setMaxSupport(9);
  NEAR(u.pdf(2), 1.0 / 8);
  u.setMaxSupport(3);
  NEAR(u.pdf(2), 1.0 / 2);
  EXPECT(u.pdf(4) == 0);
}
''', "plain", "an upper bound lowered after construction", "the density is that of the larger support", src="$I/src/functions/*.cpp")

plant("p18_assigned_normalizer", "P18", S + "statistics/NormalDistribution1v.cpp", [("        mNormalizer = other.mNormalizer;\n", "        mNormalizer = 0.5 * log(2.0 * M_PI * mPrecision);\n")], HEAD + r'''
#include <aslam/calibration/statistics/NormalDistribution.h>
using namespace aslam::calibration;
int main() {
  NormalDistribution<1> a(1, 4), b(2, 9);
  NEAR(a.pdf(1), 1 / std::sqrt(2 * M_PI * 4));
  a = b;
  NEAR(a.pdf(2), 1 / std::sqrt(2 * M_PI * 9));
}
''', "plain", "assigning one distribution to another", "the density of an assigned distribution is wrong", src="$I/src/statistics/*.cpp $I/src/functions/*.cpp")

plant("p19_stale_normalizer", "P19", I + "statistics/GammaDistribution.tpp", [("      mInvScale = invScale;\n      computeNormalizer();", "      computeNormalizer();\n      mInvScale = invScale;")], HEAD + r'''
#include <aslam/calibration/statistics/GammaDistribution.h>
using namespace aslam::calibration;
int main() {
  GammaDistribution<double> g(1, 1);
  g.setInvScale(3);
  NEAR(g.pdf(0.5), 3 * std::exp(-1.5));
  g.setShape(2);
  NEAR(g.pdf(0.5), 9 * 0.5 * std::exp(-1.5));
}
''', "plain", "the inverse scale is the last parameter set", "the density uses the inverse scale before the last one", src="$I/src/functions/*.cpp")

plant("p20_valid_after_reset", "P20", I + "statistics/EstimatorMLNormalMv.tpp", [("      mNumPoints = 0;\n      mValid = false;", "      mNumPoints = 0;\n      mValid = mValid && mValuesSum.size() == M;")], HEAD + r'''
#include <vector>
#include <aslam/calibration/statistics/NormalDistribution.h>
#include <aslam/calibration/statistics/EstimatorML.h>
using namespace aslam::calibration;
int main() {
  EstimatorML<NormalDistribution<2>> e;
  e.addPoint(Eigen::Vector2d(0, 0));
  e.addPoint(Eigen::Vector2d(1, 0));
  EXPECT(!e.getValid());
  e.addPoint(Eigen::Vector2d(0, 1));
  EXPECT(e.getValid());
  e.reset();
  EXPECT(!e.getValid() && e.getNumPoints() == 0);
}
''', "plain", "a reset after a valid estimate", "the estimate stays valid without points", src="$I/src/statistics/*.cpp $I/src/functions/*.cpp")

plant("p21_centre_of_disc", "P21", I + "statistics/Randomizer.tpp", [("      while (s >= 1.0 || s == 0.0);", "      while (s > 1.0 || s == 0.0);")], HEAD + r'''
#include <vector>
static std::vector<long> script;
static size_t at;
extern "C" long random() { return script.empty() ? 1 : script[at++ % script.size()]; }
extern "C" void srandom(unsigned) {}
#include <aslam/calibration/statistics/Randomizer.h>
using namespace aslam::calibration;
int main() {
  Randomizer<double> r;
  // first on the rim of the unit disc (by rounding), then inside
  script = {2147483647, 1073741824, 1500000000, 1200000000};
  const double s[] = {2.0 * 1500000000 / RAND_MAX - 1, 2.0 * 1200000000 / RAND_MAX - 1};
  at = 0;
  double x = r.sampleNormal(0, 1), u = s[0] * s[0] + s[1] * s[1];
  EXPECT(at == 4);
  NEAR(x, s[0] * std::sqrt(-2 * std::log(u) / u));
}
''', "plain", "a pair of generator outputs on the rim of the unit disc", "normal samples that are not normal", src="$I/src/functions/*.cpp")

plant("p22_multivariate_dimensions", "P22", I + "functions/LogGammaFunction.tpp", [("mDim * (mDim - 1) * 0.25 * log(M_PI)", "mDim * (mDim - 1) / 4 * log(M_PI)")], HEAD + r'''
#include <aslam/calibration/functions/LogGammaFunction.h>
using namespace aslam::calibration;
int main() {
  NEAR(LogGammaFunction<double>(1)(3.5), std::lgamma(3.5));
  NEAR(LogGammaFunction<double>(2)(3.5), 0.5 * std::log(M_PI) + std::lgamma(3.5) + std::lgamma(3.0));
}
''', "plain", "a number of dimensions whose product with the one below is not divisible by four", "the multivariate log-gamma function misses a part of its constant", src="$I/src/functions/*.cpp")

plant("p23_equal_times", "P23", S + "base/Timestamp.cpp", [("    bool Timestamp::operator >= (double seconds) const {\n      return (mSeconds >= seconds);", "    bool Timestamp::operator >= (double seconds) const {\n      return (mSeconds - seconds > -1e-9);")], HEAD + r'''
#include <aslam/calibration/base/Timestamp.h>
using namespace aslam::calibration;
int main() {
  EXPECT(Timestamp(2.0) >= 2.0 && !(Timestamp(1.0) >= 2.0));
  EXPECT(!(Timestamp(1.9999999995) >= 2.0) && Timestamp(1.9999999995) < 2.0);
}
''', "plain", "two times less than a nanosecond apart", "a time counts as before and not before another")
