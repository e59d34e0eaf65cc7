// Instances of the sample-consensus templates for an arbitrary problem: the
// model is opaque (an identity), the problem is abstract.
#include <cmath>
#include <climits>
#include <limits>
#include <algorithm>
#include <vector>
#include <Eigen/Eigen>
#include <opengv/sac/Ransac.hpp>
#include <opengv/sac/Lmeds.hpp>
#include <opengv/sac/MultiRansac.hpp>
#include <opengv/sac/SampleConsensusProblem.hpp>
#include <opengv/sac/MultiSampleConsensusProblem.hpp>
struct VModel { int id; };
class VProblem : public opengv::sac::SampleConsensusProblem<VModel> {};
class VMultiProblem : public opengv::sac::MultiSampleConsensusProblem<VModel> {};
template class opengv::sac::SampleConsensusProblem<VModel>;
template class opengv::sac::MultiSampleConsensusProblem<VModel>;
template class opengv::sac::Ransac<VProblem>;
template class opengv::sac::Lmeds<VProblem>;
template class opengv::sac::MultiRansac<VMultiProblem>;
