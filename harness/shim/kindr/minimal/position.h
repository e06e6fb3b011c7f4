// A stand-in for the part of minkindr that aslam_cv2 uses: minkindr itself is not installed here.
#ifndef KINDR_MINIMAL_POSITION_H_
#define KINDR_MINIMAL_POSITION_H_

#include <Eigen/Dense>

namespace kindr {
namespace minimal {
template <typename Scalar>
using PositionTemplate = Eigen::Matrix<Scalar, 3, 1>;
typedef PositionTemplate<double> Position;
}  // namespace minimal
}  // namespace kindr
#endif  // KINDR_MINIMAL_POSITION_H_
