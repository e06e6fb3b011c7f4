// A stand-in for the part of minkindr that aslam_cv2 uses: minkindr itself is not installed here. Rigid transformations.
#ifndef KINDR_MINIMAL_QUAT_TRANSFORMATION_H_
#define KINDR_MINIMAL_QUAT_TRANSFORMATION_H_

#include <ostream>

#include <kindr/minimal/position.h>
#include <kindr/minimal/rotation-quaternion.h>

namespace kindr {
namespace minimal {

template <typename Scalar>
class QuatTransformationTemplate {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  typedef Eigen::Matrix<Scalar, 3, 1> Vector3;
  typedef Eigen::Matrix<Scalar, 4, 4> TransformationMatrix;
  typedef Eigen::Matrix<Scalar, 3, 3> RotationMatrix;
  typedef RotationQuaternionTemplate<Scalar> Rotation;
  typedef PositionTemplate<Scalar> Position;

  QuatTransformationTemplate() : t_(Position::Zero()) {}
  QuatTransformationTemplate(const Rotation& q, const Position& t) : q_(q), t_(t) {}
  QuatTransformationTemplate(const Position& t, const Rotation& q) : q_(q), t_(t) {}
  explicit QuatTransformationTemplate(const TransformationMatrix& T)
      : q_(RotationMatrix(T.template topLeftCorner<3, 3>())), t_(T.template topRightCorner<3, 1>()) {}

  void setIdentity() {
    q_.setIdentity();
    t_.setZero();
  }
  QuatTransformationTemplate& setRandom() {
    q_.setRandom();
    t_.setRandom();
    return *this;
  }
  QuatTransformationTemplate& setRandom(Scalar norm_translation) {
    setRandom();
    t_ = t_.normalized() * norm_translation;
    return *this;
  }
  const Position& getPosition() const { return t_; }
  Position& getPosition() { return t_; }
  const Rotation& getRotation() const { return q_; }
  Rotation& getRotation() { return q_; }
  RotationMatrix getRotationMatrix() const { return q_.getRotationMatrix(); }
  const Eigen::Quaternion<Scalar>& getEigenQuaternion() const { return q_.toImplementation(); }
  TransformationMatrix getTransformationMatrix() const {
    TransformationMatrix T = TransformationMatrix::Identity();
    T.template topLeftCorner<3, 3>() = getRotationMatrix();
    T.template topRightCorner<3, 1>() = t_;
    return T;
  }
  QuatTransformationTemplate inverse() const {
    return QuatTransformationTemplate(q_.inverse(), Position(-q_.inverseRotate(t_)));
  }
  Vector3 transform(const Vector3& v) const { return q_.rotate(v) + t_; }
  Vector3 inverseTransform(const Vector3& v) const { return q_.inverseRotate(v - t_); }
  QuatTransformationTemplate operator*(const QuatTransformationTemplate& other) const {
    return QuatTransformationTemplate(q_ * other.q_, Position(t_ + q_.rotate(other.t_)));
  }
  Vector3 operator*(const Vector3& v) const { return transform(v); }
  bool operator==(const QuatTransformationTemplate& other) const { return q_ == other.q_ && t_ == other.t_; }
  bool operator!=(const QuatTransformationTemplate& other) const { return !(*this == other); }

 private:
  Rotation q_;
  Position t_;
};

typedef QuatTransformationTemplate<double> QuatTransformation;

template <typename Scalar>
std::ostream& operator<<(std::ostream& out, const QuatTransformationTemplate<Scalar>& T) {
  return out << T.getTransformationMatrix();
}

}  // namespace minimal
}  // namespace kindr
#endif  // KINDR_MINIMAL_QUAT_TRANSFORMATION_H_
