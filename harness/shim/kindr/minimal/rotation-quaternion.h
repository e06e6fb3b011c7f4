// A stand-in for the part of minkindr that aslam_cv2 uses: minkindr itself is not installed here. Unit quaternions.
#ifndef KINDR_MINIMAL_ROTATION_QUATERNION_H_
#define KINDR_MINIMAL_ROTATION_QUATERNION_H_

#include <cmath>
#include <ostream>
#include <random>

#include <Eigen/Dense>
#include <glog/logging.h>

namespace kindr {
namespace minimal {

template <typename Scalar>
class AngleAxisTemplate {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  typedef Eigen::Matrix<Scalar, 3, 1> Vector3;
  typedef Eigen::Matrix<Scalar, 3, 3> RotationMatrix;
  AngleAxisTemplate() : a_(Scalar(0), Vector3::UnitX()) {}
  AngleAxisTemplate(Scalar angle, const Vector3& axis) : a_(angle, axis) {}
  Scalar angle() const { return a_.angle(); }
  const Vector3& axis() const { return a_.axis(); }
  RotationMatrix getRotationMatrix() const { return a_.toRotationMatrix(); }
  const Eigen::AngleAxis<Scalar>& toImplementation() const { return a_; }

 private:
  Eigen::AngleAxis<Scalar> a_;
};

template <typename Scalar>
class RotationQuaternionTemplate {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  typedef Eigen::Matrix<Scalar, 3, 1> Vector3;
  typedef Eigen::Matrix<Scalar, 4, 1> Vector4;
  typedef Eigen::Matrix<Scalar, 3, 3> RotationMatrix;
  typedef Eigen::Quaternion<Scalar> Implementation;

  RotationQuaternionTemplate() : q_(Implementation::Identity()) {}
  RotationQuaternionTemplate(Scalar w, Scalar x, Scalar y, Scalar z) : q_(w, x, y, z) {}
  explicit RotationQuaternionTemplate(const Implementation& q) : q_(q) {}
  explicit RotationQuaternionTemplate(const RotationMatrix& m) : q_(m) {}
  explicit RotationQuaternionTemplate(const AngleAxisTemplate<Scalar>& a) : q_(a.toImplementation()) {}

  Scalar w() const { return q_.w(); }
  Scalar x() const { return q_.x(); }
  Scalar y() const { return q_.y(); }
  Scalar z() const { return q_.z(); }
  void setIdentity() { q_.setIdentity(); }
  RotationQuaternionTemplate& setRandom() {
    static std::mt19937 generator(5u);
    std::normal_distribution<double> gauss;
    q_ = Implementation(gauss(generator), gauss(generator), gauss(generator), gauss(generator));
    q_.normalize();
    return *this;
  }
  RotationMatrix getRotationMatrix() const { return q_.matrix(); }
  const Implementation& toImplementation() const { return q_; }
  RotationQuaternionTemplate inverse() const { return RotationQuaternionTemplate(q_.conjugate()); }
  Vector3 rotate(const Vector3& v) const { return q_ * v; }
  template <int Cols>
  Eigen::Matrix<Scalar, 3, Cols> rotateVectorized(const Eigen::Matrix<Scalar, 3, Cols>& v) const {
    return getRotationMatrix() * v;
  }
  Vector3 inverseRotate(const Vector3& v) const { return q_.conjugate() * v; }
  RotationQuaternionTemplate operator*(const RotationQuaternionTemplate& other) const {
    return RotationQuaternionTemplate(q_ * other.q_);
  }
  bool operator==(const RotationQuaternionTemplate& other) const { return q_.coeffs() == other.q_.coeffs(); }
  bool operator!=(const RotationQuaternionTemplate& other) const { return !(*this == other); }

 private:
  Implementation q_;
};

typedef RotationQuaternionTemplate<double> RotationQuaternion;
typedef AngleAxisTemplate<double> AngleAxis;

template <typename Scalar>
std::ostream& operator<<(std::ostream& out, const RotationQuaternionTemplate<Scalar>& q) {
  return out << q.w() << " " << q.x() << " " << q.y() << " " << q.z();
}

}  // namespace minimal
}  // namespace kindr
#endif  // KINDR_MINIMAL_ROTATION_QUATERNION_H_
