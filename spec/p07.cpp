// Reference semantics of the robot description and of the server giving access to it.
#include "assume.hh"
#include <dynamic-graph/all-signals.h>
#include <dynamic-graph/entity.h>
#include <dynamic-graph/linear-algebra.h>
#include <Eigen/Geometry>
#include <cmath>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <sot/core/matrix-geometry.hh>
#include <sot/core/exception-tools.hh>
namespace spec {
using dynamicgraph::Entity;
using dynamicgraph::Matrix;
using dynamicgraph::Vector;
using namespace dynamicgraph::sot;
typedef Eigen::VectorXd::Index Index;
typedef Eigen::Ref<Eigen::VectorXd> RefVector;
typedef const Eigen::Ref<const Eigen::VectorXd>& ConstRefVector;
typedef const Eigen::Ref<const Eigen::MatrixXd>& ConstRefMatrix;

struct JointLimits {
  double upper, lower;
  JointLimits() : upper(0), lower(0) {}
  JointLimits(double l, double u) : upper(u), lower(l) {}
};
struct ForceLimits {
  Eigen::VectorXd upper, lower;
  ForceLimits() : upper(Eigen::VectorXd::Zero(6)), lower(Eigen::VectorXd::Zero(6)) {}
  ForceLimits(const Eigen::VectorXd& l, const Eigen::VectorXd& u) : upper(u), lower(l) {}
};
ForceLimits VoidForceLimits;
JointLimits VoidJointLimits;
Index VoidIndex(-1);
std::string force_default_rtn("Force name not found");
std::string joint_default_rtn("Joint name not found");
struct ForceUtil {
  std::map<Index, ForceLimits> m_force_id_to_limits;
  std::map<std::string, Index> m_name_to_force_id;
  std::map<Index, std::string> m_force_id_to_name;
  Index m_Force_Id_Left_Hand, m_Force_Id_Right_Hand, m_Force_Id_Left_Foot, m_Force_Id_Right_Foot;
  // every index maps to a name that maps to it
  void create_force_id_to_name_map() {
    m_force_id_to_name.clear();
    for (std::map<std::string, Index>::const_iterator i = m_name_to_force_id.begin(); i != m_name_to_force_id.end(); ++i)
      m_force_id_to_name[i->second] = i->first;
  }
  void set_name_to_force_id(const std::string& name, const Index& id) {
    m_name_to_force_id[name] = id;
    create_force_id_to_name_map();
    if (name == "rf") m_Force_Id_Right_Foot = id;
    if (name == "lf") m_Force_Id_Left_Foot = id;
    if (name == "rh") m_Force_Id_Right_Hand = id;
    if (name == "lh") m_Force_Id_Left_Hand = id;
  }
  void set_force_id_to_limits(const Index& id, const Vector& lf, const Vector& uf) {
    m_force_id_to_limits[id].lower = lf;
    m_force_id_to_limits[id].upper = uf;
  }
  Index get_id_from_name(const std::string& name) {
    if (m_name_to_force_id.count(name) == 0) return -1;
    return m_name_to_force_id.find(name)->second;
  }
  const std::string& get_name_from_id(Index i) {
    if (m_force_id_to_name.count(i) == 0) return force_default_rtn;
    return m_force_id_to_name.find(i)->second;
  }
  std::string cp_get_name_from_id(Index i) { return get_name_from_id(i); }
  const ForceLimits& get_limits_from_id(Index i) {
    if (m_force_id_to_limits.count(i) == 0) return VoidForceLimits;
    return m_force_id_to_limits.find(i)->second;
  }
  ForceLimits cp_get_limits_from_id(Index i) { return get_limits_from_id(i); }
  Index get_force_id_left_hand() { return m_Force_Id_Left_Hand; }
  Index get_force_id_right_hand() { return m_Force_Id_Right_Hand; }
  Index get_force_id_left_foot() { return m_Force_Id_Left_Foot; }
  Index get_force_id_right_foot() { return m_Force_Id_Right_Foot; }
  void set_force_id_left_hand(Index i) { m_Force_Id_Left_Hand = i; }
  void set_force_id_right_hand(Index i) { m_Force_Id_Right_Hand = i; }
  void set_force_id_left_foot(Index i) { m_Force_Id_Left_Foot = i; }
  void set_force_id_right_foot(Index i) { m_Force_Id_Right_Foot = i; }
};
struct FootUtil {
  Vector m_Right_Foot_Sole_XYZ, m_Right_Foot_Force_Sensor_XYZ;
  std::string m_Left_Foot_Frame_Name, m_Right_Foot_Frame_Name;
};
struct HandUtil {
  std::string m_Left_Hand_Frame_Name, m_Right_Hand_Frame_Name;
};

Eigen::Matrix3d turn_(double w, double x, double y, double z) {
  Eigen::Matrix3d R;
  R << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y),
      2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x),
      2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
  return R;
}
// roll, pitch, yaw of a pose; at the singularity the roll is zero
bool base_se3_to_sot(ConstRefVector pos, ConstRefMatrix R, RefVector q_sot) {
  double p = atan2(-R(2, 0), sqrt(R(2, 1) * R(2, 1) + R(2, 2) * R(2, 2)));
  bool singular = fabs(fabs(p) - M_PI / 2) < 0.001;
  for (int i = 0; i < 3; i++) q_sot[i] = pos[i];
  q_sot[3] = singular ? 0 : atan2(R(2, 1), R(2, 2));
  q_sot[4] = p;
  q_sot[5] = singular ? -atan2(R(0, 1), R(1, 1)) : atan2(R(1, 0), R(0, 0));
  return true;
}
void valid_base_urdf_to_sot_(ConstRefVector q_urdf, RefVector q_sot) { assume_eq(q_urdf.size(), 7); assume_eq(q_sot.size(), 6); }
void valid_base_sot_to_urdf_(ConstRefVector q_sot, RefVector q_urdf) { assume_eq(q_urdf.size(), 7); assume_eq(q_sot.size(), 6); }
void valid_base_se3_to_sot_(ConstRefVector pos, ConstRefMatrix R, RefVector q_sot) { assume_eq(pos.size(), 3); assume_eq(R.rows(), 3); assume_eq(R.cols(), 3); assume_eq(q_sot.size(), 6); }
bool base_urdf_to_sot(ConstRefVector q_urdf, RefVector q_sot) {
  return base_se3_to_sot(q_urdf.head<3>(), turn_(q_urdf[6], q_urdf[3], q_urdf[4], q_urdf[5]), q_sot);
}
// quaternion of Rz(yaw) Ry(pitch) Rx(roll)
bool base_sot_to_urdf(ConstRefVector q_sot, RefVector q_urdf) {
  double cr = cos(q_sot[3] / 2), sr = sin(q_sot[3] / 2), cp = cos(q_sot[4] / 2), sp = sin(q_sot[4] / 2), cy = cos(q_sot[5] / 2), sy = sin(q_sot[5] / 2);
  for (int i = 0; i < 3; i++) q_urdf[i] = q_sot[i];
  q_urdf[3] = cy * cp * sr - sy * sp * cr;
  q_urdf[4] = cy * sp * cr + sy * cp * sr;
  q_urdf[5] = sy * cp * cr - cy * sp * sr;
  q_urdf[6] = cy * cp * cr + sy * sp * sr;
  return true;
}

struct RobotUtil {
  ForceUtil m_force_util;
  FootUtil m_foot_util;
  HandUtil m_hand_util;
  std::vector<Index> m_urdf_to_sot;
  std::size_t m_nbJoints;
  std::map<std::string, Index> m_name_to_id;
  std::map<Index, std::string> m_id_to_name;
  std::map<Index, JointLimits> m_limits_map;
  std::string m_imu_joint_name;
  std::string m_urdf_filename;
  Vector m_dgv_urdf_to_sot;
  RobotUtil() : m_nbJoints(0) {}

  void create_id_to_name_map() {
    m_id_to_name.clear();
    for (std::map<std::string, Index>::const_iterator i = m_name_to_id.begin(); i != m_name_to_id.end(); ++i)
      m_id_to_name[i->second] = i->first;
  }
  void set_name_to_id(const std::string& name, const Index& id) {
    m_name_to_id[name] = id;
    create_id_to_name_map();
  }
  const Index& get_id_from_name(const std::string& name) {
    if (m_name_to_id.count(name) == 0) return VoidIndex;
    return m_name_to_id.find(name)->second;
  }
  const std::string& get_name_from_id(Index i) {
    if (m_id_to_name.count(i) == 0) return joint_default_rtn;
    return m_id_to_name.find(i)->second;
  }
  const JointLimits& get_joint_limits_from_id(Index i) {
    if (m_limits_map.count(i) == 0) return VoidJointLimits;
    return m_limits_map.find(i)->second;
  }
  JointLimits cp_get_joint_limits_from_id(Index i) { return get_joint_limits_from_id(i); }
  template <typename T> void set_parameter(const std::string& n, const T& v);
  template <typename T> T get_parameter(const std::string& n);
  void set_joint_limits_for_id(const Index& id, const double& lq, const double& uq) {
    m_limits_map[id].lower = lq;
    m_limits_map[id].upper = uq;
  }
  void set_urdf_to_sot(const std::vector<Index>& m) {
    m_nbJoints = m.size();
    m_urdf_to_sot = m;
    m_dgv_urdf_to_sot.resize(m.size());
    for (std::size_t i = 0; i < m.size(); i++) m_dgv_urdf_to_sot[i] = m[i];
  }
  void set_urdf_to_sot(const Vector& m) {
    m_nbJoints = m.size();
    m_urdf_to_sot.resize(m.size());
    for (int i = 0; i < m.size(); i++) m_urdf_to_sot[i] = (unsigned int)m[i];
    m_dgv_urdf_to_sot = m;
  }
  void mapped_() const {
    assume_eq(m_urdf_to_sot.size(), m_nbJoints);
    assume_elems(m_urdf_to_sot, 0, m_nbJoints);
  }
  void valid_joints_urdf_to_sot_(ConstRefVector q_urdf, RefVector q_sot) { mapped_(); assume_eq(q_urdf.size(), m_nbJoints); assume_eq(q_sot.size(), m_nbJoints); }
  bool joints_urdf_to_sot(ConstRefVector q_urdf, RefVector q_sot) {
    if (m_nbJoints == 0) return false;
    for (std::size_t i = 0; i < m_nbJoints; i++) q_sot[m_urdf_to_sot[i]] = q_urdf[i];
    return true;
  }
  void valid_joints_sot_to_urdf_(ConstRefVector q_sot, RefVector q_urdf) { mapped_(); assume_eq(q_urdf.size(), m_nbJoints); assume_eq(q_sot.size(), m_nbJoints); }
  bool joints_sot_to_urdf(ConstRefVector q_sot, RefVector q_urdf) {
    if (m_nbJoints == 0) return false;
    for (std::size_t i = 0; i < m_nbJoints; i++) q_urdf[i] = q_sot[m_urdf_to_sot[i]];
    return true;
  }
  // the first three rows of a velocity are linear, the next three angular: world frame in the sot convention, base frame in the urdf one
  void valid_velocity_urdf_to_sot_(ConstRefVector q_urdf, ConstRefVector v_urdf, RefVector v_sot) {
    mapped_(); assume_eq(q_urdf.size(), m_nbJoints + 7); assume_eq(v_urdf.size(), m_nbJoints + 6); assume_eq(v_sot.size(), m_nbJoints + 6);
  }
  bool velocity_urdf_to_sot(ConstRefVector q_urdf, ConstRefVector v_urdf, RefVector v_sot) {
    if (m_nbJoints == 0) return false;
    Eigen::Matrix3d R = turn_(q_urdf(6), q_urdf(3), q_urdf(4), q_urdf(5));
    v_sot.head<3>() = R * v_urdf.head<3>();
    v_sot.segment<3>(3) = R * v_urdf.segment<3>(3);
    for (std::size_t i = 0; i < m_nbJoints; i++) v_sot[6 + m_urdf_to_sot[i]] = v_urdf[6 + i];
    return true;
  }
  void valid_velocity_sot_to_urdf_(ConstRefVector q_urdf, ConstRefVector v_sot, RefVector v_urdf) {
    mapped_(); assume_eq(q_urdf.size(), m_nbJoints + 7); assume_eq(v_urdf.size(), m_nbJoints + 6); assume_eq(v_sot.size(), m_nbJoints + 6);
  }
  bool velocity_sot_to_urdf(ConstRefVector q_urdf, ConstRefVector v_sot, RefVector v_urdf) {
    if (m_nbJoints == 0) return false;
    Eigen::Matrix3d R = turn_(q_urdf(6), q_urdf(3), q_urdf(4), q_urdf(5));
    v_urdf.head<3>() = R.transpose() * v_sot.head<3>();
    v_urdf.segment<3>(3) = R.transpose() * v_sot.segment<3>(3);
    for (std::size_t i = 0; i < m_nbJoints; i++) v_urdf[6 + i] = v_sot[6 + m_urdf_to_sot[i]];
    return true;
  }
  void valid_base_urdf_to_sot_(ConstRefVector q_urdf, RefVector q_sot) { assume_eq(q_urdf.size(), 7); assume_eq(q_sot.size(), 6); }
  void valid_base_sot_to_urdf_(ConstRefVector q_sot, RefVector q_urdf) { assume_eq(q_urdf.size(), 7); assume_eq(q_sot.size(), 6); }
  bool base_urdf_to_sot(ConstRefVector q_urdf, RefVector q_sot) { return spec::base_urdf_to_sot(q_urdf, q_sot); }
  bool base_sot_to_urdf(ConstRefVector q_sot, RefVector q_urdf) { return spec::base_sot_to_urdf(q_sot, q_urdf); }
  void valid_config_urdf_to_sot_(ConstRefVector q_urdf, RefVector q_sot) { mapped_(); assume_eq(q_urdf.size(), m_nbJoints + 7); assume_eq(q_sot.size(), m_nbJoints + 6); }
  bool config_urdf_to_sot(ConstRefVector q_urdf, RefVector q_sot) {
    if (m_nbJoints == 0) return false;
    base_urdf_to_sot(q_urdf.head<7>(), q_sot.head<6>());
    return joints_urdf_to_sot(q_urdf.tail(m_nbJoints), q_sot.tail(m_nbJoints));
  }
  void valid_config_sot_to_urdf_(ConstRefVector q_sot, RefVector q_urdf) { mapped_(); assume_eq(q_urdf.size(), m_nbJoints + 7); assume_eq(q_sot.size(), m_nbJoints + 6); }
  bool config_sot_to_urdf(ConstRefVector q_sot, RefVector q_urdf) {
    if (m_nbJoints == 0) return false;
    base_sot_to_urdf(q_sot.head<6>(), q_urdf.head<7>());
    return joints_sot_to_urdf(q_sot.tail(m_nbJoints), q_urdf.tail(m_nbJoints));
  }
};

typedef std::shared_ptr<RobotUtil> RobotUtilShrPtr;
std::map<std::string, RobotUtilShrPtr> sgl_map_name_to_robot_util;
RobotUtilShrPtr RefVoidRobotUtil() { return RobotUtilShrPtr(nullptr); }
RobotUtilShrPtr getRobotUtil(std::string& name) {
  if (sgl_map_name_to_robot_util.count(name) == 0) return RobotUtilShrPtr(nullptr);
  return sgl_map_name_to_robot_util.find(name)->second;
}
bool isNameInRobotUtil(std::string& name) { return sgl_map_name_to_robot_util.count(name) != 0; }
// one description per name: an existing one is never replaced
RobotUtilShrPtr createRobotUtil(std::string& name) {
  if (sgl_map_name_to_robot_util.count(name)) return RobotUtilShrPtr(nullptr);
  RobotUtilShrPtr r = std::make_shared<RobotUtil>();
  sgl_map_name_to_robot_util[name] = r;
  return r;
}

std::shared_ptr<std::vector<std::string> > getListOfRobots() {
  std::shared_ptr<std::vector<std::string> > r = std::make_shared<std::vector<std::string> >();
  for (std::map<std::string, RobotUtilShrPtr>::iterator i = sgl_map_name_to_robot_util.begin(); i != sgl_map_name_to_robot_util.end(); ++i) r->push_back(i->first);
  return r;
}

class ParameterServer : public Entity {
 public:
  ParameterServer(const std::string& n);
  RobotUtilShrPtr m_robot_util;
  bool m_initSucceeded;
  double m_dt;
  void init(const double& dt, const std::string& urdf, const std::string& robot) {
    if (dt <= 0) return;
    std::string name(robot);
    m_robot_util = isNameInRobotUtil(name) ? getRobotUtil(name) : createRobotUtil(name);
    m_robot_util->m_urdf_filename = urdf;
    m_dt = dt;
    m_initSucceeded = true;
  }
  // the robot is the only one registered
  void init_simple(const double& dt) {
    if (dt <= 0) return;
    std::shared_ptr<std::vector<std::string> > all = getListOfRobots();
    if (all->size() != 1) throw ExceptionTools(ExceptionTools::PARAMETER_SERVER, "");
    std::string name = (*all)[0];
    m_dt = dt;
    m_initSucceeded = true;
    m_robot_util = isNameInRobotUtil(name) ? getRobotUtil(name) : createRobotUtil(name);
  }
  template <typename T> void setParameter(const std::string& n, const T& v) {
    if (m_initSucceeded) m_robot_util->set_parameter<T>(n, v);
  }
  template <typename T> T getParameter(const std::string& n) {
    if (!m_initSucceeded) throw std::runtime_error("");
    return m_robot_util->get_parameter<T>(n);
  }
  void setNameToId(const std::string& name, const double& id) {
    if (m_initSucceeded) m_robot_util->set_name_to_id(name, (Index)id);
  }
  void setJointLimitsFromId(const double& id, const double& lq, const double& uq) {
    if (m_initSucceeded) m_robot_util->set_joint_limits_for_id((Index)id, lq, uq);
  }
  void setForceLimitsFromId(const double& id, const Vector& lq, const Vector& uq) {
    if (m_initSucceeded) m_robot_util->m_force_util.set_force_id_to_limits((Index)id, lq, uq);
  }
  void setForceNameToForceId(const std::string& name, const double& id) {
    if (m_initSucceeded) m_robot_util->m_force_util.set_name_to_force_id(name, (Index)id);
  }
  void setJoints(const Vector& m) {
    if (m_initSucceeded) m_robot_util->set_urdf_to_sot(m);
  }
  void setRightFootSoleXYZ(const Vector& x) {
    if (m_initSucceeded) m_robot_util->m_foot_util.m_Right_Foot_Sole_XYZ = x;
  }
  void setRightFootForceSensorXYZ(const Vector& x) {
    if (m_initSucceeded) m_robot_util->m_foot_util.m_Right_Foot_Force_Sensor_XYZ = x;
  }
  void setFootFrameName(const std::string& foot, const std::string& frame) {
    if (!m_initSucceeded) return;
    if (foot == "Right") m_robot_util->m_foot_util.m_Right_Foot_Frame_Name = frame;
    if (foot == "Left") m_robot_util->m_foot_util.m_Left_Foot_Frame_Name = frame;
  }
  void setHandFrameName(const std::string& hand, const std::string& frame) {
    if (!m_initSucceeded) return;
    if (hand == "Right") m_robot_util->m_hand_util.m_Right_Hand_Frame_Name = frame;
    if (hand == "Left") m_robot_util->m_hand_util.m_Left_Hand_Frame_Name = frame;
  }
  bool convertJointNameToJointId(const std::string& name, unsigned int& id) {
    Index j = m_robot_util->get_id_from_name(name);
    if (j < 0) return false;
    id = (unsigned int)j;
    return true;
  }
  bool isJointInRange(unsigned int id, double q) {
    const JointLimits& l = m_robot_util->get_joint_limits_from_id((Index)id);
    return !(q < l.lower) && !(q > l.upper);
  }
  void setImuJointName(const std::string& n) {
    if (m_initSucceeded) m_robot_util->m_imu_joint_name = n;
  }
};
template void ParameterServer::setParameter<bool>(const std::string&, const bool&);
template void ParameterServer::setParameter<int>(const std::string&, const int&);
template void ParameterServer::setParameter<double>(const std::string&, const double&);
template void ParameterServer::setParameter<std::string>(const std::string&, const std::string&);
template bool ParameterServer::getParameter<bool>(const std::string&);
template int ParameterServer::getParameter<int>(const std::string&);
template double ParameterServer::getParameter<double>(const std::string&);
template std::string ParameterServer::getParameter<std::string>(const std::string&);
}
