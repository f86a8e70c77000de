// Projection of a real filter onto what the specification speaks about.
#pragma once
#include "ekf/ekf.hpp"
#include "ekf/update/imu_updater.hpp"
#include "io.hpp"

inline Eigen::MatrixXd CovOf(EKF & ekf)
{
  if (ekf.GetUseRootCovariance()) {return ekf.m_cov.transpose() * ekf.m_cov;}
  return ekf.m_cov;
}

inline json Observe(EKF & ekf)
{
  json o;
  o["n"] = ekf.GetStateSize();
  o["vn"] = ekf.m_state.GetStateSize();
  o["cr"] = ekf.m_cov.rows();
  o["cc"] = ekf.m_cov.cols();
  o["starts"] = {ekf.GetImuStateStart(), ekf.GetGpsStateStart(), ekf.GetCamStateStart(),
    ekf.GetFidStateStart(), ekf.GetAugStateStart()};
  o["sizes"] = {ekf.GetImuStateSize(), ekf.GetGpsStateSize(), ekf.GetCamStateSize(),
    ekf.GetAugStateSize()};
  o["counts"] = {ekf.GetImuCount(), ekf.GetGpsCount(), ekf.GetCamCount()};
  o["cur"] = jr(ekf.GetCurrentTime());
  o["grav"] = ekf.IsGravityInitialized();
  o["lla"] = ekf.IsLlaInitialized();
  o["refang"] = jr(ekf.GetReferenceAngle());
  if (ekf.IsLlaInitialized()) {o["ref"] = jv(ekf.GetReferenceLLA());} else {o["ref"] = json::array();}
  auto tv = ekf.GetGpsTimeVector();
  auto ev = ekf.GetGpsEcefVector();
  auto xv = ekf.GetGpsXyzVector();
  o["ngt"] = tv.size();
  o["nge"] = ev.size();
  o["ngx"] = xv.size();
  json bt = json::array(), be = json::array(), bx = json::array();
  for (auto t : tv) {bt.push_back(jr(t));}
  for (auto & x : ev) {be.push_back(jv(x));}
  for (auto & x : xv) {bx.push_back(jv(x));}
  o["gt"] = bt; o["ge"] = be; o["gx"] = bx;
  auto & s = ekf.m_state;
  o["b"] = json{{"p", jv(s.body_state.pos_b_in_l)}, {"v", jv(s.body_state.vel_b_in_l)},
    {"a", jv(s.body_state.acc_b_in_l)}, {"q", jq(s.body_state.ang_b_to_l)},
    {"w", jv(s.body_state.ang_vel_b_in_l)}, {"al", jv(s.body_state.ang_acc_b_in_l)},
    {"ix", s.body_state.index}};
  json a = json::array();
  for (auto & i : s.imu_states) {
    auto & m = i.second;
    a.push_back(json{{"id", i.first}, {"ext", m.GetIsExtrinsic()}, {"int", m.GetIsIntrinsic()},
        {"sz", m.size}, {"ix", m.index}, {"ie", m.index_extrinsic}, {"ii", m.index_intrinsic},
        {"p", jv(m.pos_i_in_b)}, {"q", jq(m.ang_i_to_b)}, {"ba", jv(m.acc_bias)},
        {"bg", jv(m.omg_bias)}});
  }
  o["imus"] = a;
  a = json::array();
  for (auto & i : s.gps_states) {
    auto & m = i.second;
    a.push_back(json{{"id", i.first}, {"ext", m.GetIsExtrinsic()}, {"sz", m.size},
        {"ix", m.index}, {"p", jv(m.pos_a_in_b)}});
  }
  o["gpss"] = a;
  a = json::array();
  for (auto & i : s.cam_states) {
    auto & m = i.second;
    a.push_back(json{{"id", i.first}, {"ext", m.GetIsExtrinsic()}, {"sz", m.size},
        {"ix", m.index}, {"p", jv(m.pos_c_in_b)}, {"q", jq(m.ang_c_to_b)}});
  }
  o["cams"] = a;
  a = json::array();
  for (auto & i : s.fid_states) {
    auto & m = i.second;
    a.push_back(json{{"id", i.first}, {"ext", m.GetIsExtrinsic()}, {"sz", m.size},
        {"ix", m.index}, {"p", jv(m.pos_f_in_l)}, {"q", jq(m.ang_f_to_l)}});
  }
  o["fids"] = a;
  a = json::array();
  for (auto & i : s.aug_states) {
    for (auto & m : i.second) {
      a.push_back(json{{"key", i.first}, {"fid", m.frame_id}, {"t", jr(m.time)}, {"sz", m.size},
          {"ix", m.index}, {"p", jv(m.pos_b_in_l)}, {"q", jq(m.ang_b_to_l)}});
    }
  }
  o["augs"] = a;
  return o;
}
