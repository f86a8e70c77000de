// Operations on the simulation: trajectories, simulated sensors, feature tracks.
#include <algorithm>
#include <filesystem>
#include <sstream>

#include "ekf/ekf.hpp"
#include "infrastructure/debug_logger.hpp"
#include "infrastructure/sim/truth_engine.hpp"
#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "infrastructure/sim/truth_engine_spline.hpp"
#include "sensors/sim/sim_camera.hpp"
#include "sensors/sim/sim_gps.hpp"
#include "sensors/sim/sim_imu.hpp"
#include "trackers/sim/sim_feature_tracker.hpp"
#include "trackers/sim/sim_fiducial_tracker.hpp"
#include "utility/sim/sim_rng.hpp"
#include "sensors/sensor.hpp"
#include "io.hpp"
#include "filter_obs.hpp"

namespace
{
// A trajectory that is wherever the script puts it
class ScriptTruth : public TruthEngine
{
public:
  using TruthEngine::TruthEngine;
  Eigen::Vector3d p{0, 0, 0}, v{0, 0, 0}, a{0, 0, 0}, w{0, 0, 0}, al{0, 0, 0};
  Eigen::Quaterniond q{1, 0, 0, 0};
  Eigen::Vector3d GetBodyPosition(double) override {return p;}
  Eigen::Vector3d GetBodyVelocity(double) override {return v;}
  Eigen::Vector3d GetBodyAcceleration(double) override {return a;}
  Eigen::Quaterniond GetBodyAngularPosition(double) override {return q;}
  Eigen::Vector3d GetBodyAngularRate(double) override {return w;}
  Eigen::Vector3d GetBodyAngularAcceleration(double) override {return al;}
};

struct World
{
  std::shared_ptr<DebugLogger> lg;
  std::shared_ptr<EKF> ekf;
  std::shared_ptr<TruthEngine> truth;
  std::shared_ptr<ScriptTruth> script;
  std::shared_ptr<SimFeatureTracker> tracker;
  double max_time{0};
  double still{0};
  bool spline{false};
};
World W;
constexpr double kTick = 1.0 / 1024.0;

void Fresh()
{
  W = World();
  W.lg = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
  EKF::Parameters p;
  p.debug_logger = W.lg;
  W.ekf = std::make_shared<EKF>(p);
}

Intrinsics RandomLens(Rng & r, int width, int height, bool distort)
{
  Intrinsics k;
  k.width = width;
  k.height = height;
  k.pixel_size = 5e-6;
  k.f_x = r.u(250, 400) * 5e-6;
  k.f_y = r.u(250, 400) * 5e-6;
  if (distort) {
    k.k_1 = r.u(-0.05, 0.05);
    k.k_2 = r.u(-0.01, 0.01);
    k.p_1 = r.u(-0.005, 0.005);
    k.p_2 = r.u(-0.005, 0.005);
  }
  return k;
}
json Lens(const Intrinsics & k)
{
  Eigen::VectorXd v(9);
  v << k.f_x, k.f_y, k.k_1, k.k_2, k.p_1, k.p_2, k.width, k.height, k.pixel_size;
  return jv(v);
}
json Point(const cv::Point3d & p) {return jv(Eigen::Vector3d(p.x, p.y, p.z));}
json Pixel(const cv::KeyPoint & k) {return jv(Eigen::Vector2d(k.pt.x, k.pt.y));}

// ---------------------------------------------------------------- feature tracks
void TrackerNew(const json & op, json & e)
{
  Fresh();
  Rng r(op.at("seed"));
  W.script = std::make_shared<ScriptTruth>(100.0, W.lg);
  W.truth = W.script;
  unsigned cam = op.at("cam");
  W.truth->SetCameraPosition(cam, Eigen::Vector3d::Zero());
  W.truth->SetCameraAngularPosition(cam, Eigen::Quaterniond::Identity());
  Intrinsics k;
  k.width = op.at("w");
  k.height = op.at("w");
  k.f_x = k.f_y = 300 * 5e-6;
  k.pixel_size = 5e-6;
  W.truth->SetCameraIntrinsics(cam, k);
  SimRNG::SetSeed(op.at("seed"));
  SimFeatureTracker::Parameters p;
  p.feature_count = op.at("fc");
  p.no_errors = op.at("exact");
  p.tracker_params.camera_id = cam;
  p.tracker_params.min_track_length = op.at("min");
  p.tracker_params.max_track_length = op.at("max");
  p.tracker_params.ekf = W.ekf;
  p.tracker_params.logger = W.lg;
  W.tracker = std::make_shared<SimFeatureTracker>(p, W.truth);
  e["trk"] = W.tracker->GetID();
}
void TrackerFrame(const json & op, json & e)
{
  // The menu of views overlaps, so that every pattern of appearing and vanishing occurs
  int view = op.at("view");
  Rng r(op.value("seed", 1));
  auto & s = *W.script;
  s.p = Eigen::Vector3d::Zero();
  s.q = Eigen::Quaterniond::Identity();
  double step = 0.21;
  if (view == 0) {s.p = Eigen::Vector3d(0, 0, 9);   // beyond the room: nothing in front
  } else if (view < 20) {
    s.p = Eigen::Vector3d(step * (view % 5 - 2), step * (view / 5), 0.3);
  } else {
    s.p = r.v3(0.8);
    s.q = r.q(3.1);
  }
  double t = op.at("t").get<double>() * kTick;
  unsigned fid = op.at("fid");
  auto msg = W.tracker->GenerateMessage(t, fid);
  int n = static_cast<int>(W.truth->GetFeatures().size());
  json vis = json::array(), obs = json::array();
  for (auto & k : W.tracker->GetVisibleKeypoints(t)) {
    if (k.class_id >= n) {continue;}
    vis.push_back(k.class_id);
    obs.push_back(Pixel(k));
  }
  e["vis"] = vis;
  e["px"] = obs;
  e["tt"] = jr(t);
  e["mt"] = jr(msg->time);
  e["trk"] = msg->tracker_id;
  e["snr"] = msg->sensor_id;
  e["typ"] = msg->sensor_type == SensorType::Tracker;
  json tracks = json::array();
  for (auto & tr : msg->feature_tracks) {
    json ob = json::array();
    std::vector<int> ids;
    for (auto & f : tr.track) {
      ids.push_back(f.key_point.class_id);
      ob.push_back(json{{"f", f.frame_id}, {"t", jr(f.frame_time)}, {"px", Pixel(f.key_point)}});
    }
    cv::Point3d p = ids.empty() ? cv::Point3d() : W.truth->GetFeatures()[ids[0]];
    tracks.push_back(json{{"ids", ids}, {"ob", ob}, {"fp", jv(tr.true_feature_position)},
        {"tp", Point(p)}});
  }
  e["tracks"] = tracks;
}

// ---------------------------------------------------------------- trajectories
json PoseAt(double t)
{
  auto & w = *W.truth;
  return json{{"t", jr(t)}, {"p", jv(w.GetBodyPosition(t))}, {"v", jv(w.GetBodyVelocity(t))},
    {"a", jv(w.GetBodyAcceleration(t))}, {"q", jq(w.GetBodyAngularPosition(t))},
    {"w", jv(w.GetBodyAngularRate(t))}, {"al", jv(w.GetBodyAngularAcceleration(t))}};
}
void WorldNew(const json & op, json & e)
{
  Fresh();
  Rng r(op.at("seed"));
  SimRNG::SetSeed(op.at("seed"));
  double still = op.at("still").get<double>() / 4.0;
  W.max_time = op.at("dur").get<double>() / 4.0;
  std::string kind = op.at("kind");
  W.still = still;
  e["stat"] = jr(still);
  e["max"] = jr(W.max_time);
  if (kind == "cyclic") {
    auto fr = [&](double s) {Eigen::Vector3d f = r.v3(s).cwiseAbs(); if (r.u(0, 1) < 0.2) {f[0] = 0;} return f;};
    Eigen::Vector3d pf = fr(1.0), af = fr(0.8), po = r.v3(2.0), ao = r.v3(0.6);
    double pa = r.u(0.1, 2.0), aa = r.u(-1.5, 1.5);
    W.truth = std::make_shared<TruthEngineCyclic>(pf, af, po, ao, pa, aa, still, W.max_time, W.lg);
    e["pf"] = jv(pf); e["af"] = jv(af); e["po"] = jv(po); e["ao"] = jv(ao);
    e["pa"] = jr(pa); e["aa"] = jr(aa);
  } else if (kind == "spline") {
    int n = op.at("points");
    std::vector<double> ps, as;
    for (int i = 0; i < 3 * n; ++i) {ps.push_back(r.u(-2, 2)); as.push_back(r.u(-0.8, 0.8));}
    double pe = op.at("noisy").get<int>() ? 0.05 : 0.0;
    W.spline = true;
    W.truth = std::make_shared<TruthEngineSpline>(ps, as, std::vector<double>{pe, pe, pe},
        std::vector<double>{pe, pe, pe}, still, W.max_time, W.lg);
    e["first"] = jv(Eigen::Vector3d(ps[0], ps[1], ps[2]));
    e["firsta"] = jv(Eigen::Vector3d(as[0], as[1], as[2]));
    e["last"] = jv(Eigen::Vector3d(ps[3 * n - 3], ps[3 * n - 2], ps[3 * n - 1]));
    e["lasta"] = jv(Eigen::Vector3d(as[3 * n - 3], as[3 * n - 2], as[3 * n - 1]));
  } else {
    W.script = std::make_shared<ScriptTruth>(W.max_time, W.lg);
    W.script->p = r.v3(1.0); W.script->v = r.v3(2.0); W.script->a = r.v3(3.0);
    W.script->q = r.q(); W.script->w = r.v3(1.5); W.script->al = r.v3(2.0);
    W.truth = W.script;
  }
  Eigen::Vector3d ref(r.u(-80, 80), r.u(-179, 179), r.u(-100, 2000));
  double heading = r.u(-3.1, 3.1);
  W.truth->SetLocalPosition(ref);
  W.truth->SetLocalHeading(heading);
  e["ref"] = jv(ref);
  e["head"] = jr(heading);
}
void TrajAt(const json & op, json & e)
{
  std::string at = op.at("at");
  double t = op.at("k").get<double>() / 1000.0 * W.max_time;
  double h = 1e-4;
  if (at == "still") {t = W.still;
  } else if (at == "before") {t = W.still - 0.3 * h;
  } else if (at == "after") {t = W.still + 0.3 * h;
  } else if (at == "end") {t = W.max_time;}
  e["h"] = jr(h);
  e["lo"] = PoseAt(t - h);
  e["at"] = PoseAt(t);
  e["hi"] = PoseAt(t + h);
}

// ---------------------------------------------------------------- simulated sensors
json Cov(const Eigen::Matrix3d & m) {return jm(m);}
Eigen::Vector3d Sigma(Rng & r, int how, double s)
{
  if (how == 0) {return Eigen::Vector3d::Zero();}
  Eigen::Vector3d v = r.v3(s).cwiseAbs();
  if (how == 2) {v[1] = 0;}
  return v;
}
void SimImuOp(const json & op, json & e)
{
  Rng r(op.at("seed"));
  SimRNG::SetSeed(op.at("seed"));
  int how = op.at("how");
  SimIMU::Parameters p;
  p.no_errors = op.at("exact");
  p.time_error = op.at("jit").get<double>() * 1e-4;
  p.acc_error = Sigma(r, how, 0.1);
  p.omg_error = Sigma(r, how, 0.02);
  p.acc_bias_error = Sigma(r, how, 0.1);
  p.omg_bias_error = Sigma(r, how, 0.1);
  p.pos_error = Sigma(r, how, 0.1);
  p.ang_error = Sigma(r, how, 0.1);
  p.imu_params.name = "imu";
  p.imu_params.rate = op.at("rate").get<double>() / 4.0;
  p.imu_params.logger = W.lg;
  p.imu_params.ekf = W.ekf;
  p.imu_params.pos_i_in_b = r.v3(1.0);
  p.imu_params.ang_i_to_b = r.q();
  p.imu_params.acc_bias = r.v3(0.3);
  p.imu_params.omg_bias = r.v3(0.1);
  SimIMU s(p, W.truth);
  unsigned id = s.GetId();
  e["sid"] = id;
  e["rt"] = jr(p.imu_params.rate);
  e["jt"] = jr(p.time_error);
  e["sa"] = jv(p.acc_error); e["sg"] = jv(p.omg_error);
  e["sba"] = jv(p.acc_bias_error); e["sbg"] = jv(p.omg_bias_error);
  e["sp"] = jv(p.pos_error); e["sq"] = jv(p.ang_error);
  e["np"] = jv(p.imu_params.pos_i_in_b); e["nq"] = jq(p.imu_params.ang_i_to_b);
  e["nba"] = jv(p.imu_params.acc_bias); e["nbg"] = jv(p.imu_params.omg_bias);
  e["tp"] = jv(W.truth->GetImuPosition(id)); e["tq"] = jq(W.truth->GetImuAngularPosition(id));
  e["tba"] = jv(W.truth->GetImuAccelerometerBias(id)); e["tbg"] = jv(W.truth->GetImuGyroscopeBias(id));
  json ms = json::array();
  for (auto & m : s.GenerateMessages()) {
    ms.push_back(json{{"t", jr(m->time)}, {"id", m->sensor_id}, {"ok", m->sensor_type == SensorType::IMU},
        {"a", jv(m->acceleration)}, {"g", jv(m->angular_rate)},
        {"ca", Cov(m->acceleration_covariance)}, {"cg", Cov(m->angular_rate_covariance)},
        {"b", PoseAt(m->time)}});
  }
  e["ms"] = ms;
}
void SimGpsOp(const json & op, json & e)
{
  Rng r(op.at("seed"));
  SimRNG::SetSeed(op.at("seed"));
  int how = op.at("how");
  SimGPS::Parameters p;
  p.no_errors = op.at("exact");
  p.time_error = op.at("jit").get<double>() * 1e-4;
  p.lla_error = Sigma(r, how, 2.0);
  p.pos_a_in_b_err = Sigma(r, how, 0.3);
  p.gps_params.name = "gps";
  p.gps_params.rate = op.at("rate").get<double>() / 4.0;
  p.gps_params.logger = W.lg;
  p.gps_params.ekf = W.ekf;
  p.gps_params.pos_a_in_b = r.v3(1.5);
  SimGPS s(p, W.truth);
  unsigned id = s.GetId();
  e["sid"] = id;
  e["rt"] = jr(p.gps_params.rate);
  e["jt"] = jr(p.time_error);
  e["sl"] = jv(p.lla_error); e["sp"] = jv(p.pos_a_in_b_err);
  e["np"] = jv(p.gps_params.pos_a_in_b);
  e["tp"] = jv(W.truth->GetGpsPosition(id));
  json ms = json::array();
  for (auto & m : s.GenerateMessages()) {
    ms.push_back(json{{"t", jr(m->time)}, {"id", m->sensor_id}, {"ok", m->sensor_type == SensorType::GPS},
        {"lla", jv(m->gps_lla)}, {"c", Cov(m->pos_covariance)}, {"b", PoseAt(m->time)}});
  }
  e["ms"] = ms;
}
void SimCamOp(const json & op, json & e)
{
  Rng r(op.at("seed"));
  SimRNG::SetSeed(op.at("seed"));
  int how = op.at("how");
  SimCamera::Parameters p;
  p.no_errors = op.at("exact");
  p.time_error = op.at("jit").get<double>() * 1e-4;
  p.pos_error = Sigma(r, how, 0.1);
  p.ang_error = Sigma(r, how, 0.1);
  p.cam_params.name = "cam";
  p.cam_params.rate = op.at("rate").get<double>() / 4.0;
  p.cam_params.logger = W.lg;
  p.cam_params.ekf = W.ekf;
  p.cam_params.pos_c_in_b = r.v3(0.5);
  p.cam_params.ang_c_to_b = r.q();
  p.cam_params.intrinsics = RandomLens(r, op.at("w"), op.at("w").get<int>() * 3 / 4, op.at("lens"));
  SimCamera s(p, W.truth);
  unsigned id = s.GetId();
  e["sid"] = id;
  e["rt"] = jr(p.cam_params.rate);
  e["jt"] = jr(p.time_error);
  e["sp"] = jv(p.pos_error); e["sq"] = jv(p.ang_error);
  e["np"] = jv(p.cam_params.pos_c_in_b); e["nq"] = jq(p.cam_params.ang_c_to_b);
  e["tp"] = jv(W.truth->GetCameraPosition(id)); e["tq"] = jq(W.truth->GetCameraAngularPosition(id));
  e["lensv"] = Lens(W.truth->GetCameraIntrinsics(id));
  e["lens0"] = Lens(p.cam_params.intrinsics);
  json trs = json::array(), bds = json::array();
  for (int i = 0; i < op.at("trackers").get<int>(); ++i) {
    SimFeatureTracker::Parameters tp;
    tp.no_errors = op.at("exact");
    tp.tracker_params.camera_id = id;
    tp.tracker_params.min_track_length = 1;
    tp.tracker_params.max_track_length = 1 + i;
    tp.tracker_params.ekf = W.ekf;
    tp.tracker_params.logger = W.lg;
    auto t = std::make_shared<SimFeatureTracker>(tp, W.truth);
    s.AddTracker(t);
    trs.push_back(t->GetID());
  }
  for (int i = 0; i < op.at("boards").get<int>(); ++i) {
    SimFiducialTracker::Parameters fp;
    fp.no_errors = op.at("exact");
    fp.pos_error = Sigma(r, how, 0.1);
    fp.ang_error = Sigma(r, how, 0.1);
    fp.t_vec_error = Sigma(r, how, 0.05);
    fp.r_vec_error = Sigma(r, how, 0.05);
    fp.fiducial_params.camera_id = id;
    fp.fiducial_params.id = i + 1;
    fp.fiducial_params.squares_x = 3;
    fp.fiducial_params.squares_y = 4;
    fp.fiducial_params.square_length = 0.1;
    fp.fiducial_params.marker_length = 0.06;
    fp.fiducial_params.pos_f_in_l = r.v3(3.0);
    fp.fiducial_params.ang_f_to_l = r.q();
    fp.fiducial_params.variance = Eigen::VectorXd::Ones(6);
    fp.fiducial_params.ekf = W.ekf;
    fp.fiducial_params.logger = W.lg;
    auto t = std::make_shared<SimFiducialTracker>(fp, W.truth);
    s.AddFiducial(t);
    unsigned b = t->GetID();
    bds.push_back(json{{"id", b}, {"np", jv(fp.fiducial_params.pos_f_in_l)},
        {"nq", jq(fp.fiducial_params.ang_f_to_l)}, {"sp", jv(fp.pos_error)}, {"sq", jv(fp.ang_error)},
        {"st", jv(fp.t_vec_error)}, {"sr", jv(fp.r_vec_error)},
        {"tp", jv(W.truth->GetBoardPosition(b))}, {"tq", jq(W.truth->GetBoardOrientation(b))}});
  }
  e["trs"] = trs;
  e["bds"] = bds;
  json ms = json::array();
  auto feats = W.truth->GetFeatures();
  for (auto & m : s.GenerateMessages()) {
    json j{{"t", jr(m->time)}, {"id", m->sensor_id}, {"ok", m->sensor_type == SensorType::Camera},
      {"f", m->frame_id}, {"b", PoseAt(m->time)}};
    json tj = json::array(), fj = json::array();
    for (auto & x : m->feature_track_messages) {
      // the observations of this frame that the message delivers, and features it does not
      json seen = json::array();
      std::vector<bool> in(feats.size(), false);
      for (auto & tr : x->feature_tracks) {
        auto & f = tr.track.back();
        if (f.frame_id != m->frame_id) {continue;}
        in[f.key_point.class_id] = true;
        seen.push_back(json{{"x", Point(feats[f.key_point.class_id])}, {"px", Pixel(f.key_point)}});
      }
      json rest = json::array();
      for (int k = 0; k < 40 && tj.empty(); ++k) {
        int c = static_cast<int>(r.u(0, feats.size()));
        if (!in[c]) {rest.push_back(Point(feats[c]));}
      }
      tj.push_back(json{{"id", x->tracker_id}, {"s", x->sensor_id}, {"t", jr(x->time)},
          {"ok", x->sensor_type == SensorType::Tracker}, {"seen", seen}, {"rest", rest}});
    }
    for (auto & x : m->fiducial_track_messages) {
      auto & d = x->board_detection;
      fj.push_back(json{{"id", x->tracker_id}, {"s", x->sensor_id}, {"t", jr(x->time)},
          {"ok", x->sensor_type == SensorType::Tracker}, {"vis", x->is_board_visible},
          {"f", d.frame_id}, {"ft", jr(d.frame_time)}, {"p", jv(d.pos_f_in_c)}, {"q", jq(d.ang_f_to_c)},
          {"ep", jv(d.pos_error)}, {"eq", jv(d.ang_error)}});
    }
    j["trk"] = tj;
    j["fid"] = fj;
    ms.push_back(j);
  }
  e["ms"] = ms;
  // features added where the camera looks
  json add = json::array();
  for (int k = 0; k < 2; ++k) {
    double t = r.u(0, 3);
    int n = static_cast<int>(r.u(0, 12));
    auto was = W.truth->GetFeatures();
    auto now = W.truth->GenerateVisibleFeatures(t, id, n);
    auto all = W.truth->GetFeatures();
    bool kept = now == all && all.size() >= was.size() && std::equal(was.begin(), was.end(), all.begin());
    json pts = json::array(), got = json::array();
    for (size_t i = was.size(); i < all.size(); ++i) {
      pts.push_back(Point(all[i]));
      got.push_back(Point(W.truth->GetFeature(static_cast<int>(i))));
    }
    add.push_back(json{{"b", PoseAt(t)}, {"n", n}, {"kept", kept}, {"pts", pts}, {"got", got}});
  }
  e["add"] = add;
}
// ---------------------------------------------------------------- the assembled simulation
// One complete simulation: sensors created, messages generated, sorted and replayed.
// What is random in it comes from the seed alone.
json Assembled(const json & op)
{
  Rng r(op.at("seed"));
  SimRNG::SetSeed(op.at("seed"));
  auto lg = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
  EKF::Parameters ep;
  ep.debug_logger = lg;
  std::string pol = op.at("pol");
  ep.augmenting_type = pol == "NONE" ? AugmentationType::NONE : pol == "ALL" ?
    AugmentationType::ALL : pol == "PRIMARY" ? AugmentationType::PRIMARY : pol == "TIME" ?
    AugmentationType::TIME : AugmentationType::ERROR;
  ep.process_noise = Eigen::VectorXd::Constant(g_body_state_size, 1e-2);
  ep.use_root_covariance = op.at("root").get<int>() != 0;
  auto ekf = std::make_shared<EKF>(ep);
  double dur = op.at("dur").get<double>() / 4.0;
  auto truth = std::make_shared<TruthEngineCyclic>(
    r.v3(0.5).cwiseAbs(), r.v3(0.3).cwiseAbs(), r.v3(1.0), r.v3(0.3), 0.5, 0.2,
    op.at("still").get<double>() / 4.0, dur, lg);
  truth->SetLocalPosition(Eigen::Vector3d(r.u(-60, 60), r.u(-179, 179), 100));
  truth->SetLocalHeading(r.u(-3, 3));
  ekf->SetGpsReference(truth->GetLocalPosition(), truth->GetLocalHeading());
  bool exact = op.at("exact");
  double jit = op.at("jit").get<double>() * 1e-4;
  std::map<unsigned, std::shared_ptr<Sensor>> all;
  std::map<unsigned, int> nth;
  std::vector<std::shared_ptr<SensorMessage>> msgs;
  auto add = [&](auto sensor, auto ms) {
      all[sensor->GetId()] = sensor;
      int n = static_cast<int>(nth.size());
      nth[sensor->GetId()] = n;
      msgs.insert(msgs.end(), ms.begin(), ms.end());
    };
  for (int i = 0; i < op.at("imus").get<int>(); ++i) {
    SimIMU::Parameters p;
    p.no_errors = exact; p.time_error = jit;
    p.acc_error = Eigen::Vector3d::Constant(0.02); p.omg_error = Eigen::Vector3d::Constant(0.01);
    p.pos_error = p.ang_error = Eigen::Vector3d::Constant(0.02);
    auto & m = p.imu_params;
    m.name = "imu"; m.rate = r.u(20, 60); m.logger = lg; m.ekf = ekf;
    m.is_extrinsic = i > 0; m.is_intrinsic = r.u(0, 1) < 0.5;
    m.pos_i_in_b = r.v3(0.2); m.ang_i_to_b = r.q(0.5);
    m.variance = Eigen::VectorXd::Constant(12, 1e-3);
    auto s = std::make_shared<SimIMU>(p, truth);
    add(s, s->GenerateMessages());
  }
  for (int i = 0; i < op.at("cams").get<int>(); ++i) {
    SimCamera::Parameters p;
    p.no_errors = exact; p.time_error = jit;
    p.pos_error = p.ang_error = Eigen::Vector3d::Constant(0.02);
    auto & m = p.cam_params;
    m.name = "cam"; m.rate = r.u(2, 8); m.logger = lg; m.ekf = ekf;
    m.is_extrinsic = r.u(0, 1) < 0.5;
    m.pos_c_in_b = r.v3(0.2); m.ang_c_to_b = r.q(0.5);
    m.variance = Eigen::VectorXd::Constant(6, 1e-3);
    m.intrinsics = RandomLens(r, 120, 90, false);
    auto s = std::make_shared<SimCamera>(p, truth);
    SimFeatureTracker::Parameters tp;
    tp.no_errors = exact;
    tp.tracker_params.camera_id = s->GetId();
    tp.tracker_params.is_cam_extrinsic = m.is_extrinsic;
    tp.tracker_params.max_track_length = 4;
    tp.tracker_params.px_error = 1;
    tp.tracker_params.ekf = ekf; tp.tracker_params.logger = lg;
    // without clones there are no features (AugmentationType::NONE)
    if (pol != "NONE") {s->AddTracker(std::make_shared<SimFeatureTracker>(tp, truth));}
    SimFiducialTracker::Parameters fp;
    fp.no_errors = exact;
    fp.t_vec_error = fp.r_vec_error = Eigen::Vector3d::Constant(0.02);
    auto & f = fp.fiducial_params;
    f.camera_id = s->GetId(); f.id = i + 1;
    f.detector_type = FiducialType::CHARUCO_BOARD;
    f.squares_x = 3; f.squares_y = 4; f.square_length = 0.1; f.marker_length = 0.06;
    f.pos_f_in_l = r.v3(3.0); f.ang_f_to_l = r.q();
    f.is_extrinsic = r.u(0, 1) < 0.5; f.is_cam_extrinsic = m.is_extrinsic;
    f.variance = Eigen::VectorXd::Constant(6, 1e-2);
    f.ekf = ekf; f.logger = lg;
    if (r.u(0, 1) < 0.7) {s->AddFiducial(std::make_shared<SimFiducialTracker>(fp, truth));}
    add(s, s->GenerateMessages());
  }
  for (int i = 0; i < op.at("gpss").get<int>(); ++i) {
    SimGPS::Parameters p;
    p.no_errors = exact; p.time_error = jit;
    p.lla_error = Eigen::Vector3d::Constant(0.5);
    p.pos_a_in_b_err = Eigen::Vector3d::Constant(0.02);
    auto & m = p.gps_params;
    m.name = "gps"; m.rate = r.u(1, 5); m.logger = lg; m.ekf = ekf;
    m.is_extrinsic = r.u(0, 1) < 0.5; m.pos_a_in_b = r.v3(0.3);
    m.variance = Eigen::Vector3d::Constant(1e-2);
    auto s = std::make_shared<SimGPS>(p, truth);
    add(s, s->GenerateMessages());
  }
  std::vector<double> made;
  for (auto & m : msgs) {made.push_back(m->time);}
  std::sort(msgs.begin(), msgs.end(), MessageCompare);
  BodyState b;
  b.pos_b_in_l = truth->GetBodyPosition(0); b.vel_b_in_l = truth->GetBodyVelocity(0);
  b.ang_b_to_l = truth->GetBodyAngularPosition(0);
  ekf->Initialize(0, b);
  json order = json::array();
  for (auto & m : msgs) {
    json j{{"t", jr(m->time)}, {"s", nth.at(m->sensor_id)}};
    auto s = all.at(m->sensor_id);
    if (m->sensor_type == SensorType::IMU) {
      auto x = std::static_pointer_cast<SimImuMessage>(m);
      j["v"] = jv(x->acceleration); j["w"] = jv(x->angular_rate);
      std::static_pointer_cast<SimIMU>(s)->Callback(*x);
    } else if (m->sensor_type == SensorType::Camera) {
      auto x = std::static_pointer_cast<SimCameraMessage>(m);
      json px = json::array();
      for (auto & t : x->feature_track_messages) {
        for (auto & tr : t->feature_tracks) {px.push_back(Pixel(tr.track.back().key_point));}
      }
      for (auto & d : x->fiducial_track_messages) {px.push_back(jv(d->board_detection.pos_f_in_c));}
      j["px"] = px;
      std::static_pointer_cast<SimCamera>(s)->Callback(*x);
    } else {
      auto x = std::static_pointer_cast<SimGpsMessage>(m);
      j["v"] = jv(x->gps_lla);
      std::static_pointer_cast<SimGPS>(s)->Callback(*x);
    }
    order.push_back(j);
  }
  // ids differ from run to run by design
  json obs = Observe(*ekf);
  for (const char * k : {"imus", "gpss", "cams"}) {
    int n = 0;
    for (auto & x : obs[k]) {x["id"] = ++n;}
  }
  for (auto & x : obs["augs"]) {
    unsigned key = x["key"].get<unsigned>();
    x["key"] = nth.count(key) ? nth.at(key) + 1 : 0;
    x["fid"] = 0;
  }
  std::sort(made.begin(), made.end());
  Eigen::VectorXd tv = Eigen::Map<Eigen::VectorXd>(made.data(), made.size());
  return json{{"order", order}, {"times", jv(tv)}, {"obs", obs}, {"P", jm(CovOf(*ekf))}};
}
void Twice(const json & op, json & e)
{
  e["a"] = Assembled(op);
  e["b"] = Assembled(op);
}
}  // namespace

bool SystemOp(Ctx & ctx, const json & op)
{
  std::string k = op.at("op");
  json e = op;
  if (k == "tnew") {TrackerNew(op, e);
  } else if (k == "tframe") {TrackerFrame(op, e);
  } else if (k == "world") {WorldNew(op, e);
  } else if (k == "traj") {TrajAt(op, e);
  } else if (k == "simu") {SimImuOp(op, e);
  } else if (k == "sgps") {SimGpsOp(op, e);
  } else if (k == "scam") {SimCamOp(op, e);
  } else if (k == "twice") {Twice(op, e);
  } else {return false;}
  ctx.emit(e);
  return true;
}
