// Operations on one filter and its updaters.
#include <filesystem>
#include <iostream>
#include <sstream>

#include "ekf/constants.hpp"
#include "ekf/ekf.hpp"
#include "ekf/types.hpp"
#include "ekf/update/fiducial_updater.hpp"
#include "ekf/update/gps_updater.hpp"
#include "ekf/update/imu_updater.hpp"
#include "ekf/update/msckf_updater.hpp"
#include "ekf/update/updater.hpp"
#include "infrastructure/debug_logger.hpp"
#include "infrastructure/sim/truth_engine.hpp"
#include "sensors/gps.hpp"
#include "sensors/imu.hpp"
#include "sensors/sim/sim_camera.hpp"
#include "trackers/sim/sim_feature_tracker.hpp"
#include "trackers/sim/sim_fiducial_tracker.hpp"
#include "utility/gps_helper.hpp"
#include "io.hpp"
#include "filter_obs.hpp"

namespace
{
constexpr double kTick = 1.0 / 1024.0;

class StillTruth : public TruthEngine
{
public:
  using TruthEngine::TruthEngine;
  Eigen::Vector3d GetBodyPosition(double) override {return Eigen::Vector3d::Zero();}
  Eigen::Vector3d GetBodyVelocity(double) override {return Eigen::Vector3d::Zero();}
  Eigen::Vector3d GetBodyAcceleration(double) override {return Eigen::Vector3d::Zero();}
  Eigen::Quaterniond GetBodyAngularPosition(double) override {return Eigen::Quaterniond::Identity();}
  Eigen::Vector3d GetBodyAngularRate(double) override {return Eigen::Vector3d::Zero();}
  Eigen::Vector3d GetBodyAngularAcceleration(double) override {return Eigen::Vector3d::Zero();}
};

// A camera with what is attached to it
struct CamObj
{
  std::shared_ptr<SimCamera> cam;
  std::shared_ptr<SimFeatureTracker> trk;
  std::map<unsigned, std::shared_ptr<SimFiducialTracker>> fid;
};

struct Session
{
  std::shared_ptr<DebugLogger> lg;
  std::shared_ptr<EKF> ekf;
  // via: 1 the operations go through sensor objects, 2 the twin that does without
  int via{0};
  // a shadow filter is given everything except repeated registrations
  bool shadow{false};
  std::map<unsigned, unsigned> ids;    // script id -> id of the sensor object
  std::map<unsigned, std::unique_ptr<IMU>> imu_obj;
  std::map<unsigned, std::unique_ptr<GPS>> gps_obj;
  std::map<unsigned, CamObj> cam_obj;
  std::shared_ptr<StillTruth> truth;
  std::map<unsigned, std::unique_ptr<ImuUpdater>> imu;
  std::map<unsigned, std::unique_ptr<GpsUpdater>> gps;
  std::map<std::pair<unsigned, unsigned>, std::unique_ptr<FiducialUpdater>> fid;
  std::map<unsigned, std::unique_ptr<MsckfUpdater>> msckf;
  std::string dir;
  double log_rate{0.0};
  std::map<std::string, long> rows;
  bool root{false};
  bool fej{false};
  Eigen::MatrixXd lastP;
  long pi{0};
};
Session g_main, g_twin;
Session * g_cur = &g_main;
#define S (*g_cur)
int g_session{0};
// the id a sensor has in the filter
unsigned Real(unsigned id) {return g_main.via != 0 ? g_main.ids.at(id) : id;}
unsigned IdOf(const json & op, const char * k) {return Real(op.at(k).get<unsigned>());}

double Ti(const json & op, const char * k) {return op.at(k).get<double>() * kTick;}

// Captures what the filter prints while f runs; returns the number of warnings
template<typename F> int Warnings(F f)
{
  Capture cap;
  f();
  std::string s = cap.out() + cap.err();
  int n = 0;
  for (size_t p = s.find("WARN"); p != std::string::npos; p = s.find("WARN", p + 1)) {++n;}
  return n;
}

// The rows added to the files of the session since the last call
json NewRows()
{
  namespace fs = std::filesystem;
  json out = json::array();
  if (S.log_rate == 0.0 || S.dir.empty()) {return out;}
  std::vector<std::string> names;
  for (auto & f : fs::directory_iterator(S.dir)) {names.push_back(f.path().filename().string());}
  std::sort(names.begin(), names.end());
  for (auto & name : names) {
    std::string stem = name.substr(0, name.find('.'));
    std::string kind = stem;
    unsigned id = 0;
    size_t us = stem.rfind('_');
    if (us != std::string::npos && us + 1 < stem.size() &&
      stem.find_first_not_of("0123456789", us + 1) == std::string::npos)
    {
      kind = stem.substr(0, us);
      id = std::stoul(stem.substr(us + 1));
    }
    auto split = [](const std::string & l) {
        std::vector<std::string> c;
        std::stringstream ss(l);
        std::string cell;
        while (std::getline(ss, cell, ',')) {c.push_back(cell);}
        return c;
      };
    std::ifstream f(S.dir + name);
    std::string line;
    std::getline(f, line);
    auto hdr = split(line);
    long n = 0;
    while (std::getline(f, line)) {
      if (++n <= S.rows[name]) {continue;}
      auto row = split(line);
      json c = json::object();
      bool ok = true;
      for (size_t k = 0; k < std::min(row.size(), hdr.size()); ++k) {
        try {c[hdr[k]] = jr(std::stod(row[k]));} catch (...) {ok = false;}
      }
      out.push_back(json{{"f", kind}, {"id", id}, {"nh", hdr.size()}, {"nc", row.size()}, {"ok", ok},
        {"c", c}});
    }
    S.rows[name] = n;
  }
  return out;
}

void Finish(Ctx & ctx, json & e)
{
  e["logs"] = NewRows();
  Eigen::MatrixXd P = CovOf(*S.ekf);
  bool same = S.pi > 0 && P.rows() == S.lastP.rows() && P.cols() == S.lastP.cols() &&
    std::memcmp(P.data(), S.lastP.data(), sizeof(double) * P.size()) == 0;
  if (!same) {
    S.pi = ctx.line + 1;
    S.lastP = P;
    e["P"] = jm(P);
  }
  e["obs"] = Observe(*S.ekf);
  e["obs"]["pi"] = S.pi;
  ctx.emit(e);
}

ImuUpdater & ImuU(unsigned id)
{
  if (!S.imu.count(id)) {
    auto & st = S.ekf->m_state.imu_states.at(id);
    S.imu[id] = std::make_unique<ImuUpdater>(
      id, st.GetIsExtrinsic(), st.GetIsIntrinsic(), S.dir, S.log_rate, S.lg);
  }
  return *S.imu[id];
}
GpsUpdater & GpsU(unsigned id)
{
  if (!S.gps.count(id)) {
    auto & st = S.ekf->m_state.gps_states.at(id);
    S.gps[id] = std::make_unique<GpsUpdater>(id, st.GetIsExtrinsic(), S.dir, S.log_rate, S.lg);
  }
  return *S.gps[id];
}
FiducialUpdater & FidU(unsigned id, unsigned cam)
{
  auto k = std::make_pair(id, cam);
  if (!S.fid.count(k)) {
    S.fid[k] = std::make_unique<FiducialUpdater>(
      id, cam, S.ekf->m_state.fid_states.at(id).GetIsExtrinsic(),
      S.ekf->m_state.cam_states.at(cam).GetIsExtrinsic(), S.dir, S.log_rate, S.lg);
  }
  return *S.fid[k];
}
MsckfUpdater & MsckfU(unsigned cam)
{
  if (!S.msckf.count(cam)) {
    S.msckf[cam] = std::make_unique<MsckfUpdater>(
      cam, S.ekf->m_state.cam_states.at(cam).GetIsExtrinsic(), S.dir, S.log_rate, 1.0, S.lg);
  }
  return *S.msckf[cam];
}

void SetCov(const Eigen::MatrixXd & P)
{
  if (S.root) {
    Eigen::LLT<Eigen::MatrixXd> llt(P);
    S.ekf->m_cov = Eigen::MatrixXd(llt.matrixU());
  } else {
    S.ekf->m_cov = P;
  }
}

BodyState RandBody(Rng & g, double ang)
{
  BodyState b;
  b.pos_b_in_l = g.v3(5.0);
  b.vel_b_in_l = g.v3(3.0);
  b.acc_b_in_l = g_gravity + g.v3(2.0);
  b.ang_b_to_l = g.mq(ang);
  b.ang_vel_b_in_l = g.v3(1.5);
  b.ang_acc_b_in_l = g.v3(1.0);
  return b;
}
json JBody(const BodyState & b)
{
  return json{{"p", jv(b.pos_b_in_l)}, {"v", jv(b.vel_b_in_l)}, {"a", jv(b.acc_b_in_l)},
    {"q", jq(b.ang_b_to_l)}, {"w", jv(b.ang_vel_b_in_l)}, {"al", jv(b.ang_acc_b_in_l)}};
}
}  // namespace

EKF * CurrentFilter() {return g_main.ekf.get();}

namespace
{
json JImu(const ImuState & s)
{
  return json{{"p", jv(s.pos_i_in_b)}, {"q", jq(s.ang_i_to_b)}, {"ba", jv(s.acc_bias)},
    {"bg", jv(s.omg_bias)}, {"s1", jr(s.pos_stability)}, {"s2", jr(s.ang_stability)},
    {"s3", jr(s.acc_bias_stability)}, {"s4", jr(s.omg_bias_stability)}};
}
// Variances as configured, some below the smallest that is used
Eigen::VectorXd Variances(Rng & g, int n)
{
  Eigen::VectorXd v(n);
  for (int i = 0; i < n; ++i) {v(i) = g.u(0, 1) < 0.2 ? g.u(0, 9e-7) : g.u(1e-4, 0.2);}
  return v;
}
Eigen::MatrixXd AtLeast(const Eigen::VectorXd & v, double least)
{
  return v.cwiseMax(least).asDiagonal();
}
// One camera message through the camera object, or the same steps on the filter itself
void CameraFrame(const json & op, const SimCameraMessage * msg)
{
  unsigned cam = IdOf(op, "cam");
  if (S.via == 1) {
    S.cam_obj.at(cam).cam->Callback(*msg);
  } else {
    double lt = S.ekf->CalculateLocalTime(Ti(op, "t"));
    S.ekf->PredictModel(lt);
    S.ekf->AugmentStateIfNeeded(cam, op.at("fid").get<unsigned>());
  }
}
std::shared_ptr<SimCameraMessage> Message(const json & op)
{
  cv::Mat blank;
  auto m = std::make_shared<SimCameraMessage>(blank);
  m->time = Ti(op, "t");
  m->sensor_id = IdOf(op, "cam");
  m->sensor_type = SensorType::Camera;
  m->frame_id = op.at("fid").get<unsigned>();
  return m;
}
bool Apply(Ctx & ctx, const json & op, json & e);
}  // namespace

bool FilterOp(Ctx & ctx, const json & op)
{
  json e = op;
  g_cur = &g_main;
  if (!Apply(ctx, op, e)) {return false;}
  if (g_main.via == 1) {
    json e2 = op;
    g_cur = &g_twin;
    Apply(ctx, op, e2);
    Eigen::MatrixXd P = CovOf(*g_twin.ekf), Q = CovOf(*g_main.ekf);
    e["twin"] = Observe(*g_twin.ekf);
    if (P.rows() != Q.rows() || P.cols() != Q.cols() ||
      std::memcmp(P.data(), Q.data(), sizeof(double) * P.size()) != 0)
    {
      e["TP"] = jm(P);
    }
    for (const char * k : {"id", "cam"}) {
      if (op.contains(k) && !(op.at("op") == "regfid" && k[0] == 'i') &&
        !(op.at("op") == "fid" && k[0] == 'i')) {e[k] = IdOf(op, k);}
    }
    g_cur = &g_main;
  } else if (g_main.shadow) {
    if (op.value("dup", 0) == 0) {
      json e2 = op;
      g_cur = &g_twin;
      Apply(ctx, op, e2);
      g_cur = &g_main;
    }
    Eigen::MatrixXd P = CovOf(*g_twin.ekf), Q = CovOf(*g_main.ekf);
    e["shadow"] = Observe(*g_twin.ekf);
    e["shadow"]["pi"] = 0;
    e["sameP"] = P.rows() == Q.rows() && P.cols() == Q.cols() &&
      std::memcmp(P.data(), Q.data(), sizeof(double) * P.size()) == 0;
  }
  Finish(ctx, e);
  return true;
}

namespace
{
bool Apply(Ctx & ctx, const json & op, json & e)
{
  const std::string k = op.at("op");
  auto seed = [&]() {return op.value("seed", 0);};
  Rng g(static_cast<uint64_t>(seed()) * 7919 + std::hash<std::string>{}(k) % 1000003);

  if (k == "new") {
    S = Session();
    if (op.value("via", 0) != 0) {S.via = g_cur == &g_main ? 1 : 2;}
    S.shadow = g_cur == &g_main && op.value("shadow", 0) != 0;
    S.dir = ctx.scratch + "/s" + std::to_string(++g_session) + "/";
    std::filesystem::create_directories(S.dir);
    S.lg = std::make_shared<DebugLogger>(LogLevel::WARN, S.dir);
    EKF::Parameters p;
    p.debug_logger = S.lg;
    p.log_directory = S.dir;
    S.log_rate = op.value("rate", 0);
    p.data_log_rate = S.log_rate;
    const std::string pol = op.at("pol");
    p.augmenting_type = pol == "NONE" ? AugmentationType::NONE : pol == "ALL" ?
      AugmentationType::ALL : pol == "PRIMARY" ? AugmentationType::PRIMARY : pol == "TIME" ?
      AugmentationType::TIME : AugmentationType::ERROR;
    p.augmenting_delta_time = op.value("adt", 1024) * kTick;
    p.augmenting_pos_error = op.value("ape", 100) * 1e-3;
    p.augmenting_ang_error = op.value("aae", 100) * 1e-3;
    Eigen::VectorXd q(g_body_state_size);
    for (unsigned i = 0; i < g_body_state_size; ++i) {q(i) = g.u(0.1, 2.0);}
    p.process_noise = q;
    const std::string gi = op.value("gi", "CONSTANT");
    p.gps_init_type = gi == "CONSTANT" ? GpsInitType::CONSTANT : gi == "BASELINE" ?
      GpsInitType::BASELINE_DIST : GpsInitType::ERROR_THRESHOLD;
    p.gps_init_baseline_dist = op.value("base", 100);
    p.gps_init_pos_thresh = op.value("pth", 100) * 1e-3;
    p.gps_init_ang_thresh = op.value("ath", 100) * 1e-3;
    p.motion_detection_chi_squared = op.value("chi", 1000) * 1e-3;
    p.imu_noise_scale_factor = op.value("nsf", 100);
    p.pos_e_in_g = Eigen::Vector3d(g.u(-80, 80), g.u(-179, 179), g.u(-100, 2000));
    p.ang_l_to_e = g.u(-3, 3);
    S.root = p.use_root_covariance = op.value("root", 0) != 0;
    S.fej = p.use_first_estimate_jacobian = op.value("fej", 0) != 0;
    S.ekf = std::make_shared<EKF>(p);
    S.truth = std::make_shared<StillTruth>(100.0, S.lg);
    e["q"] = jv(q);
    e["ref"] = jv(p.pos_e_in_g);
    e["refang"] = jr(p.ang_l_to_e);
    e["adtR"] = jr(p.augmenting_delta_time);
    e["apeR"] = jr(p.augmenting_pos_error);
    e["aaeR"] = jr(p.augmenting_ang_error);
    e["chiR"] = jr(p.motion_detection_chi_squared);
    e["baseR"] = jr(p.gps_init_baseline_dist);
    e["pthR"] = jr(p.gps_init_pos_thresh);
    e["athR"] = jr(p.gps_init_ang_thresh);
  } else if (k == "init") {
    BodyState b = RandBody(g, 2.5);
    S.ekf->Initialize(Ti(op, "t"), b);
    e["b"] = JBody(b);
  } else if (k == "regimu") {
    ImuState s;
    s.SetIsExtrinsic(op.at("ext").get<int>() != 0);
    s.SetIsIntrinsic(op.at("int").get<int>() != 0);
    s.pos_i_in_b = g.m3(1); s.ang_i_to_b = g.mq(2.5); s.acc_bias = g.m3(.2); s.omg_bias = g.m3(.2);
    s.pos_stability = g.stab(); s.ang_stability = g.stab();
    s.acc_bias_stability = g.stab(); s.omg_bias_stability = g.stab();
    Eigen::MatrixXd cov = g.spd(s.size > 0 ? s.size : 12, 0.05);
    if (S.via != 0) {
      Eigen::VectorXd var = Variances(g, 12);
      e["var"] = jv(var);
      cov = AtLeast(s.GetIsExtrinsic() ? var : Eigen::VectorXd(var.tail(6)), 1e-6);
      if (s.GetIsExtrinsic() && !s.GetIsIntrinsic()) {cov = AtLeast(var.head(6), 1e-6);}
      if (S.via == 1) {
        IMU::Parameters p;
        p.name = "imu"; p.logger = S.lg; p.ekf = S.ekf; p.log_directory = S.dir;
        p.is_extrinsic = s.GetIsExtrinsic(); p.is_intrinsic = s.GetIsIntrinsic();
        p.pos_stability = s.pos_stability; p.ang_stability = s.ang_stability;
        p.acc_bias_stability = s.acc_bias_stability; p.omg_bias_stability = s.omg_bias_stability;
        p.pos_i_in_b = s.pos_i_in_b; p.ang_i_to_b = s.ang_i_to_b;
        p.acc_bias = s.acc_bias; p.omg_bias = s.omg_bias;
        p.variance = var;
        p.rate = g.u(1, 400);
        std::unique_ptr<IMU> o;
        e["warn"] = Warnings([&]() {o = std::make_unique<IMU>(p);});
        e["sid"] = o->GetId();
        S.ids[op.at("id").get<unsigned>()] = o->GetId();
        S.imu_obj[o->GetId()] = std::move(o);
      } else {
        S.ekf->RegisterIMU(IdOf(op, "id"), s, cov);
      }
    } else {
      e["warn"] = Warnings([&]() {S.ekf->RegisterIMU(op.at("id").get<unsigned>(), s, cov);});
    }
    e["st"] = JImu(s);
    e["cov"] = jm(cov);
  } else if (k == "reggps") {
    GpsState s;
    s.SetIsExtrinsic(op.at("ext").get<int>() != 0);
    s.pos_a_in_b = g.m3(1); s.pos_stability = g.stab();
    Eigen::Matrix3d cov = g.spd(3, 0.05);
    if (S.via != 0) {
      Eigen::VectorXd var = Variances(g, 3);
      e["var"] = jv(var);
      cov = var.asDiagonal();
      if (S.via == 1) {
        GPS::Parameters p;
        p.name = "gps"; p.logger = S.lg; p.ekf = S.ekf; p.log_directory = S.dir;
        p.is_extrinsic = s.GetIsExtrinsic();
        p.pos_a_in_b = s.pos_a_in_b; p.pos_stability = s.pos_stability;
        p.variance = var;
        p.rate = g.u(1, 20);
        std::unique_ptr<GPS> o;
        e["warn"] = Warnings([&]() {o = std::make_unique<GPS>(p);});
        e["sid"] = o->GetId();
        S.ids[op.at("id").get<unsigned>()] = o->GetId();
        S.gps_obj[o->GetId()] = std::move(o);
      } else {
        S.ekf->RegisterGPS(IdOf(op, "id"), s, cov);
      }
    } else {
      e["warn"] = Warnings([&]() {S.ekf->RegisterGPS(op.at("id").get<unsigned>(), s, cov);});
    }
    e["st"] = json{{"p", jv(s.pos_a_in_b)}, {"s1", jr(s.pos_stability)}};
    e["cov"] = jm(cov);
  } else if (k == "regcam") {
    CamState s;
    s.SetIsExtrinsic(op.at("ext").get<int>() != 0);
    s.pos_c_in_b = g.m3(1); s.ang_c_to_b = g.mq(2.5);
    s.pos_stability = g.stab(); s.ang_stability = g.stab();
    s.rate = 1024.0 / op.at("per").get<double>();
    Eigen::MatrixXd cov = g.spd(6, 0.05);
    if (S.via != 0) {
      Eigen::VectorXd var = Variances(g, 6);
      e["var"] = jv(var);
      cov = AtLeast(var, 1e-6);
      if (S.via == 1) {
        SimCamera::Parameters p;
        p.no_errors = true;
        auto & c = p.cam_params;
        c.name = "cam"; c.logger = S.lg; c.ekf = S.ekf; c.log_directory = S.dir;
        c.is_extrinsic = s.GetIsExtrinsic();
        c.pos_c_in_b = s.pos_c_in_b; c.ang_c_to_b = s.ang_c_to_b;
        c.pos_stability = s.pos_stability; c.ang_stability = s.ang_stability;
        c.variance = var;
        c.rate = s.rate;
        CamObj o;
        e["warn"] = Warnings([&]() {o.cam = std::make_shared<SimCamera>(p, S.truth);});
        unsigned id = o.cam->GetId();
        SimFeatureTracker::Parameters t;
        t.no_errors = true;
        t.tracker_params.camera_id = id;
        t.tracker_params.is_cam_extrinsic = s.GetIsExtrinsic();
        t.tracker_params.px_error = op.at("px").get<double>() * 0.1;
        t.tracker_params.ekf = S.ekf; t.tracker_params.logger = S.lg;
        t.tracker_params.log_directory = S.dir;
        o.trk = std::make_shared<SimFeatureTracker>(t, S.truth);
        o.cam->AddTracker(o.trk);
        e["sid"] = id;
        e["tid"] = o.trk->GetID();
        S.ids[op.at("id").get<unsigned>()] = id;
        S.cam_obj[id] = o;
      } else {
        S.ekf->RegisterCamera(IdOf(op, "id"), s, cov);
      }
    } else {
      e["warn"] = Warnings([&]() {S.ekf->RegisterCamera(op.at("id").get<unsigned>(), s, cov);});
    }
    e["st"] = json{{"p", jv(s.pos_c_in_b)}, {"q", jq(s.ang_c_to_b)},
      {"s1", jr(s.pos_stability)}, {"s2", jr(s.ang_stability)}};
    e["cov"] = jm(cov);
  } else if (k == "regfid") {
    FidState s;
    s.id = op.at("id").get<unsigned>();
    s.SetIsExtrinsic(op.at("ext").get<int>() != 0);
    s.pos_f_in_l = g.m3(4); s.ang_f_to_l = g.mq(2.5);
    s.pos_stability = g.stab(); s.ang_stability = g.stab();
    Eigen::MatrixXd cov = g.spd(6, 0.05);
    if (S.via != 0) {
      Eigen::VectorXd var = Variances(g, 6);
      e["var"] = jv(var);
      cov = var.asDiagonal();
      s.pos_stability = FidState().pos_stability;
      s.ang_stability = FidState().ang_stability;
      if (S.via == 1) {
        unsigned cam = IdOf(op, "cam");
        SimFiducialTracker::Parameters p;
        p.no_errors = true;
        auto & f = p.fiducial_params;
        f.camera_id = cam; f.id = s.id;
        f.detector_type = FiducialType::CHARUCO_BOARD;
        f.squares_x = 3; f.squares_y = 4; f.square_length = 0.1; f.marker_length = 0.06;
        f.is_extrinsic = s.GetIsExtrinsic();
        f.is_cam_extrinsic = S.ekf->m_state.cam_states.at(cam).GetIsExtrinsic();
        f.pos_f_in_l = s.pos_f_in_l; f.ang_f_to_l = s.ang_f_to_l;
        f.variance = var;
        f.ekf = S.ekf; f.logger = S.lg; f.log_directory = S.dir;
        std::shared_ptr<SimFiducialTracker> o;
        e["warn"] = Warnings([&]() {o = std::make_shared<SimFiducialTracker>(p, S.truth);});
        e["tid"] = o->GetID();
        S.cam_obj.at(cam).fid[s.id] = o;
        S.cam_obj.at(cam).cam->AddFiducial(o);
      } else {
        Warnings([&]() {S.ekf->RegisterFiducial(s, cov);});
      }
    } else {
      e["warn"] = Warnings([&]() {S.ekf->RegisterFiducial(s, cov);});
    }
    e["st"] = json{{"p", jv(s.pos_f_in_l)}, {"q", jq(s.ang_f_to_l)},
      {"s1", jr(s.pos_stability)}, {"s2", jr(s.ang_stability)}};
    e["cov"] = jm(cov);
  } else if (k == "setlen") {
    S.ekf->SetMaxTrackLength(op.at("n").get<unsigned>());
  } else if (k == "setnoise") {
    Eigen::VectorXd q(g_body_state_size);
    for (unsigned i = 0; i < g_body_state_size; ++i) {q(i) = g.u(0.1, 2.0);}
    S.ekf->SetBodyProcessNoise(q);
    e["q"] = jv(q);
  } else if (k == "setref") {
    Eigen::VectorXd lla = Eigen::Vector3d(g.u(-80, 80), g.u(-179, 179), g.u(-100, 2000));
    double ang = g.u(-3, 3);
    S.ekf->SetGpsReference(lla, ang);
    e["ref"] = jv(lla);
    e["refang"] = jr(ang);
  } else if (k == "grav") {
    S.ekf->InitializeGravity();
  } else if (k == "zero") {
    S.ekf->SetZeroAcceleration(op.at("b").get<int>() != 0);
  } else if (k == "setcov") {
    SetCov(g.spd(S.ekf->GetStateSize(), 0.1));
  } else if (k == "setbody") {
    BodyState b = RandBody(g, op.value("ang", 25) * 0.1);
    b.index = S.ekf->m_state.body_state.index;
    S.ekf->m_state.body_state = b;
  } else if (k == "nudge") {
    auto & b = S.ekf->m_state.body_state;
    b.pos_b_in_l += g.v3(0.6);
    Eigen::Vector3d rv = g.v3(0.08);
    b.ang_b_to_l = b.ang_b_to_l * Eigen::Quaterniond(Eigen::AngleAxisd(rv.norm(), rv.normalized()));
  } else if (k == "setpos") {
    S.ekf->m_state.body_state.pos_b_in_l = Eigen::Vector3d(
      op.at("x").get<double>() * 0.1, op.at("y").get<double>() * 0.1,
      op.at("z").get<double>() * 0.1);
  } else if (k == "predict") {
    S.ekf->PredictModel(Ti(op, "t"));
  } else if (k == "local") {
    e["res"] = jr(S.ekf->CalculateLocalTime(Ti(op, "t")));
  } else if (k == "frame") {
    S.ekf->AugmentStateIfNeeded(IdOf(op, "cam"), op.at("fid").get<unsigned>());
  } else if (k == "camframe") {
    auto m = Message(op);
    if (S.via == 1 && op.value("blind", 0) != 0) {
      // boards that are not seen, a tracker with nothing to report
      auto & c = S.cam_obj.at(IdOf(op, "cam"));
      for (auto & f : c.fid) {
        auto b = std::make_shared<SimFiducialTrackerMessage>();
        b->tracker_id = f.second->GetID();
        b->is_board_visible = false;
        m->fiducial_track_messages.push_back(b);
      }
      auto t = std::make_shared<SimFeatureTrackerMessage>();
      t->tracker_id = c.trk->GetID();
      m->feature_track_messages.push_back(t);
    }
    CameraFrame(op, m.get());
  } else if (k == "look") {
    AugState a = S.ekf->GetAugState(
      IdOf(op, "cam"), op.at("fid").get<unsigned>(), Ti(op, "t"));
    e["res"] = json{{"p", jv(a.pos_b_in_l)}, {"q", jq(a.ang_b_to_l)}, {"t", jr(a.time)},
      {"ix", a.index}, {"al", jr(a.alpha)}, {"fid", a.frame_id}};
  } else if (k == "kalman") {
    int n = static_cast<int>(S.ekf->GetStateSize());
    int m = op.at("m").get<int>();
    Eigen::MatrixXd H(m, n);
    double den = g.u(0.1, 1.0);
    for (int i = 0; i < m; ++i) {
      for (int j = 0; j < n; ++j) {H(i, j) = g.u(0, 1) < den ? g.u(-1, 1) : 0.0;}
    }
    Eigen::VectorXd r = g.v(m, 0.5);
    Eigen::MatrixXd R = Eigen::MatrixXd::Zero(m, m);
    double scale = g.u(0, 1) < 0.5 ? 1.0 : std::pow(10.0, g.u(-6.0, 3.0));
    for (int i = 0; i < m; ++i) {R(i, i) = g.u(0.01, 1.0) * scale;}
    if (op.value("full", 0) != 0) {R += g.spd(m, 0.05) * scale;}
    r *= g.u(0, 1) < 0.7 ? 1.0 : std::pow(10.0, g.u(-6.0, 0.0));
    Updater::KalmanUpdate(*S.ekf, H, r, R);
    e["H"] = jm(H);
    e["r"] = jv(r);
    e["R"] = jm(R);
  } else if (k == "corr") {
    Eigen::VectorXd d = g.v(static_cast<int>(S.ekf->GetStateSize()), 0.8);
    S.ekf->m_state += d;
    e["d"] = jv(d);
  } else if (k == "vec") {
    Eigen::VectorXd v = S.ekf->m_state.ToVector();
    e["res"] = jv(v);
  } else if (k == "setvec") {
    Eigen::VectorXd d = g.v(static_cast<int>(S.ekf->GetStateSize()), 1.2);
    S.ekf->m_state.SetState(d);
    e["d"] = jv(d);
  } else if (k == "imu") {
    unsigned id = IdOf(op, "id");
    ImuUpdater & u = ImuU(id);
    ImuState & st = S.ekf->m_state.imu_states.at(id);
    // deviation from rest of the specific force and of the rate
    static const double acc_amps[] = {1e-3, 0.05, 0.5, 4.0, 0.0, 0.0, 4.0, 0.0, 60.0};
    static const double gyr_amps[] = {1e-3, 0.05, 0.5, 4.0, 0.0, 4.0, 0.0, 0.0, 8.0};
    int kind = op.value("amp", 0) % 9;
    Eigen::Vector3d acc = st.acc_bias + st.ang_i_to_b.inverse() *
      (S.ekf->m_state.body_state.ang_b_to_l.inverse() * g_gravity) + g.v3(acc_amps[kind]);
    Eigen::Vector3d gyr = st.omg_bias + g.v3(gyr_amps[kind]);
    if (kind == 7) {acc = g_gravity; gyr.setZero();}
    if (kind == 6) {gyr.setZero();}
    Eigen::Matrix3d Ra = Eigen::Vector3d(g.u(.01, .1), g.u(.01, .1), g.u(.01, .1)).asDiagonal();
    Eigen::Matrix3d Rg = Eigen::Vector3d(g.u(.01, .1), g.u(.01, .1), g.u(.01, .1)).asDiagonal();
    if (g.u(0, 1) < 0.4) {Ra += g.spd(3, 0.03); Rg += g.spd(3, 0.03);}
    e["acc"] = jv(acc); e["gyr"] = jv(gyr); e["Ra"] = jm(Ra); e["Rg"] = jm(Rg);
    e["pred"] = jv(u.PredictMeasurement(*S.ekf));
    if (S.via == 1) {
      ImuMessage m;
      m.time = Ti(op, "t"); m.sensor_id = id; m.sensor_type = SensorType::IMU;
      m.acceleration = acc; m.acceleration_covariance = Ra;
      m.angular_rate = gyr; m.angular_rate_covariance = Rg;
      S.imu_obj.at(id)->Callback(m);
    } else {
      u.UpdateEKF(*S.ekf, Ti(op, "t"), acc, Ra, gyr, Rg);
    }
  } else if (k == "gps") {
    unsigned id = IdOf(op, "id");
    GpsUpdater & u = GpsU(id);
    GpsState & st = S.ekf->m_state.gps_states.at(id);
    // up to fixes thousands of standard deviations away
    static const double amps[] = {0.0, 0.01, 1.0, 20.0, 400.0};
    double amp = amps[op.value("amp", 0) % 5];
    Eigen::Vector3d ref = S.ekf->GetReferenceLLA();
    double ang = S.ekf->GetReferenceAngle();
    Eigen::Vector3d loc = S.ekf->m_state.body_state.pos_b_in_l;
    if (op.contains("lat") && !S.ekf->IsLlaInitialized()) {
      // a fix of a body moving in a local frame that the filter does not know yet
      ref = Eigen::Vector3d(
        op.at("lat").get<double>(), op.at("lon").get<double>(), op.at("alt").get<double>());
      ang = op.at("h").get<double>() * 1e-3;
    } else {
      Eigen::Vector3d ant = st.pos_a_in_b;
      loc += S.ekf->m_state.body_state.ang_b_to_l * ant;
    }
    loc += g.v3(amp);
    loc += Eigen::Vector3d(op.value("dx", 0) * 0.1, op.value("dy", 0) * 0.1, 0.0);
    Eigen::Vector3d lla = enu_to_lla(local_to_enu(loc, ang), ref);
    Eigen::MatrixXd R = Eigen::Vector3d(g.u(.01, 1), g.u(.01, 1), g.u(.01, 1)).asDiagonal();
    if (g.u(0, 1) < 0.5) {R += g.spd(3, 0.3);}
    e["lla"] = jv(lla); e["R"] = jm(R);
    if (op.value("probe", 0) != 0) {
      e["pz"] = jv(u.PredictMeasurement(*S.ekf));
      e["pH"] = jm(u.GetMeasurementJacobian(*S.ekf));
    }
    if (S.via == 1) {
      GpsMessage m;
      m.time = Ti(op, "t"); m.sensor_id = id; m.sensor_type = SensorType::GPS;
      m.gps_lla = lla; m.pos_covariance = R;
      S.gps_obj.at(id)->Callback(m);
    } else {
      u.UpdateEKF(*S.ekf, Ti(op, "t"), lla, R);
    }
  } else if (k == "fid") {
    unsigned id = op.at("id").get<unsigned>();
    unsigned cam = IdOf(op, "cam");
    FiducialUpdater & u = FidU(id, cam);
    auto & cs = S.ekf->m_state.cam_states.at(cam);
    auto & fs = S.ekf->m_state.fid_states.at(id);
    static const double amps[] = {0.0, 0.01, 0.1, 0.8, 40.0};
    double amp = amps[op.value("amp", 0) % 5];
    auto & b = S.ekf->m_state.body_state;
    BoardDetection d;
    d.pos_f_in_c = cs.ang_c_to_b.inverse() *
      (b.ang_b_to_l.inverse() * (fs.pos_f_in_l - b.pos_b_in_l) - cs.pos_c_in_b) + g.v3(amp);
    Eigen::Vector3d rv = g.v3(std::min(amp, 1.5));
    d.ang_f_to_c = cs.ang_c_to_b.inverse() * b.ang_b_to_l.inverse() * fs.ang_f_to_l;
    if (amp > 0) {d.ang_f_to_c = Eigen::Quaterniond(Eigen::AngleAxisd(rv.norm(), rv.normalized())) * d.ang_f_to_c;}
    d.pos_error = Eigen::Vector3d(g.u(.01, .2), g.u(.01, .2), g.u(.01, .2));
    d.ang_error = Eigen::Vector3d(g.u(.01, .2), g.u(.01, .2), g.u(.01, .2));
    e["zp"] = jv(d.pos_f_in_c); e["zq"] = jq(d.ang_f_to_c);
    e["ep"] = jv(d.pos_error); e["eq"] = jv(d.ang_error);
    if (op.value("probe", 0) != 0) {
      e["pz"] = jv(u.PredictMeasurement(*S.ekf));
      e["pH"] = jm(u.GetMeasurementJacobian(*S.ekf));
    }
    if (S.via == 1) {
      json o2 = op;
      o2["fid"] = op.at("frm");
      auto m = Message(o2);
      auto b = std::make_shared<SimFiducialTrackerMessage>();
      b->time = m->time;
      b->tracker_id = S.cam_obj.at(cam).fid.at(id)->GetID();
      b->sensor_id = cam;
      b->sensor_type = SensorType::Tracker;
      b->is_board_visible = true;
      b->board_detection = d;
      m->fiducial_track_messages.push_back(b);
      CameraFrame(o2, m.get());
    } else {
      if (S.via == 2) {
        json o2 = op;
        o2["fid"] = op.at("frm");
        CameraFrame(o2, nullptr);
      }
      u.UpdateEKF(*S.ekf, Ti(op, "t"), d);
    }
  } else if (k == "msckf") {
    unsigned cam = IdOf(op, "cam");
    MsckfUpdater & u = MsckfU(cam);
    auto & cs = S.ekf->m_state.cam_states.at(cam);
    static const double amps[] = {0.0, 0.5, 5.0, 40.0};
    double amp = amps[op.value("amp", 0) % 4];
    FeatureTracks tracks;
    json jt = json::array();
    int nf = op.value("nf", 1);
    // the poses the camera can be asked about
    std::vector<std::pair<unsigned, double>> frames;
    for (auto & f : op.at("frames")) {
      frames.push_back({f.at(0).get<unsigned>(), f.at(1).get<double>() * kTick});
    }
    auto & in = cs.intrinsics;
    // features seen before any pose was recorded: nothing relates them to the filter
    bool blind = S.ekf->GetAugStateSize() == 0;
    e["blind"] = 0;
    for (int f = 0; f < nf && blind; ++f) {
      FeatureTrack tr;
      if (g.u(0, 1) < 0.5) {tr.true_feature_position = g.v3(5.0);}
      for (auto & fr : frames) {
        FeaturePoint p;
        p.frame_id = fr.first;
        p.frame_time = fr.second;
        p.key_point.class_id = f;
        p.key_point.pt.x = static_cast<float>(g.u(0, in.width));
        p.key_point.pt.y = static_cast<float>(g.u(0, in.height));
        tr.track.push_back(p);
      }
      tracks.push_back(tr);
      e["blind"] = f + 1;
    }
    for (int f = 0; f < nf && !frames.empty() && !blind; ++f) {
      // a point in front of the camera at the first frame
      AugState a0 = S.ekf->GetAugState(cam, frames[0].first, frames[0].second);
      double depth = g.u(3.0, 12.0);
      if (op.value("dep", 0) == 1 && g.u(0, 1) < 0.6) {depth = g.u(0.4, 1.6);}
      if (op.value("dep", 0) == 2 && g.u(0, 1) < 0.8) {depth = g.u(75.0, 120.0);}
      Eigen::Vector3d pc(depth * g.u(-.6, .6), depth * g.u(-.4, .4), depth);
      Eigen::Vector3d pf = a0.ang_b_to_l * (cs.ang_c_to_b * pc + cs.pos_c_in_b) + a0.pos_b_in_l;
      FeatureTrack tr;
      // tracks of simulated features come with their position, those from images do not
      bool known = op.value("unk", 0) == 0 || g.u(0, 1) < 0.4;
      if (known) {tr.true_feature_position = pf;}
      json jo = json::array();
      for (auto & fr : frames) {
        AugState a = S.ekf->GetAugState(cam, fr.first, fr.second);
        Eigen::Vector3d c = cs.ang_c_to_b.inverse() *
          (a.ang_b_to_l.inverse() * (pf - a.pos_b_in_l) - cs.pos_c_in_b);
        if (c.z() < 0.3) {continue;}
        FeaturePoint p;
        p.frame_id = fr.first;
        p.frame_time = fr.second;
        p.key_point.class_id = f;
        p.key_point.pt.x = static_cast<float>(
          c.x() / c.z() * in.f_x / in.pixel_size + in.width / 2 + g.u(-amp, amp));
        p.key_point.pt.y = static_cast<float>(
          c.y() / c.z() * in.f_y / in.pixel_size + in.height / 2 + g.u(-amp, amp));
        tr.track.push_back(p);
        json o = json::object();
        o["fid"] = fr.first;
        o["tk"] = static_cast<long>(fr.second / kTick);
        o["x"] = jr(static_cast<double>(p.key_point.pt.x));
        o["y"] = jr(static_cast<double>(p.key_point.pt.y));
        jo.push_back(o);
      }
      if (tr.track.size() < 2) {continue;}
      tracks.push_back(tr);
      jt.push_back(json{{"f", jv(pf)}, {"o", jo}, {"k", f}, {"kn", known ? 1 : 0}});
    }
    double px = S.via == 0 ? g.u(0.1, 2.0) : op.at("px").get<double>() * 0.1;
    e["tracks"] = jt;
    e["px"] = jr(px);
    e["intr"] = json{{"fx", jr(in.f_x / in.pixel_size)}, {"fy", jr(in.f_y / in.pixel_size)},
      {"cx", jr(in.width / 2)}, {"cy", jr(in.height / 2)}};
    if (S.via == 1) {
      json o2 = op;
      o2["fid"] = op.at("frm");
      auto m = Message(o2);
      auto t = std::make_shared<SimFeatureTrackerMessage>();
      t->time = m->time;
      t->tracker_id = S.cam_obj.at(cam).trk->GetID();
      t->sensor_id = cam;
      t->sensor_type = SensorType::Tracker;
      t->feature_tracks = tracks;
      m->feature_track_messages.push_back(t);
      CameraFrame(o2, m.get());
    } else {
      if (S.via == 2) {
        json o2 = op;
        o2["fid"] = op.at("frm");
        CameraFrame(o2, nullptr);
      }
      if (S.via == 0 || !tracks.empty()) {u.UpdateEKF(*S.ekf, Ti(op, "t"), tracks, px);}
    }
  } else {
    return false;
  }
  return true;
}
}  // namespace
