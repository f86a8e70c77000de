// Linked into a build of the ROS node against rosstub: gives it parameters, plays messages on
// its topics, and notes what its parts are made with, what reaches them and what is published.
#include <cstdlib>
#include <typeinfo>
#include "../io.hpp"
#include <rclcpp/rclcpp.hpp>
#include <sensor_msgs/msg/image.hpp>
#include <sensor_msgs/msg/imu.hpp>
#include <sensor_msgs/msg/nav_sat_fix.hpp>
#include <std_msgs/msg/float64_multi_array.hpp>
#include "ekf/ekf.hpp"
#include "infrastructure/debug_logger.hpp"
#include "sensors/camera.hpp"
#include "sensors/gps.hpp"
#include "sensors/imu.hpp"
#include "trackers/feature_tracker.hpp"
#include "trackers/fiducial_tracker.hpp"

namespace
{
json jb(bool b) {return jr(b ? 1.0 : 0.0);}
template<typename N> json ji(N n) {return jr(static_cast<double>(n));}
EKF * g_ekf = nullptr;
void Note(json r)
{
  const char * f = std::getenv("EKF_PROBE");
  if (f == nullptr) {return;}
  std::ofstream(f, std::ios::app) << r.dump() << "\n";
}
json Lens(const Intrinsics & n)
{
  return json{{"f_x", jr(n.f_x)}, {"f_y", jr(n.f_y)}, {"k_1", jr(n.k_1)}, {"k_2", jr(n.k_2)}, {"p_1", jr(n.p_1)},
    {"p_2", jr(n.p_2)}, {"width", ji(n.width)}, {"height", ji(n.height)}, {"pixel_size", jr(n.pixel_size)}};
}
json Of(const Sensor::Parameters & p)
{
  return json{{"name", p.name}, {"topic", p.topic}, {"rate", jr(p.rate)}, {"data_log_rate", jr(p.data_log_rate)},
    {"dir", p.log_directory}, {"ours", p.ekf.get() == g_ekf}};
}
json Flat(const Eigen::Matrix3d & m)
{
  json a = json::array();
  for (int i = 0; i < 9; ++i) {push_real(a, m(i / 3, i % 3));}
  return a;
}
int Sum(const uint8_t * d, size_t n)
{
  uint32_t s = 17;
  for (size_t i = 0; i < n; ++i) {s = s * 31 + d[i];}
  return static_cast<int>(s & 0x3fffffff);
}
}  // namespace

// ---------------------------------------------------------------- the stand-in for ROS
namespace rosstub
{
namespace
{
struct Sub {std::string topic; const std::type_info * type; std::function<void(std::shared_ptr<void>)> f;};
std::vector<Sub> & Subs() {static std::vector<Sub> s; return s;}
std::vector<std::function<void()>> & Timers() {static std::vector<std::function<void()>> t; return t;}
json & Params()
{
  static json p = []() {
      std::ifstream in(std::getenv("ROS_STUB_PARAMS"));
      return json::parse(in);
    }();
  return p;
}
std::array<double, 9> Nine(const json & a)
{
  std::array<double, 9> x;
  for (int i = 0; i < 9; ++i) {x[i] = a[i];}
  return x;
}
template<typename M> void Send(const std::string & topic, std::shared_ptr<M> m)
{
  for (auto & s : std::vector<Sub>(Subs())) {
    if (s.topic == topic && *s.type == typeid(M)) {s.f(std::make_shared<M>(*m));}
  }
}
}  // namespace
bool Given(const std::string & name, std::string & value)
{
  json * at = &Params();
  size_t from = 0;
  while (true) {
    size_t dot = name.find('.', from);
    std::string k = name.substr(from, dot == std::string::npos ? dot : dot - from);
    if (!at->is_object() || !at->contains(k)) {return false;}
    at = &(*at)[k];
    if (dot == std::string::npos) {break;}
    from = dot + 1;
  }
  value = at->dump();
  return true;
}
rclcpp::ParameterValue::Value Parse(const std::string & text, size_t like)
{
  json v = json::parse(text);
  auto bad = [&]() {throw rclcpp::exceptions::InvalidParameterTypeException("given value has another type: " + text);};
  auto all = [&](auto is) {
      if (!v.is_array()) {bad();}
      for (auto & x : v) {if (!is(x)) {bad();}}
    };
  switch (like) {
    case 0: if (!v.is_boolean()) {bad();} return v.get<bool>();
    case 1: if (!v.is_number_integer()) {bad();} return v.get<int64_t>();
    case 2: if (!v.is_number_float()) {bad();} return v.get<double>();
    case 3: if (!v.is_string()) {bad();} return v.get<std::string>();
    case 4: all([](const json & x) {return x.is_number_integer();}); return v.get<std::vector<int64_t>>();
    case 5: all([](const json & x) {return x.is_number_float();}); return v.get<std::vector<double>>();
    case 6: all([](const json & x) {return x.is_string();}); return v.get<std::vector<std::string>>();
    default: all([](const json & x) {return x.is_boolean();}); return v.get<std::vector<bool>>();
  }
}
void Subscribe(const std::string & topic, const std::type_info & type, std::function<void(std::shared_ptr<void>)> f)
{
  Subs().push_back({topic, &type, f});
}
void Timer(std::function<void()> f) {Timers().push_back(f);}
void Published(const std::string & topic, const std::type_info & type, const void * msg)
{
  if (type == typeid(sensor_msgs::msg::Image)) {
    auto & m = *static_cast<const sensor_msgs::msg::Image *>(msg);
    Note({{"kind", "pub"}, {"what", "image"}, {"topic", topic}, {"w", m.width}, {"h", m.height}, {"bytes", m.data.size()}});
  } else if (type == typeid(std_msgs::msg::Float64MultiArray)) {
    auto & m = *static_cast<const std_msgs::msg::Float64MultiArray *>(msg);
    json r{{"kind", "pub"}, {"what", "numbers"}, {"topic", topic},
      {"data", jv(Eigen::Map<const Eigen::VectorXd>(m.data.data(), m.data.size()))}};
    if (g_ekf != nullptr) {
      auto & b = g_ekf->m_state.body_state;
      r["p"] = jv(b.pos_b_in_l); r["v"] = jv(b.vel_b_in_l); r["a"] = jv(b.acc_b_in_l);
      r["q"] = jq(b.ang_b_to_l); r["w"] = jv(b.ang_vel_b_in_l); r["wa"] = jv(b.ang_acc_b_in_l);
    }
    Note(r);
  }
}
void Play()
{
  std::ifstream in(std::getenv("ROS_STUB_PLAY"));
  std::string line;
  int n = 0;
  while (std::getline(in, line)) {
    json m = json::parse(line);
    Note({{"kind", "play"}, {"n", ++n}});
    std::string k = m["msg"];
    std_msgs::msg::Header h;
    if (m.contains("sec")) {h.stamp.sec = m["sec"]; h.stamp.nanosec = m["nsec"].get<uint32_t>();}
    if (k == "say") {
      DebugLogger l(m["cfg"].get<unsigned>(), "");
      Capture c;
      if (m["how"] == 1) {
        l.SetLogLevel(static_cast<LogLevel>(m["set"].get<int>()));
      } else if (m["how"] == 2) {
        l.SetLogLevel(m["set"].get<unsigned>());
      }
      l.Log(static_cast<LogLevel>(m["lv"].get<int>()), m["txt"].get<std::string>());
      Note({{"kind", "said"}, {"n", n}, {"text", c.out() + c.err()}});
    } else if (k == "tick") {
      for (auto & t : Timers()) {t();}
    } else if (k == "imu") {
      auto x = std::make_shared<sensor_msgs::msg::Imu>();
      x->header = h;
      auto three = [](const json & a) {geometry_msgs::msg::Vector3 v; v.x = a[0]; v.y = a[1]; v.z = a[2]; return v;};
      x->linear_acceleration = three(m["acc"]); x->angular_velocity = three(m["omg"]);
      x->linear_acceleration_covariance = Nine(m["acc_cov"]); x->angular_velocity_covariance = Nine(m["omg_cov"]);
      x->orientation_covariance[0] = -1.0;
      Send(m["topic"], x);
    } else if (k == "gps") {
      auto x = std::make_shared<sensor_msgs::msg::NavSatFix>();
      x->header = h;
      x->latitude = m["lla"][0]; x->longitude = m["lla"][1]; x->altitude = m["lla"][2];
      x->position_covariance = Nine(m["cov"]);
      x->position_covariance_type = sensor_msgs::msg::NavSatFix::COVARIANCE_TYPE_KNOWN;
      Send(m["topic"], x);
    } else {
      auto x = std::make_shared<sensor_msgs::msg::Image>();
      x->header = h;
      x->width = m["w"]; x->height = m["h"]; x->encoding = "mono8"; x->step = x->width;
      Rng r(m["seed"].get<int>());
      for (unsigned i = 0; i < x->width * x->height; ++i) {x->data.push_back(static_cast<uint8_t>(r.u(0, 255.99)));}
      Note({{"kind", "sent"}, {"n", n}, {"sum", Sum(x->data.data(), x->data.size())}});
      Send(m["topic"], x);
    }
  }
}
}  // namespace rosstub

// ---------------------------------------------------------------- what is made
#define REAL(name, sym, ...) void name(__VA_ARGS__) asm ("__real_" sym) __attribute__((weak))
#define SEEN(name, sym, ...) void name(__VA_ARGS__) asm ("__wrap_" sym); void name(__VA_ARGS__)

#define S_EKF "_ZN3EKFC1ENS_10ParametersE"
REAL(RealEkf, S_EKF, EKF *, EKF::Parameters);
SEEN(SeenEkf, S_EKF, EKF * o, EKF::Parameters p)
{
  g_ekf = o;
  Note({{"kind", "ekf"}, {"data_log_rate", jr(p.data_log_rate)}, {"augmenting_type", ji(p.augmenting_type)},
    {"augmenting_delta_time", jr(p.augmenting_delta_time)}, {"augmenting_pos_error", jr(p.augmenting_pos_error)},
    {"augmenting_ang_error", jr(p.augmenting_ang_error)}, {"process_noise", jv(p.process_noise)},
    {"pos_b_in_l", jv(p.pos_b_in_l)}, {"ang_b_to_l", jq(p.ang_b_to_l)}, {"pos_e_in_g", jv(p.pos_e_in_g)},
    {"ang_l_to_e", jr(p.ang_l_to_e)}, {"gps_init_type", ji(p.gps_init_type)},
    {"gps_init_baseline_dist", jr(p.gps_init_baseline_dist)}, {"gps_init_pos_thresh", jr(p.gps_init_pos_thresh)},
    {"gps_init_ang_thresh", jr(p.gps_init_ang_thresh)}, {"dir", p.log_directory},
    {"motion_detection_chi_squared", jr(p.motion_detection_chi_squared)},
    {"imu_noise_scale_factor", jr(p.imu_noise_scale_factor)}, {"use_root_covariance", jb(p.use_root_covariance)},
    {"use_first_estimate_jacobian", jb(p.use_first_estimate_jacobian)}});
  RealEkf(o, p);
}

#define S_IMU "_ZN3IMUC2ENS_10ParametersE"
REAL(RealImu, S_IMU, IMU *, IMU::Parameters);
SEEN(SeenImu, S_IMU, IMU * o, IMU::Parameters q)
{
  json r = Of(q);
  r.update(json{{"kind", "imu"}, {"is_extrinsic", jb(q.is_extrinsic)}, {"is_intrinsic", jb(q.is_intrinsic)},
    {"pos_i_in_b", jv(q.pos_i_in_b)}, {"ang_i_to_b", jq(q.ang_i_to_b)}, {"acc_bias", jv(q.acc_bias)},
    {"omg_bias", jv(q.omg_bias)}, {"pos_stability", jr(q.pos_stability)}, {"ang_stability", jr(q.ang_stability)},
    {"acc_bias_stability", jr(q.acc_bias_stability)}, {"omg_bias_stability", jr(q.omg_bias_stability)},
    {"variance", jv(q.variance)}});
  RealImu(o, q);
  r["id"] = o->GetId();
  Note(r);
}

#define S_CAM "_ZN6CameraC2ENS_10ParametersE"
REAL(RealCam, S_CAM, Camera *, Camera::Parameters);
SEEN(SeenCam, S_CAM, Camera * o, Camera::Parameters q)
{
  json r = Of(q);
  r.update(json{{"kind", "cam"}, {"is_extrinsic", jb(q.is_extrinsic)}, {"pos_c_in_b", jv(q.pos_c_in_b)},
    {"ang_c_to_b", jq(q.ang_c_to_b)}, {"pos_stability", jr(q.pos_stability)}, {"ang_stability", jr(q.ang_stability)},
    {"variance", jv(q.variance)}, {"lens", Lens(q.intrinsics)}});
  RealCam(o, q);
  r["id"] = o->GetId();
  Note(r);
}

#define S_GPS "_ZN3GPSC2ENS_10ParametersE"
REAL(RealGps, S_GPS, GPS *, GPS::Parameters);
SEEN(SeenGps, S_GPS, GPS * o, GPS::Parameters q)
{
  json r = Of(q);
  r.update(json{{"kind", "gps"}, {"is_extrinsic", jb(q.is_extrinsic)}, {"pos_a_in_b", jv(q.pos_a_in_b)},
    {"pos_stability", jr(q.pos_stability)}, {"variance", jv(q.variance)}});
  RealGps(o, q);
  r["id"] = o->GetId();
  Note(r);
}

#define S_TRK "_ZN14FeatureTrackerC1ENS_10ParametersE"
REAL(RealTrk, S_TRK, FeatureTracker *, FeatureTracker::Parameters);
SEEN(SeenTrk, S_TRK, FeatureTracker * o, FeatureTracker::Parameters q)
{
  Note({{"kind", "trk"}, {"camera_id", q.camera_id}, {"is_cam_extrinsic", jb(q.is_cam_extrinsic)},
    {"data_log_rate", jr(q.data_log_rate)}, {"lens", Lens(q.intrinsics)}, {"min_track_length", ji(q.min_track_length)},
    {"max_track_length", ji(q.max_track_length)}, {"pixel_error", jr(q.px_error)},
    {"min_feature_distance", jr(q.min_feat_dist)}, {"down_sample_height", ji(q.down_sample_height)},
    {"down_sample_width", ji(q.down_sample_width)}, {"feature_detector", ji(static_cast<int>(q.detector))},
    {"descriptor_extractor", ji(static_cast<int>(q.descriptor))}, {"descriptor_matcher", ji(static_cast<int>(q.matcher))},
    {"detector_threshold", jr(q.threshold)}, {"dir", q.log_directory}, {"ours", q.ekf.get() == g_ekf}});
  RealTrk(o, q);
}

#define S_FID "_ZN15FiducialTrackerC1ENS_10ParametersE"
REAL(RealFid, S_FID, FiducialTracker *, FiducialTracker::Parameters);
SEEN(SeenFid, S_FID, FiducialTracker * o, FiducialTracker::Parameters q)
{
  Note({{"kind", "fid"}, {"camera_id", q.camera_id}, {"is_cam_extrinsic", jb(q.is_cam_extrinsic)},
    {"data_log_rate", jr(q.data_log_rate)}, {"lens", Lens(q.intrinsics)}, {"id", ji(q.id)},
    {"fiducial_type", ji(static_cast<int>(q.detector_type))},
    {"min_track_length", ji(q.min_track_length)}, {"max_track_length", ji(q.max_track_length)},
    {"is_extrinsic", jb(q.is_extrinsic)}, {"pos_f_in_l", jv(q.pos_f_in_l)}, {"ang_f_to_l", jq(q.ang_f_to_l)},
    {"variance", jv(q.variance)}, {"squares_x", ji(q.squares_x)}, {"squares_y", ji(q.squares_y)},
    {"square_length", jr(q.square_length)}, {"marker_length", jr(q.marker_length)}, {"dir", q.log_directory},
    {"ours", q.ekf.get() == g_ekf}});
  RealFid(o, q);
}

#define S_LOG "_ZN11DebugLoggerC1EjRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"
REAL(RealLog, S_LOG, DebugLogger *, unsigned, const std::string &);
SEEN(SeenLog, S_LOG, DebugLogger * o, unsigned n, const std::string & d)
{
  Note({{"kind", "debug"}, {"debug_log_level", ji(n)}, {"dir", d}});
  RealLog(o, n, d);
}

#define S_LEN "_ZN3EKF17SetMaxTrackLengthEj"
REAL(RealLen, S_LEN, EKF *, unsigned);
SEEN(SeenLen, S_LEN, EKF * o, unsigned n) {Note({{"kind", "length"}, {"n", n}}); RealLen(o, n);}

// ---------------------------------------------------------------- what reaches the sensors
#define S_IMUCALL "_ZN3IMU8CallbackERK10ImuMessage"
REAL(RealImuCall, S_IMUCALL, IMU *, const ImuMessage &);
SEEN(SeenImuCall, S_IMUCALL, IMU * o, const ImuMessage & m)
{
  Note({{"kind", "got"}, {"what", "imu"}, {"id", o->GetId()}, {"sid", m.sensor_id}, {"t", jr(m.time)}, {"acc", jv(m.acceleration)},
    {"omg", jv(m.angular_rate)}, {"acc_cov", Flat(m.acceleration_covariance)}, {"omg_cov", Flat(m.angular_rate_covariance)}});
  RealImuCall(o, m);
}
#define S_GPSCALL "_ZN3GPS8CallbackERK10GpsMessage"
REAL(RealGpsCall, S_GPSCALL, GPS *, const GpsMessage &);
SEEN(SeenGpsCall, S_GPSCALL, GPS * o, const GpsMessage & m)
{
  Note({{"kind", "got"}, {"what", "gps"}, {"id", o->GetId()}, {"sid", m.sensor_id}, {"t", jr(m.time)}, {"lla", jv(m.gps_lla)},
    {"cov", Flat(m.pos_covariance)}});
  RealGpsCall(o, m);
}
#define S_CAMCALL "_ZN6Camera8CallbackERK13CameraMessage"
REAL(RealCamCall, S_CAMCALL, Camera *, const CameraMessage &);
SEEN(SeenCamCall, S_CAMCALL, Camera * o, const CameraMessage & m)
{
  cv::Mat c = m.image.clone();
  Note({{"kind", "got"}, {"what", "cam"}, {"id", o->GetId()}, {"sid", m.sensor_id}, {"t", jr(m.time)}, {"w", c.cols}, {"h", c.rows},
    {"sum", Sum(c.data, c.total() * c.elemSize())}});
  RealCamCall(o, m);
}

namespace
{
struct Start
{
  Start()
  {
    json k = json::array();
    if (RealEkf) {k.push_back("ekf");}
    if (RealImu) {k.push_back("imu");}
    if (RealCam) {k.push_back("cam");}
    if (RealGps) {k.push_back("gps");}
    if (RealTrk) {k.push_back("trk");}
    if (RealFid) {k.push_back("fid");}
    if (RealLog) {k.push_back("debug");}
    if (RealLen) {k.push_back("length");}
    if (RealImuCall && RealGpsCall && RealCamCall) {k.push_back("got");}
    Note({{"kind", "can"}, {"see", k}});
  }
} g_start;
}  // namespace
