// Linked into a second build of the simulation program: notes what its parts are made with.
// Calls between object files pass through here (--wrap); a part whose interface is another
// one is not seen (its __real_ symbol is then missing).
#include <cstdlib>
#include "../io.hpp"
#include "ekf/ekf.hpp"
#include "infrastructure/debug_logger.hpp"
#include "infrastructure/sim/truth_engine.hpp"
#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "infrastructure/sim/truth_engine_smoother.hpp"
#include "infrastructure/sim/truth_engine_spline.hpp"
#include "sensors/sim/sim_camera.hpp"
#include "sensors/sim/sim_gps.hpp"
#include "sensors/sim/sim_imu.hpp"
#include "trackers/sim/sim_feature_tracker.hpp"
#include "trackers/sim/sim_fiducial_tracker.hpp"
#include "utility/sim/sim_rng.hpp"

namespace
{
using Truth = std::shared_ptr<TruthEngine>;
using Log = std::shared_ptr<DebugLogger>;
using Vec = std::vector<double>;
json jl(const Vec & v) {return jv(Eigen::Map<const Eigen::VectorXd>(v.data(), static_cast<int>(v.size())));}
json jb(bool b) {return jr(b ? 1.0 : 0.0);}
template<typename N> json ji(N n) {return jr(static_cast<double>(n));}
void Note(json r)
{
  const char * f = std::getenv("EKF_PROBE");
  if (f == nullptr) {return;}
  std::ofstream(f, std::ios::app) << r.dump() << "\n";
}
json Lens(const Intrinsics & n)
{
  return json{{"f_x", jr(n.f_x)}, {"f_y", jr(n.f_y)}, {"k_1", jr(n.k_1)}, {"k_2", jr(n.k_2)}, {"p_1", jr(n.p_1)},
    {"p_2", jr(n.p_2)}, {"width", ji(n.width)}, {"height", ji(n.height)}, {"pixel_size", jr(n.pixel_size)}};
}
json Of(const Sensor::Parameters & p, const SimSensor::Parameters & s)
{
  return json{{"name", p.name}, {"topic", p.topic}, {"rate", jr(p.rate)}, {"data_log_rate", jr(p.data_log_rate)},
    {"no_errors", jb(s.no_errors)}, {"time_error", jr(s.time_error)}};
}
}  // namespace
#define REAL(name, sym, ...) void name(__VA_ARGS__) asm ("__real_" sym) __attribute__((weak))
#define SEEN(name, sym, ...) void name(__VA_ARGS__) asm ("__wrap_" sym); void name(__VA_ARGS__)

#define S_EKF "_ZN3EKFC1ENS_10ParametersE"
REAL(RealEkf, S_EKF, EKF *, EKF::Parameters);
SEEN(SeenEkf, S_EKF, EKF * o, EKF::Parameters p)
{
  Note({{"kind", "ekf"}, {"data_log_rate", jr(p.data_log_rate)}, {"augmenting_type", ji(p.augmenting_type)},
    {"augmenting_delta_time", jr(p.augmenting_delta_time)}, {"augmenting_pos_error", jr(p.augmenting_pos_error)},
    {"augmenting_ang_error", jr(p.augmenting_ang_error)}, {"process_noise", jv(p.process_noise)},
    {"pos_b_in_l", jv(p.pos_b_in_l)}, {"ang_b_to_l", jq(p.ang_b_to_l)}, {"pos_e_in_g", jv(p.pos_e_in_g)},
    {"ang_l_to_e", jr(p.ang_l_to_e)}, {"gps_init_type", ji(p.gps_init_type)},
    {"gps_init_baseline_dist", jr(p.gps_init_baseline_dist)}, {"gps_init_pos_thresh", jr(p.gps_init_pos_thresh)},
    {"gps_init_ang_thresh", jr(p.gps_init_ang_thresh)},
    {"motion_detection_chi_squared", jr(p.motion_detection_chi_squared)},
    {"imu_noise_scale_factor", jr(p.imu_noise_scale_factor)}, {"use_root_covariance", jb(p.use_root_covariance)},
    {"use_first_estimate_jacobian", jb(p.use_first_estimate_jacobian)}});
  RealEkf(o, p);
}

#define S_IMU "_ZN6SimIMUC1ENS_10ParametersESt10shared_ptrI11TruthEngineE"
REAL(RealImu, S_IMU, SimIMU *, SimIMU::Parameters, Truth);
SEEN(SeenImu, S_IMU, SimIMU * o, SimIMU::Parameters p, Truth t)
{
  auto & q = p.imu_params;
  json r = Of(q, p);
  r.update(json{{"kind", "imu"}, {"is_extrinsic", jb(q.is_extrinsic)}, {"is_intrinsic", jb(q.is_intrinsic)},
    {"pos_i_in_b", jv(q.pos_i_in_b)}, {"ang_i_to_b", jq(q.ang_i_to_b)}, {"acc_bias", jv(q.acc_bias)},
    {"omg_bias", jv(q.omg_bias)}, {"pos_stability", jr(q.pos_stability)}, {"ang_stability", jr(q.ang_stability)},
    {"acc_bias_stability", jr(q.acc_bias_stability)}, {"omg_bias_stability", jr(q.omg_bias_stability)},
    {"variance", jv(q.variance)}, {"acc_error", jv(p.acc_error)}, {"omg_error", jv(p.omg_error)},
    {"pos_error", jv(p.pos_error)}, {"ang_error", jv(p.ang_error)}, {"acc_bias_error", jv(p.acc_bias_error)},
    {"omg_bias_error", jv(p.omg_bias_error)}});
  RealImu(o, p, t);
  r["id"] = o->GetId();
  Note(r);
}

#define S_CAM "_ZN9SimCameraC1ENS_10ParametersESt10shared_ptrI11TruthEngineE"
REAL(RealCam, S_CAM, SimCamera *, SimCamera::Parameters, Truth);
SEEN(SeenCam, S_CAM, SimCamera * o, SimCamera::Parameters p, Truth t)
{
  auto & q = p.cam_params;
  json r = Of(q, p);
  r.update(json{{"kind", "cam"}, {"is_extrinsic", jb(q.is_extrinsic)}, {"pos_c_in_b", jv(q.pos_c_in_b)},
    {"ang_c_to_b", jq(q.ang_c_to_b)}, {"pos_stability", jr(q.pos_stability)}, {"ang_stability", jr(q.ang_stability)},
    {"variance", jv(q.variance)}, {"lens", Lens(q.intrinsics)}, {"pos_error", jv(p.pos_error)},
    {"ang_error", jv(p.ang_error)}});
  RealCam(o, p, t);
  r["id"] = o->GetId();
  Note(r);
}

#define S_GPS "_ZN6SimGPSC1ENS_10ParametersESt10shared_ptrI11TruthEngineE"
REAL(RealGps, S_GPS, SimGPS *, SimGPS::Parameters, Truth);
SEEN(SeenGps, S_GPS, SimGPS * o, SimGPS::Parameters p, Truth t)
{
  auto & q = p.gps_params;
  json r = Of(q, p);
  r.update(json{{"kind", "gps"}, {"is_extrinsic", jb(q.is_extrinsic)}, {"pos_a_in_b", jv(q.pos_a_in_b)},
    {"pos_stability", jr(q.pos_stability)}, {"variance", jv(q.variance)}, {"lla_error", jv(p.lla_error)},
    {"pos_a_in_b_error", jv(p.pos_a_in_b_err)}, {"pos_e_in_g_error", jv(p.pos_e_in_g_err)},
    {"ang_l_to_e_error", jr(p.ang_l_to_e_err)}});
  RealGps(o, p, t);
  r["id"] = o->GetId();
  Note(r);
}

#define S_TRK "_ZN17SimFeatureTrackerC1ENS_10ParametersESt10shared_ptrI11TruthEngineE"
REAL(RealTrk, S_TRK, SimFeatureTracker *, SimFeatureTracker::Parameters, Truth);
SEEN(SeenTrk, S_TRK, SimFeatureTracker * o, SimFeatureTracker::Parameters p, Truth t)
{
  auto & q = p.tracker_params;
  Note({{"kind", "trk"}, {"name", q.name}, {"camera_id", q.camera_id}, {"is_cam_extrinsic", jb(q.is_cam_extrinsic)},
    {"data_log_rate", jr(q.data_log_rate)}, {"lens", Lens(q.intrinsics)}, {"min_track_length", ji(q.min_track_length)},
    {"max_track_length", ji(q.max_track_length)}, {"pixel_error", jr(q.px_error)}, {"min_feat_dist", jr(q.min_feat_dist)},
    {"down_sample", jb(q.down_sample)}, {"down_sample_height", ji(q.down_sample_height)},
    {"down_sample_width", ji(q.down_sample_width)}, {"feature_count", ji(p.feature_count)},
    {"room_size", jr(p.room_size)}, {"no_errors", jb(p.no_errors)}});
  RealTrk(o, p, t);
}

#define S_FID "_ZN18SimFiducialTrackerC1ENS_10ParametersESt10shared_ptrI11TruthEngineE"
REAL(RealFid, S_FID, SimFiducialTracker *, SimFiducialTracker::Parameters, Truth);
SEEN(SeenFid, S_FID, SimFiducialTracker * o, SimFiducialTracker::Parameters p, Truth t)
{
  auto & q = p.fiducial_params;
  Note({{"kind", "fid"}, {"name", q.name}, {"camera_id", q.camera_id}, {"is_cam_extrinsic", jb(q.is_cam_extrinsic)},
    {"data_log_rate", jr(q.data_log_rate)}, {"lens", Lens(q.intrinsics)}, {"id", ji(q.id)},
    {"fiducial_type", ji(static_cast<int>(q.detector_type))},
    {"min_track_length", ji(q.min_track_length)}, {"max_track_length", ji(q.max_track_length)},
    {"is_extrinsic", jb(q.is_extrinsic)}, {"pos_f_in_l", jv(q.pos_f_in_l)}, {"ang_f_to_l", jq(q.ang_f_to_l)},
    {"variance", jv(q.variance)}, {"squares_x", ji(q.squares_x)}, {"squares_y", ji(q.squares_y)},
    {"square_length", jr(q.square_length)}, {"marker_length", jr(q.marker_length)}, {"pos_error", jv(p.pos_error)},
    {"ang_error", jv(p.ang_error)}, {"t_vec_error", jv(p.t_vec_error)}, {"r_vec_error", jv(p.r_vec_error)},
    {"no_errors", jb(p.no_errors)}});
  RealFid(o, p, t);
}

#define S_CYC "_ZN17TruthEngineCyclicC1EN5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEES2_S2_S2_ddddSt10shared_ptrI11DebugLoggerE"
REAL(RealCyc, S_CYC, TruthEngineCyclic *, Eigen::Vector3d, Eigen::Vector3d, Eigen::Vector3d, Eigen::Vector3d,
  double, double, double, double, Log);
SEEN(SeenCyc, S_CYC, TruthEngineCyclic * o, Eigen::Vector3d a, Eigen::Vector3d b, Eigen::Vector3d c, Eigen::Vector3d d,
  double e, double f, double g, double h, Log l)
{
  Note({{"kind", "truth"}, {"truth_type", "cyclic"}, {"pos_frequency", jv(a)}, {"ang_frequency", jv(b)},
    {"pos_offset", jv(c)}, {"ang_offset", jv(d)}, {"pos_amplitude", jr(e)}, {"ang_amplitude", jr(f)},
    {"stationary_time", jr(g)}, {"max_time", jr(h)}});
  RealCyc(o, a, b, c, d, e, f, g, h, l);
}

#define S_SPL "_ZN17TruthEngineSplineC1ESt6vectorIdSaIdEES2_S2_S2_ddSt10shared_ptrI11DebugLoggerE"
REAL(RealSpl, S_SPL, TruthEngineSpline *, Vec, Vec, Vec, Vec, double, double, Log);
SEEN(SeenSpl, S_SPL, TruthEngineSpline * o, Vec a, Vec b, Vec c, Vec d, double e, double f, Log l)
{
  Note({{"kind", "truth"}, {"truth_type", "spline"}, {"positions", jl(a)}, {"angles", jl(b)}, {"pos_errors", jl(c)},
    {"ang_errors", jl(d)}, {"stationary_time", jr(e)}, {"max_time", jr(f)}});
  RealSpl(o, a, b, c, d, e, f, l);
}

#define S_SMO "_ZN19TruthEngineSmootherC1ESt6vectorIdSaIdEES2_S2_S2_S2_dddSt10shared_ptrI11DebugLoggerE"
REAL(RealSmo, S_SMO, TruthEngineSmoother *, Vec, Vec, Vec, Vec, Vec, double, double, double, Log);
SEEN(SeenSmo, S_SMO, TruthEngineSmoother * o, Vec t, Vec a, Vec b, Vec c, Vec d, double e, double f, double g, Log l)
{
  Note({{"kind", "truth"}, {"truth_type", "smoother"}, {"times", jl(t)}, {"positions", jl(a)}, {"angles", jl(b)},
    {"pos_errors", jl(c)}, {"ang_errors", jl(d)}, {"stationary_time", jr(e)}, {"max_time", jr(f)}});
  RealSmo(o, t, a, b, c, d, e, f, g, l);
}

#define S_LEN "_ZN3EKF17SetMaxTrackLengthEj"
REAL(RealLen, S_LEN, EKF *, unsigned);
SEEN(SeenLen, S_LEN, EKF * o, unsigned n) {Note({{"kind", "length"}, {"n", n}}); RealLen(o, n);}

#define S_SEED "_ZN6SimRNG7SetSeedEj"
REAL(RealSeed, S_SEED, unsigned);
SEEN(SeenSeed, S_SEED, unsigned n) {Note({{"kind", "seed"}, {"n", n}}); RealSeed(n);}

#define S_BEG "_ZN3EKF10InitializeEdRK9BodyState"
REAL(RealBeg, S_BEG, EKF *, double, const BodyState &);
SEEN(SeenBeg, S_BEG, EKF * o, double t, const BodyState & b)
{
  Note({{"kind", "begin"}, {"t", jr(t)}, {"p", jv(b.pos_b_in_l)}, {"q", jq(b.ang_b_to_l)}, {"v", jv(b.vel_b_in_l)}});
  RealBeg(o, t, b);
}

#define S_LOG "_ZN11DebugLoggerC1EjRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"
REAL(RealLog, S_LOG, DebugLogger *, unsigned, const std::string &);
SEEN(SeenLog, S_LOG, DebugLogger * o, unsigned n, const std::string & d)
{
  Note({{"kind", "debug"}, {"debug_log_level", ji(n)}});
  RealLog(o, n, d);
}

#define S_POS "_ZN11TruthEngine16SetLocalPositionERKN5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEE"
REAL(RealPos, S_POS, TruthEngine *, const Eigen::Vector3d &);
SEEN(SeenPos, S_POS, TruthEngine * o, const Eigen::Vector3d & p) {Note({{"kind", "place"}, {"p", jv(p)}}); RealPos(o, p);}

#define S_HDG "_ZN11TruthEngine15SetLocalHeadingEd"
REAL(RealHdg, S_HDG, TruthEngine *, double);
SEEN(SeenHdg, S_HDG, TruthEngine * o, double a) {Note({{"kind", "heading"}, {"a", jr(a)}}); RealHdg(o, a);}

namespace
{
struct Start
{
  Start()
  {
    json k = json::array();
    if (RealEkf) {k.push_back("ekf");}
    if (RealImu) {k.push_back("imu");}
    if (RealCam) {k.push_back("cam");}
    if (RealGps) {k.push_back("gps");}
    if (RealTrk) {k.push_back("trk");}
    if (RealFid) {k.push_back("fid");}
    if (RealCyc && RealSpl && RealSmo) {k.push_back("truth");}
    if (RealLen) {k.push_back("length");}
    if (RealSeed) {k.push_back("seed");}
    if (RealBeg) {k.push_back("begin");}
    if (RealLog) {k.push_back("debug");}
    if (RealPos) {k.push_back("place");}
    if (RealHdg) {k.push_back("heading");}
    Note({{"kind", "can"}, {"see", k}});
  }
} g_start;
}  // namespace
