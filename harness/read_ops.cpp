// Writes a configuration with a random value for (nearly) every key, runs the probe build of
// the simulation program on it and records both: the configuration as read by a YAML parser
// that knows nothing of its meaning, and what the program's parts were made with.
#include <sys/wait.h>
#include <cstdlib>
#include <filesystem>
#include <functional>
#include <iostream>
#include <yaml-cpp/yaml.h>
#include "io.hpp"

namespace
{
namespace fs = std::filesystem;
struct Writer
{
  Rng & r;
  int drop;   // one key in drop is left out
  // a mapping in both notations
  struct Map {YAML::Node y; json j = json::object();};
  bool skip() {return drop > 0 && r.u(0, drop) < 1.0;}
  void real(Map & m, const char * k, double v, bool must = false)
  {
    if (!must && skip()) {return;}
    m.y[k] = v; m.j[k] = jr(v);
  }
  void whole(Map & m, const char * k, int v, bool must = false)
  {
    if (!must && skip()) {return;}
    m.y[k] = v; m.j[k] = jr(v);
  }
  void flag(Map & m, const char * k, bool must = false)
  {
    if (!must && skip()) {return;}
    bool b = r.u(0, 1) < 0.5;
    m.y[k] = b; m.j[k] = jr(b ? 1.0 : 0.0);
  }
  void list(Map & m, const char * k, const Eigen::VectorXd & v, bool must = false)
  {
    if (!must && skip()) {return;}
    m.y[k] = std::vector<double>(v.data(), v.data() + v.size()); m.j[k] = jv(v);
  }
  void text(Map & m, const char * k, const std::string & s) {m.y[k] = s; m.j[k] = s;}
  void sub(Map & m, const char * k, const Map & s) {m.y[k] = s.y; m.j[k] = s.j;}
  Eigen::VectorXd pos(int n, double lo, double hi)
  {
    Eigen::VectorXd v(n);
    for (int i = 0; i < n; ++i) {v(i) = r.u(lo, hi);}
    return v;
  }
  Eigen::VectorXd quat()
  {
    Eigen::Quaterniond q = r.q(2.0);
    return r.u(0.6, 1.6) * Eigen::Vector4d(q.w(), q.x(), q.y(), q.z());
  }
};
using Map = Writer::Map;
void Sensor(Writer & w, Map & n, Map & s, const std::string & name, double rate)
{
  w.text(n, "topic", "/" + name);
  w.real(n, "rate", rate);
  w.real(n, "data_log_rate", w.r.u(1, 40));
  w.flag(s, "no_errors");
  w.real(s, "time_error", w.r.u(0, 1e-4));
}
}  // namespace

bool ReadOp(Ctx & ctx, const json & op)
{
  if (op.at("op") != "read") {return false;}
  json e = op;
  Rng r(op.at("seed").get<uint64_t>());
  Writer w{r, op.at("drop").get<int>()};
  Map p, s, noise;
  double dur = r.u(0.2, 0.5);
  w.whole(p, "debug_log_level", static_cast<int>(r.u(0, 6)));
  w.real(p, "data_log_rate", r.u(5, 40));
  w.whole(p, "augmenting_type", op.at("pol").get<int>());
  w.real(p, "augmenting_delta_time", r.u(0.05, 2));
  w.real(p, "augmenting_pos_error", r.u(0.01, 1));
  w.real(p, "augmenting_ang_error", r.u(0.01, 1));
  w.list(p, "pos_b_in_l", w.pos(3, -2, 2)); w.list(p, "ang_b_to_l", w.quat());
  w.list(p, "pos_e_in_g", w.pos(3, -80, 80)); w.real(p, "ang_l_to_e", r.u(-3, 3));
  w.whole(p, "gps_init_type", static_cast<int>(r.u(0, 3)));
  w.real(p, "gps_init_baseline_dist", r.u(5, 200)); w.real(p, "gps_init_pos_thresh", r.u(0.1, 5));
  w.real(p, "gps_init_ang_thresh", r.u(0.01, 3));
  w.real(p, "motion_detection_chi_squared", r.u(0.1, 5)); w.real(p, "imu_noise_scale_factor", r.u(1, 300));
  w.flag(p, "use_root_covariance"); w.flag(p, "use_first_estimate_jacobian");
  for (const char * k : {"pos", "vel", "acc", "ang_pos", "ang_vel", "ang_acc"}) {w.real(noise, k, r.u(1e-3, 1));}
  if (noise.j.size() > 0) {w.sub(p, "process_noise", noise);}
  // the world
  w.whole(s, "seed", static_cast<int>(r.u(1, 100000)));
  w.real(s, "max_time", dur, true);
  w.real(s, "stationary_time", r.u(0.1, 0.4));
  std::string kind = op.at("truth").get<std::string>();
  if (kind != "cyclic" || !w.skip()) {w.text(s, "truth_type", kind);}
  if (kind == "cyclic") {
    w.list(s, "pos_frequency", w.pos(3, 0.1, 0.5)); w.list(s, "ang_frequency", w.pos(3, 0.1, 0.5));
    w.list(s, "pos_offset", w.pos(3, -2, 2)); w.list(s, "ang_offset", w.pos(3, -0.3, 0.3));
    w.real(s, "pos_amplitude", r.u(0.2, 2)); w.real(s, "ang_amplitude", r.u(0.02, 0.3));
  } else {
    int n = kind == "spline" ? static_cast<int>(r.u(4, 7)) : 10;
    w.list(s, "positions", w.pos(3 * n, -1, 1), true); w.list(s, "angles", w.pos(3 * n, -0.2, 0.2), true);
    w.list(s, "pos_errors", w.pos(3, 0, 0.01), true); w.list(s, "ang_errors", w.pos(3, 0, 0.01), true);
    if (kind == "smoother") {
      Eigen::VectorXd t(n);
      for (int i = 0; i < n; ++i) {t(i) = 0.1 * i;}
      w.list(s, "times", t, true);
    }
  }
  if (r.u(0, 1) < 0.3) {
    w.list(s, "pos_b_in_l_error", w.pos(3, 0.01, 0.1)); w.list(s, "ang_b_to_l_error", w.pos(3, 0.01, 0.1));
    w.list(s, "pos_e_in_g_error", w.pos(3, 0.1, 10)); w.real(s, "ang_l_to_e_error", r.u(0.01, 0.1));
  }
  w.sub(p, "sim_params", s);
  // the parts
  auto names = [&](const char * stem, int n) {
      std::vector<std::string> a;
      for (int i = 0; i < n; ++i) {a.push_back(std::string(stem) + "_" + std::string(1, static_cast<char>('y' - i)));}
      return a;
    };
  auto imus = names("imu", op.at("imus").get<int>()), cams = names("cam", op.at("cams").get<int>()),
    gpss = names("gps", op.at("gpss").get<int>()), trks = names("trk", op.at("trks").get<int>()),
    fids = names("fid", op.at("fids").get<int>());
  auto group = [&](const char * list, const char * key, const std::vector<std::string> & a, std::function<Map(int)> make) {
      p.y[list] = a; p.j[list] = a;
      Map g;
      for (size_t i = 0; i < a.size(); ++i) {w.sub(g, a[i].c_str(), make(static_cast<int>(i)));}
      w.sub(p, key, g);
    };
  group("imu_list", "imu", imus, [&](int i) {
      Map n, q;
      Sensor(w, n, q, imus[i], std::floor(r.u(20, 60)));
      w.flag(n, "is_extrinsic"); w.flag(n, "is_intrinsic");
      w.list(n, "variance", w.pos(12, 1e-4, 1e-2), true);
      w.list(n, "pos_i_in_b", w.pos(3, -0.5, 0.5)); w.list(n, "ang_i_to_b", w.quat());
      w.list(n, "acc_bias", w.pos(3, -0.1, 0.1)); w.list(n, "omg_bias", w.pos(3, -0.1, 0.1));
      for (const char * k : {"pos_stability", "ang_stability", "acc_bias_stability", "omg_bias_stability"}) {
        w.real(n, k, r.u(1e-9, 1e-3));
      }
      w.list(q, "acc_error", w.pos(3, 1e-3, 1e-2), true); w.list(q, "omg_error", w.pos(3, 1e-3, 1e-2), true);
      for (const char * k : {"pos_error", "ang_error", "acc_bias_error", "omg_bias_error"}) {w.list(q, k, w.pos(3, 0, 1e-2));}
      w.sub(n, "sim_params", q);
      return n;
    });
  group("tracker_list", "tracker", trks, [&](int) {
      Map n, q;
      w.real(n, "pixel_error", r.u(0.2, 4), true);
      w.whole(n, "min_track_length", static_cast<int>(r.u(2, 5)));
      w.whole(n, "max_track_length", static_cast<int>(r.u(5, 30)));
      w.real(n, "min_feat_dist", r.u(0.5, 5));
      w.flag(n, "down_sample"); w.whole(n, "down_sample_height", static_cast<int>(r.u(100, 400)));
      w.whole(n, "down_sample_width", static_cast<int>(r.u(100, 600)));
      w.whole(q, "feature_count", static_cast<int>(r.u(5, 60))); w.real(q, "room_size", r.u(4, 12));
      w.flag(q, "no_errors");
      w.sub(n, "sim_params", q);
      return n;
    });
  group("fiducial_list", "fiducial", fids, [&](int i) {
      Map n, q;
      w.whole(n, "fiducial_type", static_cast<int>(r.u(0, 2)));
      w.whole(n, "squares_x", static_cast<int>(r.u(3, 8)), true); w.whole(n, "squares_y", static_cast<int>(r.u(3, 8)), true);
      w.whole(n, "min_track_length", static_cast<int>(r.u(2, 5)));
      w.whole(n, "max_track_length", static_cast<int>(r.u(5, 40)));
      w.real(n, "square_length", r.u(0.05, 0.2), true); w.real(n, "marker_length", r.u(0.02, 0.04), true);
      w.whole(n, "id", 7 - 2 * i, true);
      w.list(n, "pos_f_in_l", w.pos(3, -4, 4)); w.list(n, "ang_f_to_l", w.quat());
      w.flag(n, "is_extrinsic");
      w.list(n, "variance", w.pos(6, 1e-3, 1e-2), true);
      w.list(q, "pos_error", w.pos(3, 0, 0.1)); w.list(q, "ang_error", w.pos(3, 0, 0.1));
      w.list(q, "t_vec_error", w.pos(3, 1e-3, 1e-2), true); w.list(q, "r_vec_error", w.pos(3, 1e-3, 1e-2), true);
      w.flag(q, "no_errors");
      w.sub(n, "sim_params", q);
      return n;
    });
  bool clones = op.at("pol").get<int>() > 0;   // features need poses to refer to
  group("camera_list", "camera", cams, [&](int i) {
      Map n, q, l;
      Sensor(w, n, q, cams[i], std::floor(r.u(5, 12)));
      w.flag(n, "is_extrinsic");
      w.list(n, "variance", w.pos(6, 1e-4, 1e-2), true);
      w.list(n, "pos_c_in_b", w.pos(3, -0.5, 0.5)); w.list(n, "ang_c_to_b", w.quat());
      w.real(n, "pos_stability", r.u(1e-9, 1e-3)); w.real(n, "ang_stability", r.u(1e-9, 1e-3));
      if (!trks.empty() && clones && r.u(0, 1) < 0.8) {w.text(n, "tracker", trks[static_cast<size_t>(r.u(0, trks.size()))]);}
      if (static_cast<size_t>(i) < fids.size()) {w.text(n, "fiducial", fids[fids.size() - 1 - i]);}
      w.real(l, "f_x", r.u(0.005, 0.02)); w.real(l, "f_y", r.u(0.005, 0.02));
      for (const char * k : {"k_1", "k_2", "p_1", "p_2"}) {w.real(l, k, r.u(-1e-3, 1e-3));}
      w.whole(l, "width", 2 * static_cast<int>(r.u(150, 400))); w.whole(l, "height", 2 * static_cast<int>(r.u(100, 300)));
      w.real(l, "pixel_size", r.u(1e-5, 1e-4));
      if (l.j.size() > 0) {w.sub(n, "intrinsics", l);}
      w.list(q, "pos_error", w.pos(3, 0, 1e-2)); w.list(q, "ang_error", w.pos(3, 0, 1e-2));
      w.sub(n, "sim_params", q);
      return n;
    });
  group("gps_list", "gps", gpss, [&](int i) {
      Map n, q;
      Sensor(w, n, q, gpss[i], std::floor(r.u(4, 15)));
      w.flag(n, "is_extrinsic");
      w.list(n, "variance", w.pos(3, 1e-3, 1e-1), true);
      w.list(n, "pos_a_in_b", w.pos(3, -0.5, 0.5)); w.real(n, "pos_stability", r.u(1e-9, 1e-3));
      w.list(q, "lla_error", w.pos(3, 0.1, 1), true);
      w.list(q, "pos_a_in_b_error", w.pos(3, 0, 0.1)); w.list(q, "pos_e_in_g_error", w.pos(3, 0, 1));
      w.real(q, "ang_l_to_e_error", r.u(0, 0.1));
      w.sub(n, "sim_params", q);
      return n;
    });
  YAML::Node root;
  root["/EkfCalNode"]["ros__parameters"] = p.y;
  std::string dir = ctx.scratch + "/read";
  fs::remove_all(dir);
  fs::create_directories(dir + "/out");
  {
    std::ofstream y(dir + "/config.yaml");
    YAML::Emitter em;
    em.SetDoublePrecision(17);
    em << root;
    y << em.c_str() << "\n";
  }
  const char * sim = std::getenv("EKF_SIMPROBE");
  if (sim == nullptr || !fs::exists(sim)) {std::cerr << "no probe\n"; std::exit(2);}
  std::string cmd = "EKF_PROBE='" + dir + "/probe' timeout 40 '" + std::string(sim) + "' '" + dir + "/config.yaml' '" +
    dir + "/out/' >/dev/null 2>&1";
  int rc = std::system(cmd.c_str());
  e["rc"] = WIFEXITED(rc) ? WEXITSTATUS(rc) : 1000 + WTERMSIG(rc);
  json made = json::array();
  std::ifstream in(dir + "/probe");
  std::string line;
  while (std::getline(in, line)) {made.push_back(json::parse(line));}
  fs::remove_all(dir);
  e["yaml"] = p.j; e["made"] = made;
  ctx.emit(e);
  return true;
}
