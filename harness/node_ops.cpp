// Gives the ROS node (built against rosstub) a random value for (nearly) every parameter, plays
// messages on its topics and records the parameters, what the parts were made with, what was
// played, what reached the sensors and what was published.
#include <sys/wait.h>
#include <cstdlib>
#include <filesystem>
#include <functional>
#include <iostream>
#include "io.hpp"

namespace
{
namespace fs = std::filesystem;
struct Map {json t = json::object(), j = json::object();};   // typed, and as vectors of reals
struct Writer
{
  Rng & r;
  int drop;   // one parameter in drop is left out
  bool skip() {return drop > 0 && r.u(0, drop) < 1.0;}
  void real(Map & m, const char * k, double v) {if (!skip()) {m.t[k] = v; m.j[k] = jr(v);}}
  void whole(Map & m, const char * k, double v) {if (!skip()) {m.t[k] = static_cast<int>(v); m.j[k] = jr(static_cast<int>(v));}}
  void flag(Map & m, const char * k)
  {
    bool b = r.u(0, 1) < 0.5;
    if (!skip()) {m.t[k] = b; m.j[k] = jr(b ? 1.0 : 0.0);}
  }
  void list(Map & m, const char * k, const Eigen::VectorXd & v)
  {
    if (!skip()) {m.t[k] = std::vector<double>(v.data(), v.data() + v.size()); m.j[k] = jv(v);}
  }
  void text(Map & m, const char * k, const std::string & s) {m.t[k] = s; m.j[k] = s;}
  void sub(Map & m, const std::string & k, const Map & s) {m.t[k] = s.t; m.j[k] = s.j;}
  Eigen::VectorXd pos(int n, double lo, double hi)
  {
    Eigen::VectorXd v(n);
    for (int i = 0; i < n; ++i) {v(i) = r.u(lo, hi);}
    return v;
  }
  Eigen::VectorXd quat()
  {
    Eigen::Quaterniond q = r.q(2.0);
    return r.u(0.6, 1.6) * Eigen::Vector4d(q.w(), q.x(), q.y(), q.z());
  }
};
std::vector<double> Cov(Rng & r, double s)
{
  Eigen::MatrixXd m = r.spd(3, s);
  std::vector<double> a;
  for (int i = 0; i < 9; ++i) {a.push_back(m(i / 3, i % 3));}
  return a;
}
json Real(const std::vector<double> & v) {return jv(Eigen::Map<const Eigen::VectorXd>(v.data(), static_cast<int>(v.size())));}
}  // namespace

bool NodeOp(Ctx & ctx, const json & op)
{
  if (op.at("op") != "node") {return false;}
  json e = op;
  Rng r(op.at("seed").get<uint64_t>());
  Writer w{r, op.at("drop").get<int>()};
  std::string dir = ctx.scratch + "/node";
  fs::remove_all(dir);
  fs::create_directories(dir + "/out");
  Map p, noise;
  w.whole(p, "debug_log_level", r.u(0, 4.99));
  w.real(p, "data_log_rate", r.u(5, 40));
  w.text(p, "log_directory", dir + "/out/");
  w.whole(p, "augmenting_type", op.at("pol").get<int>());
  w.real(p, "augmenting_delta_time", r.u(0.05, 2));
  w.real(p, "augmenting_pos_error", r.u(0.01, 1));
  w.real(p, "augmenting_ang_error", r.u(0.01, 1));
  w.list(p, "pos_b_in_l", w.pos(3, -2, 2)); w.list(p, "ang_b_to_l", w.quat());
  w.list(p, "pos_e_in_g", w.pos(3, -80, 80)); w.real(p, "ang_l_to_e", r.u(-3, 3));
  w.whole(p, "gps_init_type", r.u(0, 2.99));
  w.real(p, "gps_init_baseline_dist", r.u(5, 200)); w.real(p, "gps_init_pos_thresh", r.u(0.1, 5));
  w.real(p, "gps_init_ang_thresh", r.u(0.01, 3));
  w.real(p, "motion_detection_chi_squared", r.u(0.1, 5)); w.real(p, "imu_noise_scale_factor", r.u(1, 300));
  w.flag(p, "use_root_covariance"); w.flag(p, "use_first_estimate_jacobian");
  for (const char * k : {"pos", "vel", "acc", "ang_pos", "ang_vel", "ang_acc"}) {w.real(noise, k, r.u(1e-3, 1));}
  w.sub(p, "process_noise", noise);
  bool shared = r.u(0, 1) < 0.2;   // sensors of a kind on one topic
  auto names = [&](const char * stem, int n) {
      std::vector<std::string> a;
      for (int i = 0; i < n; ++i) {a.push_back(std::string(stem) + "_" + std::string(1, static_cast<char>('y' - i)));}
      return a;
    };
  auto imus = names("imu", op.at("imus").get<int>()), cams = names("cam", op.at("cams").get<int>()),
    gpss = names("gps", op.at("gpss").get<int>()), trks = names("trk", op.at("trks").get<int>()),
    fids = names("fid", op.at("fids").get<int>());
  std::map<std::string, std::vector<std::string>> topics;
  auto group = [&](const char * list, const char * key, const std::vector<std::string> & a, std::function<Map(int)> make) {
      p.t[list] = a; p.j[list] = a;
      Map g;
      for (size_t i = 0; i < a.size(); ++i) {w.sub(g, a[i], make(static_cast<int>(i)));}
      w.sub(p, key, g);
    };
  auto sensor = [&](Map & n, const std::string & kind, const std::string & name, double rate) {
      std::string t = "/" + (shared ? kind : name + "/data");
      w.text(n, "topic", t);
      if (topics[kind].empty() || topics[kind].back() != t) {topics[kind].push_back(t);}
      w.real(n, "rate", rate);
      w.real(n, "data_log_rate", r.u(1, 40));
    };
  group("imu_list", "imu", imus, [&](int i) {
      Map n;
      sensor(n, "imu", imus[i], r.u(20, 60));
      w.flag(n, "is_extrinsic"); w.flag(n, "is_intrinsic");
      w.list(n, "variance", w.pos(12, 1e-4, 1e-2));
      w.list(n, "pos_i_in_b", w.pos(3, -0.5, 0.5)); w.list(n, "ang_i_to_b", w.quat());
      w.list(n, "acc_bias", w.pos(3, -0.1, 0.1)); w.list(n, "omg_bias", w.pos(3, -0.1, 0.1));
      for (const char * k : {"pos_stability", "ang_stability", "acc_bias_stability", "omg_bias_stability"}) {
        w.real(n, k, r.u(1e-9, 1e-3));
      }
      return n;
    });
  group("tracker_list", "tracker", trks, [&](int) {
      Map n;
      // SIFT's corners are not for ORB's descriptor, nor the other way around
      bool sift = r.u(0, 1) < 0.4;
      w.whole(n, "descriptor_extractor", sift ? 1 : 0);
      sift = sift && n.t.contains("descriptor_extractor");
      w.whole(n, "descriptor_matcher", sift ? r.u(0, 1.99) : 0);
      static const int S[] = {1, 2, 5}, O[] = {0, 1, 2, 3, 4};
      w.whole(n, "feature_detector", sift ? S[static_cast<int>(r.u(0, 2.99))] : O[static_cast<int>(r.u(0, 4.99))]);
      if (sift && !n.t.contains("feature_detector")) {n.t["feature_detector"] = 1; n.j["feature_detector"] = jr(1.0);}
      w.whole(n, "detector_threshold", r.u(5, 40));
      w.real(n, "pixel_error", r.u(0.2, 4)); w.real(n, "min_feature_distance", r.u(0.5, 5));
      w.whole(n, "min_track_length", r.u(2, 5)); w.whole(n, "max_track_length", r.u(5, 30));
      w.whole(n, "down_sample_height", r.u(100, 400)); w.whole(n, "down_sample_width", r.u(100, 600));
      return n;
    });
  group("fiducial_list", "fiducial", fids, [&](int i) {
      Map n;
      int k = w.drop;
      w.drop = 0;   // a board needs its shape and its id
      w.whole(n, "squares_x", r.u(3, 8)); w.whole(n, "squares_y", r.u(3, 8));
      w.real(n, "square_length", r.u(0.05, 0.2)); w.real(n, "marker_length", r.u(0.02, 0.04));
      w.whole(n, "id", 7 - 2 * i);
      w.drop = k;
      w.whole(n, "fiducial_type", r.u(0, 1.99));
      w.whole(n, "min_track_length", r.u(2, 5)); w.whole(n, "max_track_length", r.u(5, 40));
      w.list(n, "pos_f_in_l", w.pos(3, -4, 4)); w.list(n, "ang_f_to_l", w.quat());
      w.flag(n, "is_extrinsic"); w.list(n, "variance", w.pos(6, 1e-3, 1e-2));
      return n;
    });
  group("camera_list", "camera", cams, [&](int i) {
      Map n, l;
      sensor(n, "cam", cams[i], r.u(5, 12));
      w.flag(n, "is_extrinsic");
      w.list(n, "variance", w.pos(6, 1e-4, 1e-2));
      w.list(n, "pos_c_in_b", w.pos(3, -0.5, 0.5)); w.list(n, "ang_c_to_b", w.quat());
      w.real(n, "pos_stability", r.u(1e-9, 1e-3)); w.real(n, "ang_stability", r.u(1e-9, 1e-3));
      if (!trks.empty() && r.u(0, 1) < 0.7) {w.text(n, "tracker", trks[static_cast<size_t>(r.u(0, trks.size() - 1e-9))]);}
      if (static_cast<size_t>(i) < fids.size()) {w.text(n, "fiducial", fids[fids.size() - 1 - i]);}
      w.real(l, "f_x", r.u(0.005, 0.02)); w.real(l, "f_y", r.u(0.005, 0.02));
      for (const char * k : {"k_1", "k_2", "p_1", "p_2"}) {w.real(l, k, r.u(-1e-3, 1e-3));}
      w.real(l, "width", 2 * static_cast<int>(r.u(150, 400))); w.real(l, "height", 2 * static_cast<int>(r.u(100, 300)));
      w.real(l, "pixel_size", r.u(1e-5, 1e-4));
      w.sub(n, "intrinsics", l);
      return n;
    });
  group("gps_list", "gps", gpss, [&](int i) {
      Map n;
      sensor(n, "gps", gpss[i], r.u(4, 15));
      w.flag(n, "is_extrinsic");
      w.list(n, "variance", w.pos(3, 1e-3, 1e-1));
      w.list(n, "pos_a_in_b", w.pos(3, -0.5, 0.5)); w.real(n, "pos_stability", r.u(1e-9, 1e-3));
      return n;
    });
  // ---- messages
  std::vector<json> play;
  json played = json::array();
  int sec = static_cast<int>(r.u(0, 1) < 0.5 ? r.u(0, 100) : r.u(1.0e9, 1.9e9)), ns = static_cast<int>(r.u(0, 999999999));
  for (int k = 0; k < op.at("msgs").get<int>(); ++k) {
    ns += static_cast<int>(r.u(1e6, 3e8));
    if (ns > 999999999) {ns -= 1000000000; ++sec;}
    double c = r.u(0, 10);
    json m, j;
    std::string kind = c < 4 ? "imu" : c < 6 ? "cam" : c < 8 ? "gps" : c < 9 ? "tick" : "say";
    m["msg"] = kind;
    if (kind == "say") {
      static const char * T[] = {"plain", "100% %s %d", "two words", "", "tab\there", "ends in %"};
      m["cfg"] = static_cast<int>(r.u(0, 4.99)); m["how"] = static_cast<int>(r.u(0, 2.99)); m["set"] = static_cast<int>(r.u(0, 4.99));
      m["lv"] = static_cast<int>(r.u(0, 4.99)); m["txt"] = T[static_cast<int>(r.u(0, 5.99))];
      j = m;
    } else if (kind == "tick") {
      j = m;
    } else {
      auto & ts = topics[kind];
      bool lost = ts.empty() || r.u(0, 1) < 0.05;
      m["topic"] = lost ? std::string("/elsewhere") : ts[static_cast<size_t>(r.u(0, ts.size() - 1e-9))];
      m["sec"] = sec; m["nsec"] = ns;
      j = m;
      auto put = [&](const char * n, const std::vector<double> & v) {m[n] = v; j[n] = Real(v);};
      if (kind == "imu") {
        put("acc", {r.u(-2, 2), r.u(-2, 2), r.u(8, 11)}); put("omg", {r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)});
        put("acc_cov", Cov(r, 0.01)); put("omg_cov", Cov(r, 0.01));
      } else if (kind == "gps") {
        put("lla", {r.u(-80, 80), r.u(-179, 179), r.u(-100, 3000)}); put("cov", Cov(r, 1));
      } else {
        int s = static_cast<int>(r.u(0, 1e6));
        m["seed"] = s; m["w"] = j["w"] = 2 * static_cast<int>(r.u(20, 60)); m["h"] = j["h"] = 2 * static_cast<int>(r.u(20, 60));
      }
    }
    play.push_back(m);
    played.push_back(j);
  }
  {
    std::ofstream(dir + "/params.json") << p.t.dump() << "\n";
    std::ofstream f(dir + "/play");
    for (auto & m : play) {f << m.dump() << "\n";}
  }
  const char * exe = std::getenv("EKF_ROSPROBE");
  if (exe == nullptr || !fs::exists(exe)) {std::cerr << "no node\n"; std::exit(2);}
  std::string cmd = "EKF_PROBE='" + dir + "/probe' ROS_STUB_PARAMS='" + dir + "/params.json' ROS_STUB_PLAY='" + dir +
    "/play' timeout 60 '" + std::string(exe) + "' >'" + dir + "/log' 2>&1";
  int rc = std::system(cmd.c_str());
  e["rc"] = WIFEXITED(rc) ? WEXITSTATUS(rc) : 1000 + WTERMSIG(rc);
  json made = json::array(), got = json::array();
  std::ifstream in(dir + "/probe");
  std::string line;
  int n = 0;   // the message being played
  while (std::getline(in, line)) {
    json x = json::parse(line);
    std::string k = x["kind"];
    if (k == "play") {n = x["n"];
    } else if (k == "got" || k == "pub" || k == "sent" || k == "said") {x["n"] = n; got.push_back(x);
    } else {
      if (x.contains("dir")) {x["dir"] = x["dir"] == dir + "/out/";}
      made.push_back(x);
    }
  }
  if (std::getenv("VERIF_DEBUG") != nullptr && e["rc"] != 0) {std::system(("tail -3 '" + dir + "/log' >&2").c_str());}
  e["shown"] = json::array({0, 0, 0, 0, 0});
  std::ifstream log(dir + "/log");
  static const char * L[] = {"[FATAL]: ", "[ERROR]: ", "[WARN]: ", "[INFO]: ", "[DEBUG]: "};
  while (std::getline(log, line)) {
    for (int i = 0; i < 5; ++i) {if (line.rfind(L[i], 0) == 0) {e["shown"][i] = e["shown"][i].get<int>() + 1;}}
  }
  fs::remove_all(dir);
  e["yaml"] = p.j; e["made"] = made; e["got"] = got; e["played"] = played; e["ended"] = n;
  ctx.emit(e);
  return true;
}
