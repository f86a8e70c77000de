// Runs the simulation program on configurations and records the files it writes.
#include <sys/wait.h>
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <yaml-cpp/yaml.h>

#include "io.hpp"

namespace
{
namespace fs = std::filesystem;
constexpr int kLimit = 40;     // seconds for one run of the program

std::vector<std::string> Fields(const std::string & s)
{
  std::vector<std::string> f;
  std::stringstream in(s);
  std::string x;
  while (std::getline(in, x, ',')) {f.push_back(x);}
  return f;
}
double Number(const std::string & s)
{
  char * end = nullptr;
  double x = std::strtod(s.c_str(), &end);
  return end == s.c_str() || *end ? std::nan("") : x;
}
// One file: its columns, the first column of every row, and at most keep whole rows
json File(const fs::path & p, size_t keep)
{
  std::ifstream in(p);
  std::string line;
  std::getline(in, line);
  auto cols = Fields(line);
  std::vector<std::vector<std::string>> rows;
  int bad = 0;
  while (std::getline(in, line)) {
    auto f = Fields(line);
    if (f.size() != cols.size()) {++bad;} else {rows.push_back(f);}
  }
  std::vector<size_t> take;
  for (size_t k = 0; k < std::min(keep, rows.size()); ++k) {
    take.push_back(rows.size() <= keep ? k : k * (rows.size() - 1) / (keep - 1));
  }
  json at = json::object();
  for (size_t c = 0; c < cols.size(); ++c) {
    // how long a step took is not a result
    Eigen::VectorXd v(take.size());
    for (size_t k = 0; k < take.size(); ++k) {
      v(k) = cols[c].rfind("duration", 0) == 0 ? 0.0 : Number(rows[take[k]][c]);
    }
    at[cols[c]] = jv(v);
  }
  Eigen::VectorXd first(rows.size());
  bool all = true;
  for (size_t k = 0; k < rows.size(); ++k) {
    first(k) = Number(rows[k][0]);
    for (auto & x : rows[k]) {all = all && std::isfinite(Number(x));}
  }
  return json{{"f", p.filename().string()}, {"cols", cols}, {"n", rows.size() + bad}, {"bad", bad},
    {"finite", all}, {"first", jv(first)}, {"k", take.size()}, {"c", at}};
}
int Execute(const std::string & config, const std::string & out)
{
  const char * sim = std::getenv("EKF_SIM");
  std::string cmd = "timeout " + std::to_string(kLimit) + " '" + std::string(sim ? sim : "sim") + "' '" +
    config + "' '" + out + "/' >/dev/null 2>&1";
  int rc = std::system(cmd.c_str());
  return WIFEXITED(rc) ? WEXITSTATUS(rc) : 1000 + WTERMSIG(rc);
}
json Files(const std::string & out)
{
  std::vector<fs::path> ps;
  for (auto & d : fs::directory_iterator(out)) {
    if (d.path().extension() == ".csv") {ps.push_back(d.path());}
  }
  std::sort(ps.begin(), ps.end());
  json fs_ = json::array();
  for (auto & p : ps) {fs_.push_back(File(p, 40));}
  return fs_;
}
json Once(const std::string & scratch, const YAML::Node & root, const std::string & tag)
{
  std::string dir = scratch + "/prog_" + tag;
  fs::remove_all(dir);
  fs::create_directories(dir + "/out");
  {
    std::ofstream y(dir + "/config.yaml");
    YAML::Emitter em;
    em.SetDoublePrecision(17);
    em << root;
    y << em.c_str() << "\n";
  }
  json r;
  r["rc"] = Execute(dir + "/config.yaml", dir + "/out");
  r["files"] = Files(dir + "/out");
  fs::remove_all(dir);
  return r;
}
YAML::Node Params(YAML::Node & root) {return root["/EkfCalNode"]["ros__parameters"];}

// A configuration of the project, shortened
YAML::Node Shipped(const json & op)
{
  const char * cfg = std::getenv("EKF_CONFIG");
  YAML::Node root = YAML::LoadFile(std::string(cfg ? cfg : "config") + "/" + op.at("name").get<std::string>() + ".yaml");
  YAML::Node p = Params(root);
  p["sim_params"]["max_time"] = op.at("dur").get<double>() / 8;
  p["sim_params"]["seed"] = op.at("seed").get<int>() % 1000 + 1;
  p["use_root_covariance"] = op.at("root").get<int>() == 1;
  if (op.at("pol").get<int>() > 0) {p["augmenting_type"] = op.at("pol").get<int>();}
  for (auto t : p["tracker"]) {t.second["sim_params"]["feature_count"] = 60;}
  return root;
}
std::vector<double> V(const Eigen::VectorXd & v) {return {v.data(), v.data() + v.size()};}
std::vector<double> Q(const Eigen::Quaterniond & q) {return {q.w(), q.x(), q.y(), q.z()};}

// A configuration drawn from the operation; e.cfg says what it asks for
YAML::Node Made(const json & op, json & e)
{
  Rng r(op.at("seed").get<uint64_t>());
  bool exact = op.at("exact").get<bool>();
  YAML::Node root;
  YAML::Node p;
  double dur = op.at("dur").get<double>() / 8;
  double log = op.at("log").get<double>();
  int pol = op.at("pol").get<int>();
  bool feats = op.at("feats").get<int>() > 0 && pol > 0;
  Eigen::Vector3d pf = Eigen::Vector3d(r.u(0.1, 0.4), r.u(0.1, 0.4), r.u(0.1, 0.4));
  Eigen::Vector3d af = Eigen::Vector3d(r.u(0.1, 0.4), r.u(0.1, 0.4), r.u(0.1, 0.4));
  Eigen::Vector3d po = r.v3(2.0), ao = Eigen::Vector3d::Zero();
  double pa = r.u(0.5, 2.0), aa = r.u(0.05, 0.3), still = r.u(0.1, 0.6);
  Eigen::Vector3d ref(r.u(-60, 60), r.u(-170, 170), r.u(0, 500));
  double heading = r.u(-3, 3);
  p["debug_log_level"] = 0;
  p["data_log_rate"] = log;
  p["augmenting_type"] = pol;
  p["augmenting_delta_time"] = 0.2;
  p["use_root_covariance"] = op.at("root").get<int>() == 1;
  p["use_first_estimate_jacobian"] = op.at("fej").get<int>() == 1;
  p["pos_b_in_l"] = V(po);
  p["ang_b_to_l"] = Q(Eigen::Quaterniond::Identity());
  p["pos_e_in_g"] = V(ref);
  p["ang_l_to_e"] = heading;
  p["gps_init_type"] = 0;
  for (const char * k : {"pos", "vel", "acc", "ang_pos", "ang_vel", "ang_acc"}) {p["process_noise"][k] = 1e-2;}
  p["motion_detection_chi_squared"] = 1.0;
  p["imu_noise_scale_factor"] = 100.0;
  YAML::Node s = p["sim_params"];
  s["seed"] = op.at("seed").get<int>() % 1000 + 1;
  s["max_time"] = dur;
  s["truth_type"] = "cyclic";
  s["stationary_time"] = still;
  s["pos_frequency"] = V(pf); s["ang_frequency"] = V(af);
  s["pos_offset"] = V(po); s["ang_offset"] = V(ao);
  s["pos_amplitude"] = pa; s["ang_amplitude"] = aa;
  p["imu_list"] = std::vector<std::string>(); p["camera_list"] = std::vector<std::string>();
  p["tracker_list"] = std::vector<std::string>(); p["fiducial_list"] = std::vector<std::string>();
  p["gps_list"] = std::vector<std::string>();
  double err = 1.0;   // a filter needs measurement noise to expect, even when none occurs
  json sensors = json::array();
  int imus = op.at("imus").get<int>(), cams = op.at("cams").get<int>(), gpss = op.at("gpss").get<int>();
  for (int i = 0; i < imus; ++i) {
    std::string name = "imu_" + std::string(1, static_cast<char>('z' - i));
    p["imu_list"].push_back(name);
    YAML::Node n = p["imu"][name];
    bool ext = i > 0 && r.u(0, 1) < 0.6, in = r.u(0, 1) < 0.4;
    Eigen::Vector3d pos = r.v3(0.3), ba = exact ? Eigen::Vector3d(0, 0, 0) : r.v3(0.02), bg = exact ? Eigen::Vector3d(0, 0, 0) : r.v3(0.01);
    Eigen::Quaterniond q = r.q(0.8);
    double lr = r.u(0, 1) < 0.8 ? r.u(5, 40) : 0.0, rate = std::floor(r.u(200, 400));
    n["is_extrinsic"] = ext; n["is_intrinsic"] = in; n["rate"] = rate; n["topic"] = "/" + name; n["data_log_rate"] = lr;
    n["variance"] = std::vector<double>(12, 1e-4);
    n["pos_i_in_b"] = V(pos); n["ang_i_to_b"] = Q(q); n["acc_bias"] = V(ba); n["omg_bias"] = V(bg);
    n["sim_params"]["no_errors"] = exact;
    n["sim_params"]["acc_error"] = std::vector<double>(3, 1e-2 * err);
    n["sim_params"]["omg_error"] = std::vector<double>(3, 1e-3 * err);
    sensors.push_back(json{{"k", "imu"}, {"ext", ext}, {"int", in}, {"p", jv(pos)}, {"q", jq(q)}, {"ba", jv(ba)},
        {"bg", jv(bg)}, {"log", jr(lr)}, {"rate", jr(rate)}, {"fid", 0}, {"feat", false}, {"fext", false}});
  }
  if (feats) {
    p["tracker_list"].push_back("trk");
    p["tracker"]["trk"]["pixel_error"] = 1.0;
    p["tracker"]["trk"]["min_track_length"] = 2;
    p["tracker"]["trk"]["max_track_length"] = 5;
    p["tracker"]["trk"]["sim_params"]["feature_count"] = 60;
    p["tracker"]["trk"]["sim_params"]["room_size"] = 8.0;
    p["tracker"]["trk"]["sim_params"]["no_errors"] = exact;
  }
  json boards = json::array();
  for (int i = 0; i < cams; ++i) {
    std::string name = "cam_" + std::string(1, static_cast<char>('z' - i));
    p["camera_list"].push_back(name);
    YAML::Node n = p["camera"][name];
    bool ext = r.u(0, 1) < 0.5, fext = false;
    Eigen::Vector3d pos = r.v3(0.3);
    Eigen::Quaterniond q = r.q(0.8);
    double lr = r.u(0, 1) < 0.8 ? r.u(2, 20) : 0.0, rate = std::floor(r.u(4, 12));
    bool feat = feats && r.u(0, 1) < 0.8;
    int fid = 0;
    n["is_extrinsic"] = ext; n["rate"] = rate; n["topic"] = "/" + name; n["data_log_rate"] = lr;
    n["variance"] = std::vector<double>(6, 1e-4);
    n["pos_c_in_b"] = V(pos); n["ang_c_to_b"] = Q(q);
    n["sim_params"]["no_errors"] = exact;
    if (feat) {n["tracker"] = "trk";}
    if (op.at("boards").get<int>() > i) {
      fid = 3 - i;
      std::string b = "board_" + std::to_string(fid);
      p["fiducial_list"].push_back(b);
      YAML::Node f = p["fiducial"][b];
      Eigen::Vector3d fp = po + r.v3(4.0);
      Eigen::Quaterniond fq = r.q();
      fext = r.u(0, 1) < 0.4;
      f["fiducial_type"] = 1; f["squares_x"] = 5; f["squares_y"] = 7; f["square_length"] = 0.1; f["marker_length"] = 0.06;
      f["id"] = fid; f["pos_f_in_l"] = V(fp); f["ang_f_to_l"] = Q(fq); f["is_extrinsic"] = fext;
      f["variance"] = std::vector<double>(6, 1e-2);
      f["sim_params"]["no_errors"] = exact;
      f["sim_params"]["t_vec_error"] = std::vector<double>(3, 1e-2 * err);
      f["sim_params"]["r_vec_error"] = std::vector<double>(3, 1e-2 * err);
      n["fiducial"] = b;
      boards.push_back(json{{"id", fid}, {"p", jv(fp)}, {"q", jq(fq)}, {"ext", fext}});
    }
    sensors.push_back(json{{"k", "cam"}, {"ext", ext}, {"int", false}, {"p", jv(pos)}, {"q", jq(q)}, {"log", jr(lr)},
        {"rate", jr(rate)}, {"fid", fid}, {"feat", feat}, {"fext", fext}});
  }
  for (int i = 0; i < gpss; ++i) {
    std::string name = "gps_" + std::string(1, static_cast<char>('z' - i));
    p["gps_list"].push_back(name);
    YAML::Node n = p["gps"][name];
    bool ext = r.u(0, 1) < 0.5;
    Eigen::Vector3d pos = r.v3(0.3);
    double lr = r.u(0, 1) < 0.8 ? r.u(1, 20) : 0.0, rate = std::floor(r.u(2, 10));
    n["is_extrinsic"] = ext; n["rate"] = rate; n["topic"] = "/" + name; n["data_log_rate"] = lr;
    n["variance"] = std::vector<double>(3, 1e-2);
    n["pos_a_in_b"] = V(pos);
    n["sim_params"]["no_errors"] = exact;
    n["sim_params"]["lla_error"] = std::vector<double>(3, 0.1 * err);
    sensors.push_back(json{{"k", "gps"}, {"ext", ext}, {"int", false}, {"p", jv(pos)}, {"log", jr(lr)}, {"rate", jr(rate)},
        {"fid", 0}, {"feat", false}, {"fext", false}});
  }
  root["/EkfCalNode"]["ros__parameters"] = p;
  e["cfg"] = json{{"pa", jr(pa)}, {"aa", jr(aa)}, {"pf", jv(pf)}, {"af", jv(af)}, {"po", jv(po)}, {"ao", jv(ao)},
    {"stat", jr(still)}, {"max", jr(dur)}, {"log", jr(log)}, {"ref", jv(ref)}, {"head", jr(heading)},
    {"pol", feats ? pol : 0}, {"exact", exact}, {"sensors", sensors}, {"boards", boards}};
  return root;
}
}  // namespace

bool ProgramOp(Ctx & ctx, const json & op)
{
  if (op.at("op") != "program") {return false;}
  json e = op;
  YAML::Node root = op.at("kind") == "shipped" ? Shipped(op) : Made(op, e);
  e["a"] = Once(ctx.scratch, root, "a");
  if (op.at("again").get<int>() == 1) {e["b"] = Once(ctx.scratch, root, "b");}
  ctx.emit(e);
  return true;
}
