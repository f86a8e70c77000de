// Operations on the loggers, the linear-algebra helpers and the frame conversions.
#include <iostream>
#include <sstream>
#include <sys/stat.h>
#include <opencv2/opencv.hpp>
#include "io.hpp"
#include "infrastructure/data_logger.hpp"
#include "infrastructure/debug_logger.hpp"
#include "utility/gps_helper.hpp"
#include "utility/math_helper.hpp"
#include "utility/string_helper.hpp"
#include "utility/type_helper.hpp"

namespace
{
// ---- loggers
struct FileLog
{
  std::unique_ptr<DataLogger> log;
  std::string dir, file;
};
std::map<int, FileLog> g_logs;
std::unique_ptr<DebugLogger> g_debug;
long g_session{0};

json file_lines(const std::string & path)
{
  std::ifstream in(path);
  json a = json::array();
  std::string l;
  while (std::getline(in, l)) {a.push_back(l);}
  return a;
}
bool exists(const std::string & p) {struct stat s; return stat(p.c_str(), &s) == 0;}

// Redirects cout and cerr while in scope

// A Jacobian of a given shape of degeneracy
Eigen::MatrixXd Jac(Rng & r, int m, int n, int kind)
{
  Eigen::MatrixXd a(m, n);
  for (int i = 0; i < m; ++i) {for (int j = 0; j < n; ++j) {a(i, j) = r.u(-1, 1);}}
  auto row = [&]() {return static_cast<int>(r.u(0, m - 1e-9));};
  auto col = [&]() {return static_cast<int>(r.u(0, n - 1e-9));};
  switch (kind) {
    case 1: a.row(row()).setZero(); break;
    case 2: if (n > 0) {a.col(col()).setZero();} break;
    case 3: a.row(0).setZero(); a.row(m - 1).setZero(); break;
    case 4: if (n > 0) {a.col(0).setZero(); a.col(n - 1).setZero();} break;
    case 5: if (n > 1) {a.col(n - 1) = 2.0 * a.col(0);} break;
    case 6: a *= 1e5; break;
    case 7: a *= 1e-3; break;
    case 8: a.setZero(); break;
    case 9: for (int j = 0; j < n; ++j) {if (r.u(0, 1) < 0.5) {a.col(j).setZero();}} break;
    case 10: for (int i = 0; i < m; ++i) {if (r.u(0, 1) < 0.5) {a.row(i).setZero();}} break;
    case 11: for (int i = 0; i < m; ++i) {for (int j = 0; j < n; ++j) {if (r.u(0, 1) < 0.7) {a(i, j) = 0;}}} break;
    case 12: for (int j = 0; j < n; ++j) {a.col(j) *= std::pow(10.0, r.u(-2, 3));} break;
    default: break;
  }
  return a;
}
Eigen::Vector3d Axis(Rng & r, int k)
{
  Eigen::Vector3d a = r.v3(1.0);
  if (k >= 1 && k <= 6) {
    a.setZero();
    a((k - 1) % 3) = k <= 3 ? 1.0 : -1.0;
  }
  if (a.norm() < 1e-3) {a = Eigen::Vector3d(0, 1, 0);}
  return a.normalized();
}
json jc(const cv::Vec3d & v) {return jv(Eigen::Vector3d(v[0], v[1], v[2]));}
}  // namespace

bool MiscOp(Ctx & ctx, const json & op)
{
  const std::string k = op["op"];
  json e = op;
  if (k == "session") {
    g_logs.clear();
    g_debug.reset();
    ++g_session;
    ctx.emit(e);
    return true;
  }
  // ---------------------------------------------------------------- data log
  if (k == "dnew") {
    FileLog f;
    f.dir = ctx.scratch + "/";
    f.file = "data" + std::to_string(g_session) + "_" + std::to_string(op["id"].get<int>()) + ".csv";
    double rate = op["rate"].get<int>() / 4.0;
    switch (op["how"].get<int>()) {
      case 0:
        f.log = std::make_unique<DataLogger>();
        f.log->SetOutputDirectory(f.dir);
        f.log->SetOutputFileName(f.file);
        f.log->SetLogRate(rate);
        break;
      case 1:
        f.log = std::make_unique<DataLogger>(f.dir, f.file);
        f.log->SetLogRate(rate);
        break;
      default:
        f.log = std::make_unique<DataLogger>(f.dir, f.file, rate);
    }
    if (op["hdr"].get<std::string>() != "") {f.log->DefineHeader(op["hdr"].get<std::string>());}
    g_logs[op["id"].get<int>()] = std::move(f);
  } else if (k == "don") {
    g_logs.at(op["id"].get<int>()).log->EnableLogging();
  } else if (k == "drate") {
    g_logs.at(op["id"].get<int>()).log->SetLogRate(op["rate"].get<int>() / 4.0);
  } else if (k == "dhdr") {
    g_logs.at(op["id"].get<int>()).log->DefineHeader(op["hdr"].get<std::string>());
  } else if (k == "dlog") {
    g_logs.at(op["id"].get<int>()).log->Log(op["row"].get<std::string>());
  } else if (k == "drl") {
    g_logs.at(op["id"].get<int>()).log->RateLimitedLog(op["row"].get<std::string>(), op["t"].get<int>() / 8.0);
  } else if (k == "gnew") {
    if (op["how"].get<int>() == 0) {
      g_debug = std::make_unique<DebugLogger>(static_cast<LogLevel>(op["lv"].get<int>()), ctx.scratch + "/");
    } else {
      g_debug = std::make_unique<DebugLogger>(static_cast<unsigned int>(op["lv"].get<int>()), ctx.scratch + "/");
    }
  } else if (k == "gset") {
    Capture c;
    if (op["how"].get<int>() == 0) {
      g_debug->SetLogLevel(static_cast<LogLevel>(op["lv"].get<int>()));
    } else {
      g_debug->SetLogLevel(static_cast<unsigned int>(op["lv"].get<int>()));
    }
    e["out"] = c.out();
    e["err"] = c.err();
  } else if (k == "gmsg") {
    Capture c;
    g_debug->Log(static_cast<LogLevel>(op["lv"].get<int>()), op["txt"].get<std::string>());
    e["out"] = c.out();
    e["err"] = c.err();
  } else if (k == "null") {
    // ---------------------------------------------------------------- linear algebra
    Rng r(op["seed"].get<int>());
    int m = op["m"], f = op["f"], n = op["n"];
    Eigen::MatrixXd hf = Jac(r, m, f, op["kf"]);
    Eigen::MatrixXd hx = n == 0 ? Eigen::MatrixXd(Eigen::MatrixXd::Identity(m, m)) : Jac(r, m, n, op["kx"]);
    Eigen::VectorXd res = r.v(m, 2.0);
    e["Hf"] = jm(hf); e["Hx"] = jm(hx); e["res"] = jv(res);
    ApplyLeftNullspace(hf, hx, res);
    e["oH"] = jm(hx); e["ores"] = jv(res); e["olen"] = res.size();
  } else if (k == "compress") {
    Rng r(op["seed"].get<int>());
    Eigen::MatrixXd h = Jac(r, op["m"], op["n"], op["kx"]);
    Eigen::VectorXd res = r.v(op["m"], 2.0);
    e["H"] = jm(h); e["res"] = jv(res);
    CompressMeasurements(h, res);
    e["oH"] = jm(h); e["ores"] = jv(res); e["olen"] = res.size();
  } else if (k == "blocks") {
    // insertion into and removal from a matrix, stacking to a triangular root
    Rng r(op["seed"].get<int>());
    int n = op["n"], m = op["m"], at = op["at"];
    Eigen::MatrixXd a = Jac(r, n, n, 0), b = Jac(r, m, m, 0);
    e["A"] = jm(a); e["B"] = jm(b);
    Eigen::MatrixXd in = InsertInMatrix(b, a, at, at);
    e["ins"] = jm(in);
    e["rem"] = jm(RemoveFromMatrix(in, at, at, m));
    Eigen::MatrixXd c = Jac(r, op["k"], n, 0);
    e["C"] = jm(c);
    e["qr"] = jm(QR_r(a, c));
    Eigen::VectorXd v = r.v(n, 1.0);
    e["v"] = jv(v);
    MinBoundVector(v, 0.25);
    e["mb"] = jv(v);
  } else if (k == "geo") {
    // ---------------------------------------------------------------- frames
    Rng r(op["seed"].get<int>());
    Eigen::Vector3d ref(op["lat"].get<int>() * 1e-6, op["lon"].get<int>() * 1e-6, op["alt"].get<int>());
    Eigen::Vector3d off(op["e"].get<int>(), op["n"].get<int>(), op["u"].get<int>());
    off += r.v3(0.5);
    double ang = op["h"].get<int>() * 1e-3;
    e["ref"] = jv(ref); e["off"] = jv(off); e["ang"] = jr(ang);
    Capture c;
    e["ecef"] = jv(lla_to_ecef(ref));
    e["back"] = jv(ecef_to_lla(lla_to_ecef(ref)));
    Eigen::Vector3d pe = enu_to_ecef(off, ref);
    e["pe"] = jv(pe);
    e["enu"] = jv(ecef_to_enu(pe, ref));
    Eigen::Vector3d pl = enu_to_lla(off, ref);
    e["pl"] = jv(pl);
    e["ple"] = jv(lla_to_ecef(pl));
    e["enu2"] = jv(lla_to_enu(pl, ref));
    e["loc"] = jv(enu_to_local(off, ang));
    e["env"] = jv(local_to_enu(off, ang));
    e["rt"] = jv(local_to_enu(enu_to_local(off, ang), ang));
    e["deg"] = jr(wgs84_m_to_deg(off(0)));
    e["out"] = c.out();
  } else if (k == "rot") {
    Rng r(op["seed"].get<int>());
    static const double A[] = {0, 1e-12, 1e-10, 1e-8, 1e-6, 1e-4, 1e-2, 0.5, M_PI / 2, 2.0, 3.0,
      M_PI - 1e-2, M_PI - 1e-4, M_PI - 1e-6, M_PI};
    int ka = op["a"];
    double a = ka < 15 ? A[ka] : r.u(0, M_PI);
    Eigen::Vector3d v = a * Axis(r, op["x"]);
    Eigen::Quaterniond q(Eigen::AngleAxisd(a, a > 0 ? Eigen::Vector3d(v / a) : Eigen::Vector3d(1, 0, 0)));
    if (op["neg"].get<int>()) {q.coeffs() = -q.coeffs();}
    e["v"] = jv(v); e["q"] = jq(q); e["ang"] = jr(a);
    e["vq"] = jq(RotVecToQuat(v));
    e["qv"] = jv(QuatToRotVec(q));
    cv::Vec3d rod = QuatToRodrigues(q);
    e["rod"] = jc(rod);
    cv::Vec3d vin(v(0), v(1), v(2));
    e["rodq"] = jq(RodriguesToQuat(vin));
    e["cve"] = jv(CvVectorToEigen(vin));
    double s = r.u(0.1, 5.0);
    std::vector<double> four{s * q.w(), s * q.x(), s * q.y(), s * q.z()};
    e["sq"] = jq(StdToEigQuat(four));
    four.pop_back();
    e["s3"] = jq(StdToEigQuat(four));
    std::vector<double> any(op["len"].get<int>());
    for (auto & x : any) {x = r.u(-2, 2);}
    e["sv"] = jv(Eigen::Map<Eigen::VectorXd>(any.data(), any.size()));
    e["svo"] = jv(StdToEigVec(any));
    Eigen::Vector3d eul(r.u(-3, 3), r.u(-1.5, 1.5), r.u(-3, 3));
    e["eul"] = jv(eul); e["eq"] = jq(EigVecToQuat(eul));
    e["jac"] = jm(QuaternionJacobian(q));
    e["skew"] = jm(SkewSymmetric(v));
  } else {
    return false;
  }
  if (k[0] == 'd') {
    const FileLog & f = g_logs.at(op["id"].get<int>());
    e["made"] = exists(f.dir + f.file);
    e["file"] = file_lines(f.dir + f.file);
  }
  ctx.emit(e);
  return true;
}
