// Encoding of numbers for the TLA+ trace: a real is the two 32-bit halves of its IEEE
// double, big matrices are base64 of their row-major little-endian doubles.
#pragma once
#include <sys/mman.h>
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <string>
#include <vector>
#include <eigen3/Eigen/Eigen>
#include <nlohmann/json.hpp>

using json = nlohmann::json;

inline void push_real(json & a, double x)
{
  if (x == 0.0) {x = 0.0 * 0.0;}
  uint64_t b;
  std::memcpy(&b, &x, 8);
  a.push_back(static_cast<int32_t>(b >> 32));
  a.push_back(static_cast<int32_t>(b & 0xffffffffu));
}
inline json jr(double x) {json a = json::array(); push_real(a, x); return a;}
template<typename D> json jv(const Eigen::MatrixBase<D> & v)
{
  json a = json::array();
  for (int i = 0; i < v.size(); ++i) {push_real(a, v(i));}
  return a;
}
inline json jq(const Eigen::Quaterniond & q)
{
  json a = json::array();
  push_real(a, q.w()); push_real(a, q.x()); push_real(a, q.y()); push_real(a, q.z());
  return a;
}
inline std::string b64(const std::vector<double> & d)
{
  static const char * T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  const unsigned char * p = reinterpret_cast<const unsigned char *>(d.data());
  size_t n = d.size() * 8;
  std::string s;
  s.reserve(n * 4 / 3 + 4);
  for (size_t i = 0; i < n; i += 3) {
    uint32_t v = p[i] << 16 | (i + 1 < n ? p[i + 1] << 8 : 0) | (i + 2 < n ? p[i + 2] : 0);
    s += T[v >> 18 & 63]; s += T[v >> 12 & 63];
    s += i + 1 < n ? T[v >> 6 & 63] : '=';
    s += i + 2 < n ? T[v & 63] : '=';
  }
  return s;
}
inline json jm(const Eigen::MatrixXd & m)
{
  std::vector<double> d;
  d.reserve(m.size());
  for (int i = 0; i < m.rows(); ++i) {
    for (int j = 0; j < m.cols(); ++j) {d.push_back(m(i, j));}
  }
  return json{{"r", m.rows()}, {"c", m.cols()}, {"d", b64(d)}};
}

// Random values from an operation's seed: the same on every run
struct Rng
{
  std::mt19937_64 g;
  explicit Rng(uint64_t s) : g(s * 0x9E3779B97F4A7C15ull + 12345) {for (int i = 0; i < 4; ++i) {g();}}
  double u(double a, double b) {return a + (b - a) * ((g() >> 11) * (1.0 / 9007199254740992.0));}
  double n()
  {
    double s = 0;
    for (int i = 0; i < 12; ++i) {s += u(0, 1);}
    return s - 6.0;
  }
  Eigen::VectorXd v(int k, double s)
  {
    Eigen::VectorXd o(k);
    for (int i = 0; i < k; ++i) {o(i) = u(-s, s);}
    return o;
  }
  Eigen::Vector3d v3(double s) {return v(3, s);}
  Eigen::Quaterniond q(double max_angle = 3.0)
  {
    Eigen::Vector3d a = v3(1.0);
    if (a.norm() < 1e-3) {a = Eigen::Vector3d(1, 0, 0);}
    a.normalize();
    return Eigen::Quaterniond(Eigen::AngleAxisd(u(0.05, max_angle), a));
  }
  // mountings: some are exactly none, and every orientation has two quaternions
  Eigen::Vector3d m3(double s)
  {
    bool none = u(0, 1) < 0.12;
    Eigen::Vector3d x = v3(s);
    if (none) {x.setZero();}
    return x;
  }
  Eigen::Quaterniond mq(double max_angle)
  {
    double kind = u(0, 1);
    Eigen::Quaterniond x = q(max_angle);
    if (kind < 0.12) {x.setIdentity();}
    if (kind > 0.8) {x.coeffs() *= -1.0;}
    return x;
  }
  double stab() {double x = u(-0.1, 1.0); return x < 0.0 ? 0.0 : x;}
  Eigen::MatrixXd spd(int k, double s)
  {
    Eigen::MatrixXd a(k, k);
    for (int i = 0; i < k; ++i) {for (int j = 0; j < k; ++j) {a(i, j) = u(-1, 1);}}
    Eigen::MatrixXd p = s * (a * a.transpose() / k + 0.2 * Eigen::MatrixXd::Identity(k, k));
    return 0.5 * (p + p.transpose());
  }
};

// Everything written to the standard streams of the process while in scope, by whatever means
struct Capture
{
  int saved[2], file[2];
  std::string text[2];
  bool done{false};
  static void Flush() {std::cout.flush(); std::cerr.flush(); std::clog.flush(); fflush(nullptr);}
  Capture()
  {
    Flush();
    for (int i = 0; i < 2; ++i) {
      saved[i] = dup(i + 1);
      file[i] = memfd_create("capture", 0);
      dup2(file[i], i + 1);
    }
  }
  void Stop()
  {
    if (done) {return;}
    done = true;
    Flush();
    for (int i = 0; i < 2; ++i) {
      dup2(saved[i], i + 1);
      close(saved[i]);
      off_t n = lseek(file[i], 0, SEEK_END);
      text[i].resize(n);
      if (pread(file[i], text[i].data(), n, 0) != n) {text[i] = "unreadable";}
      close(file[i]);
    }
  }
  std::string out() {Stop(); return text[0];}
  std::string err() {Stop(); return text[1];}
  ~Capture() {Stop();}
};

struct Ctx
{
  std::ofstream out;
  std::string scratch;
  long line{0};
  // writes one event of the trace
  void emit(const json & e) {out << e.dump() << "\n"; out.flush(); ++line;}
};

bool FilterOp(Ctx & ctx, const json & op) __attribute__((weak));   // filter_ops.cpp
bool SystemOp(Ctx & ctx, const json & op) __attribute__((weak));   // system_ops.cpp: sensors, trackers, simulation
bool ProgramOp(Ctx & ctx, const json & op) __attribute__((weak));  // program_ops.cpp: the sim program
bool ReadOp(Ctx & ctx, const json & op) __attribute__((weak));     // read_ops.cpp: what the program reads
bool NodeOp(Ctx & ctx, const json & op) __attribute__((weak));     // node_ops.cpp: the ROS node
bool VisionOp(Ctx & ctx, const json & op) __attribute__((weak));   // vision_ops.cpp: images
bool BoardOp(Ctx & ctx, const json & op) __attribute__((weak));    // board_ops.cpp: images of boards
bool MiscOp(Ctx & ctx, const json & op) __attribute__((weak));     // misc_ops.cpp: loggers, math, conversions
