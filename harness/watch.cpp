#include "watch.hpp"
#include "ekf/update/fiducial_updater.hpp"
#include "ekf/update/msckf_updater.hpp"

namespace
{
std::vector<Call> g_calls;
bool g_pass{true};
}
#define MSCKF "_ZN12MsckfUpdater9UpdateEKFER3EKFdRKSt6vectorI12FeatureTrackSaIS3_EEd"
#define BOARD "_ZN15FiducialUpdater9UpdateEKFER3EKFdRK14BoardDetection"
void RealMsckf(MsckfUpdater *, EKF &, double, const FeatureTracks &, double) asm ("__real_" MSCKF) __attribute__((weak));
void RealBoard(FiducialUpdater *, EKF &, double, const BoardDetection &) asm ("__real_" BOARD) __attribute__((weak));
void SeenMsckf(MsckfUpdater * u, EKF & ekf, double time, const FeatureTracks & tracks, double px) asm ("__wrap_" MSCKF);
void SeenBoard(FiducialUpdater * u, EKF & ekf, double time, const BoardDetection & d) asm ("__wrap_" BOARD);
void SeenMsckf(MsckfUpdater * u, EKF & ekf, double time, const FeatureTracks & tracks, double px)
{
  Call c;
  c.kind = 'm'; c.ekf = &ekf; c.who = u; c.time = time; c.tracks = tracks; c.px = px;
  g_calls.push_back(c);
  if (g_pass) {RealMsckf(u, ekf, time, tracks, px);}
}
void SeenBoard(FiducialUpdater * u, EKF & ekf, double time, const BoardDetection & d)
{
  Call c;
  c.kind = 'f'; c.ekf = &ekf; c.who = u; c.time = time; c.board = d;
  g_calls.push_back(c);
  if (g_pass) {RealBoard(u, ekf, time, d);}
}
bool Watching() {return RealMsckf != nullptr && RealBoard != nullptr;}
std::vector<Call> TakeCalls()
{
  auto c = g_calls;
  g_calls.clear();
  return c;
}
void PassOn(bool on) {g_pass = on;}

namespace {Matching g_match;}
#define KNN "_ZNK2cv17DescriptorMatcher8knnMatchERKNS_11_InputArrayES3_RSt6vectorIS4_INS_6DMatchESaIS5_EESaIS7_EEiS3_b"
#define FUND "_ZN2cv18findFundamentalMatERKNS_11_InputArrayES2_iddRKNS_12_OutputArrayE"
using Lists = std::vector<std::vector<cv::DMatch>>;
void RealKnn(const cv::DescriptorMatcher *, cv::InputArray, cv::InputArray, Lists &, int, cv::InputArray, bool)
asm ("__real_" KNN) __attribute__((weak));
cv::Mat RealFund(cv::InputArray, cv::InputArray, int, double, double, cv::OutputArray)
asm ("__real_" FUND) __attribute__((weak));
void SeenKnn(const cv::DescriptorMatcher *, cv::InputArray, cv::InputArray, Lists &, int, cv::InputArray, bool)
asm ("__wrap_" KNN);
cv::Mat SeenFund(cv::InputArray, cv::InputArray, int, double, double, cv::OutputArray) asm ("__wrap_" FUND);
void SeenKnn(
  const cv::DescriptorMatcher * m, cv::InputArray q, cv::InputArray t, Lists & out, int k, cv::InputArray mask, bool c)
{
  RealKnn(m, q, t, out, k, mask, c);
  ++g_match.asked;
  g_match.lists.push_back(out);
}
cv::Mat SeenFund(cv::InputArray a, cv::InputArray b, int how, double far, double sure, cv::OutputArray mask)
{
  cv::Mat f = RealFund(a, b, how, far, sure, mask);
  std::vector<cv::Point2f> p, q;
  a.getMat().reshape(2).copyTo(p);
  b.getMat().reshape(2).copyTo(q);
  std::vector<uint8_t> in;
  if (mask.needed()) {
    cv::Mat m = mask.getMat();
    for (size_t i = 0; i < m.total(); ++i) {in.push_back(m.at<uint8_t>(static_cast<int>(i)));}
  }
  in.resize(p.size(), 0);
  g_match.from.push_back(p);
  g_match.to.push_back(q);
  g_match.inlier.push_back(in);
  return f;
}
bool WatchingMatches() {return RealKnn != nullptr && RealFund != nullptr;}
Matching TakeMatching()
{
  auto m = g_match;
  g_match = Matching();
  return m;
}
