// The real feature tracker on rendered images: a window moving over a textured canvas.
#include <opencv2/opencv.hpp>
#include "ekf/ekf.hpp"
#include "infrastructure/debug_logger.hpp"
#include "sensors/camera.hpp"
#include "trackers/feature_tracker.hpp"
#include "io.hpp"
#include "watch.hpp"

namespace
{
constexpr double kTick = 1.0 / 1024.0;
struct Scene
{
  std::shared_ptr<DebugLogger> lg;
  std::shared_ptr<EKF> ekf;
  std::shared_ptr<Camera> cam;
  std::shared_ptr<FeatureTracker> trk;
  FeatureTracker::Parameters par;
  cv::Mat canvas;
  int w{0}, h{0}, zoom{1}, noise{0};
  std::vector<std::pair<int, int>> prev;   // canvas positions of the last frame's key points
};
Scene V;

cv::Mat Canvas(int size, int grain, Rng & r)
{
  cv::Mat m(size, size, CV_8UC1, cv::Scalar(128));
  int n = size * size / grain;
  for (int i = 0; i < n; ++i) {
    int a = static_cast<int>(r.u(5, 24)), b = static_cast<int>(r.u(5, 24));
    cv::Rect q(static_cast<int>(r.u(-10, size)), static_cast<int>(r.u(-10, size)), a, b);
    cv::rectangle(m, q, cv::Scalar(static_cast<int>(r.u(0, 256))), cv::FILLED);
  }
  return m;
}

void Grain(cv::Mat & m, int amount, Rng & r)
{
  for (int y = 0; y < m.rows; ++y) {
    for (int x = 0; x < m.cols; ++x) {
      int v = m.at<uint8_t>(y, x) + static_cast<int>(std::lround(r.u(-amount, amount)));
      m.at<uint8_t>(y, x) = static_cast<uint8_t>(std::max(0, std::min(255, v)));
    }
  }
}

// The key points the tracker starts from, found with the library it uses
std::vector<cv::KeyPoint> KeyPoints(const cv::Mat & img)
{
  std::vector<cv::KeyPoint> k;
  switch (V.par.detector) {
    case Detector::FAST: cv::FastFeatureDetector::create(V.par.threshold, true)->detect(img, k); break;
    case Detector::GFTT: cv::GFTTDetector::create()->detect(img, k); break;
    case Detector::ORB:
      cv::ORB::create(1000, 1.2, 8, 31, 0, 2, cv::ORB::HARRIS_SCORE, 31, V.par.threshold)->detect(img, k);
      break;
    case Detector::BRISK: cv::BRISK::create(V.par.threshold, 3, 1)->detect(img, k); break;
    case Detector::SIFT: cv::SIFT::create()->detect(img, k); break;
    case Detector::MSER: cv::MSER::create()->detect(img, k); break;
  }
  k = FeatureTracker::GridFeatures(k, img.rows, img.cols);
  cv::KeyPointsFilter::runByImageBorder(k, img.size(), 31);
  return k;
}

// The neighbors asked for ([closest, thousandths of the distance ratio] for each feature with
// two of them, -1 otherwise) and the pairs of points (eighths of a pixel of the image the
// features were found in) tried by the geometric test, with their distance over the mean
// distance of those accepted, in 10^-5.
json Matches()
{
  auto m = TakeMatching();
  json a = json::array(), b = json::array();
  for (auto & l : m.lists) {
    json jl = json::array();
    for (auto & q : l) {
      if (q.size() != 2) {
        jl.push_back({-1, 0});
      } else {
        double d = q[1].distance;
        jl.push_back({q[0].trainIdx, d > 0 ? std::lround(1e4 * q[0].distance / d) : 7000});
      }
    }
    a.push_back(jl);
  }
  for (size_t i = 0; i < m.from.size(); ++i) {
    json jl = json::array();
    auto apart = [&](size_t k) {
        auto p = m.from[i][k], q = m.to[i][k];
        return std::hypot(double(q.x) - double(p.x), double(q.y) - double(p.y));
      };
    double sum = 0, n = 0;
    for (size_t k = 0; k < m.from[i].size(); ++k) {if (m.inlier[i][k] == 1) {sum += apart(k); n += 1;}}
    for (size_t k = 0; k < m.from[i].size(); ++k) {
      auto p = m.from[i][k], q = m.to[i][k];
      jl.push_back({std::lround(8 * p.x), std::lround(8 * p.y), std::lround(8 * q.x), std::lround(8 * q.y),
          m.inlier[i][k] == 1 ? 1 : 0, sum > 0 ? std::lround(std::min(1e9, 1e5 * apart(k) * n / sum)) : 0});
    }
    b.push_back(jl);
  }
  return json{{"asked", m.asked}, {"near", a}, {"geo", b}};
}

void New(Ctx & ctx, const json & op)
{
  cv::setNumThreads(1);
  Rng r(op.at("seed").get<uint64_t>());
  V = Scene();
  V.lg = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
  EKF::Parameters p;
  p.debug_logger = V.lg;
  p.log_directory = ctx.scratch + "/";
  p.augmenting_type = AugmentationType::ALL;
  V.ekf = std::make_shared<EKF>(p);
  Camera::Parameters c;
  c.name = "cam"; c.logger = V.lg; c.ekf = V.ekf; c.log_directory = p.log_directory;
  c.rate = 10.0;
  c.variance = Eigen::VectorXd::Ones(6) * 1e-4;
  V.w = op.at("w").get<int>(); V.h = op.at("h").get<int>();
  V.zoom = op.at("down").get<int>() == 1 ? 2 : 1;
  c.intrinsics.width = V.w * V.zoom; c.intrinsics.height = V.h * V.zoom;
  V.cam = std::make_shared<Camera>(c);
  auto & t = V.par;
  t.camera_id = V.cam->GetId();
  t.ekf = V.ekf; t.logger = V.lg; t.log_directory = p.log_directory;
  t.detector = static_cast<Detector>(op.at("det").get<int>());
  t.descriptor = static_cast<Descriptor>(op.at("desc").get<int>());
  t.matcher = static_cast<Matcher>(op.at("match").get<int>());
  t.threshold = op.at("thr").get<int>();
  t.px_error = op.at("px").get<int>() * 0.25;
  t.min_track_length = op.at("min").get<unsigned>();
  t.max_track_length = op.at("max").get<unsigned>();
  t.down_sample = V.zoom == 2; t.down_sample_height = V.h; t.down_sample_width = V.w;
  V.trk = std::make_shared<FeatureTracker>(t);
  V.cam->AddTracker(V.trk);
  V.ekf->SetMaxTrackLength(t.max_track_length);
  int size = op.at("canvas").get<int>(), tile = op.at("tile").get<int>();
  if (tile > 0) {
    // a repeated pattern, not quite the same everywhere
    cv::Mat one = Canvas(tile, 100, r);
    cv::repeat(one, size / tile + 1, size / tile + 1, V.canvas);
    V.canvas = V.canvas(cv::Rect(0, 0, size, size)).clone();
    Grain(V.canvas, 10, r);
  } else {
    V.canvas = Canvas(size, op.at("grain").get<int>(), r);
  }
  V.noise = op.at("noise").get<int>();
  PassOn(false);
  json e = op;
  e["watch"] = Watching();
  e["see"] = WatchingMatches();
  ctx.emit(e);
}

void Frame(Ctx & ctx, const json & op)
{
  json e = op;
  int ox = op.at("ox").get<int>(), oy = op.at("oy").get<int>();
  cv::Mat scene = V.canvas.clone();
  for (auto & q : op.at("hide")) {
    cv::rectangle(scene, cv::Rect(q[0].get<int>(), q[1].get<int>(), q[2].get<int>(), q[3].get<int>()),
      cv::Scalar(128), cv::FILLED);
  }
  cv::Mat img = op.at("blank").get<int>() == 1 ? cv::Mat(V.h, V.w, CV_8UC1, cv::Scalar(90)) :
    scene(cv::Rect(ox, oy, V.w, V.h)).clone();
  if (V.noise > 0) {
    Rng r(op.at("seed").get<uint64_t>());
    Grain(img, V.noise, r);
  }
  cv::Mat full = img;
  if (V.zoom == 2) {cv::resize(img, full, cv::Size(), 2, 2, cv::INTER_NEAREST);}
  std::vector<std::pair<int, int>> now;
  int common = 0;
  for (auto & k : KeyPoints(img)) {
    now.push_back({static_cast<int>(std::lround(k.pt.x * 8)) + 8 * ox, static_cast<int>(std::lround(k.pt.y * 8)) + 8 * oy});
  }
  for (auto & a : now) {for (auto & b : V.prev) {if (a == b) {++common; break;}}}
  V.prev = now;
  e["kps"] = now.size();
  e["common"] = common;
  CameraMessage m(full);
  m.time = op.at("t").get<double>() * kTick;
  m.sensor_id = V.cam->GetId();
  m.sensor_type = SensorType::Camera;
  TakeCalls();
  TakeMatching();
  V.cam->Callback(m);
  e["match"] = Matches();
  int fid = -1;
  for (auto & a : V.ekf->m_state.aug_states) {
    for (auto & s : a.second) {if (static_cast<int>(s.frame_id) > fid) {fid = static_cast<int>(s.frame_id);}}
  }
  e["fid"] = fid;
  e["tk"] = std::lround(V.ekf->GetCurrentTime() / kTick);
  json calls = json::array();
  for (auto & c : TakeCalls()) {
    if (c.kind != 'm') {continue;}
    json jt = json::array();
    for (auto & tr : c.tracks) {
      json ids = json::array(), ob = json::array();
      for (auto & p : tr.track) {
        ids.push_back(p.key_point.class_id);
        ob.push_back(json{{"f", p.frame_id}, {"t", std::lround(p.frame_time / kTick)},
          {"x", std::lround(p.key_point.pt.x * 8)}, {"y", std::lround(p.key_point.pt.y * 8)}});
      }
      jt.push_back(json{{"ids", ids}, {"ob", ob}, {"kn", tr.true_feature_position.allFinite()}});
    }
    calls.push_back(json{{"t", std::lround(c.time / kTick)}, {"px", std::lround(c.px * 100)}, {"tracks", jt}, {"ours", c.ekf == V.ekf.get()}});
  }
  e["calls"] = calls;
  ctx.emit(e);
}
// The tracker's selections of key points and matches on given inputs
void Grid(Ctx & ctx, const json & op)
{
  Rng r(op.at("seed").get<uint64_t>());
  json e = op;
  int rows = op.at("rows").get<int>(), cols = op.at("cols").get<int>();
  std::vector<cv::KeyPoint> in;
  json ji = json::array(), jo = json::array();
  for (int i = 0; i < op.at("n").get<int>(); ++i) {
    cv::KeyPoint k;
    k.pt.x = static_cast<float>(std::floor(r.u(0, cols + 5) * 4) / 4);
    k.pt.y = static_cast<float>(std::floor(r.u(0, rows + 5) * 4) / 4);
    k.class_id = i;
    in.push_back(k);
    ji.push_back({std::lround(k.pt.x * 4), std::lround(k.pt.y * 4)});
  }
  for (auto & k : FeatureTracker::GridFeatures(in, rows, cols)) {
    jo.push_back({k.class_id, std::lround(k.pt.x * 4), std::lround(k.pt.y * 4)});
  }
  e["in"] = ji; e["out"] = jo;
  ctx.emit(e);
}
json Pairs(const std::vector<std::vector<cv::DMatch>> & q)
{
  json a = json::array();
  for (auto & m : q) {
    json b = json::array();
    for (auto & d : m) {b.push_back({d.queryIdx, d.trainIdx, std::lround(d.distance)});}
    a.push_back(b);
  }
  return a;
}
void Ratio(Ctx & ctx, const json & op)
{
  Rng r(op.at("seed").get<uint64_t>());
  json e = op;
  std::vector<std::vector<cv::DMatch>> q;
  for (int i = 0; i < op.at("n").get<int>(); ++i) {
    std::vector<cv::DMatch> m;
    int d = static_cast<int>(r.u(1, 200)), k = static_cast<int>(r.u(0, 4));
    int d2 = k == 3 ? static_cast<int>(std::lround(d / 0.7)) + static_cast<int>(r.u(-3, 4)) : static_cast<int>(r.u(d, 400));
    if (k > 0) {m.push_back(cv::DMatch(i, i, static_cast<float>(d)));}
    if (k > 1) {m.push_back(cv::DMatch(i, i + 1, static_cast<float>(std::max(d, d2))));}
    q.push_back(m);
  }
  e["in"] = Pairs(q);
  V.trk->RatioTest(q);
  e["out"] = Pairs(q);
  ctx.emit(e);
}
void Symm(Ctx & ctx, const json & op)
{
  Rng r(op.at("seed").get<uint64_t>());
  json e = op;
  int n = op.at("n").get<int>(), m = op.at("m").get<int>();
  auto lists = [&](int a, int b) {
      std::vector<std::vector<cv::DMatch>> q;
      for (int i = 0; i < a; ++i) {
        std::vector<cv::DMatch> l;
        if (r.u(0, 1) < 0.8) {
          for (int j = 0; j < 2; ++j) {
            l.push_back(cv::DMatch(i, r.u(0, 1) < 0.6 ? i % b : static_cast<int>(r.u(0, b)), static_cast<float>(std::floor(r.u(1, 100)))));
          }
        }
        q.push_back(l);
      }
      return q;
    };
  auto f = lists(n, m), b = lists(m, std::max(n, 1));
  std::vector<cv::DMatch> out;
  e["f"] = Pairs(f); e["b"] = Pairs(b);
  FeatureTracker::SymmetryTest(f, b, out);
  e["out"] = Pairs({out})[0];
  ctx.emit(e);
}
}  // namespace

bool VisionOp(Ctx & ctx, const json & op)
{
  auto k = op.at("op").get<std::string>();
  if (k == "vnew") {New(ctx, op);} else if (k == "vframe") {Frame(ctx, op);} else if (k == "grid") {
    Grid(ctx, op);
  } else if (k == "ratio") {Ratio(ctx, op);} else if (k == "symm") {Symm(ctx, op);} else {return false;}
  return true;
}
