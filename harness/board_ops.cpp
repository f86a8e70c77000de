// The real board tracker on rendered images of boards.
#include <opencv2/opencv.hpp>
#include <opencv2/aruco.hpp>
#include <opencv2/aruco/charuco.hpp>
#include "ekf/ekf.hpp"
#include "infrastructure/debug_logger.hpp"
#include "sensors/camera.hpp"
#include "trackers/fiducial_tracker.hpp"
#include "io.hpp"
#include "watch.hpp"

namespace
{
constexpr double kTick = 1.0 / 1024.0;
struct Print   // a board as somebody would print it
{
  int id, cam;
  cv::Ptr<cv::aruco::Dictionary> dict;
  cv::Mat tex;
  cv::Mat to_tex;           // board plane (metres) to texture pixels
  double sx, sy;            // extent in metres
  Eigen::Vector2d mid;
  bool flip;                // the printed side is the side of the positive normal
};
struct Table
{
  std::shared_ptr<DebugLogger> lg;
  std::shared_ptr<EKF> ekf;
  std::vector<std::shared_ptr<Camera>> cams;
  std::vector<Intrinsics> lens;
  std::vector<std::shared_ptr<FiducialTracker>> trk;
  std::vector<Print> prints;
};
Table B;

cv::Mat K(const Intrinsics & n)
{
  return (cv::Mat_<double>(3, 3) << n.f_x / n.pixel_size, 0, n.width / 2, 0, n.f_y / n.pixel_size, n.height / 2, 0, 0, 1);
}
cv::Mat D(const Intrinsics & n) {return (cv::Mat_<double>(4, 1) << n.k_1, n.k_2, n.p_1, n.p_2);}

Print Draw(const json & o, int dict, double sq, double mk, int nx, int ny)
{
  Print p;
  p.dict = cv::aruco::getPredefinedDictionary(static_cast<cv::aruco::PREDEFINED_DICTIONARY_NAME>(dict));
  const int cell = 90, edge = 60;
  std::vector<std::vector<cv::Point3f>> pts;
  std::vector<int> ids;
  if (o.at("type").get<int>() == 0) {
    auto b = cv::aruco::GridBoard::create(nx, ny, static_cast<float>(sq), static_cast<float>(mk), p.dict);
    p.sx = nx * sq + (nx - 1) * mk; p.sy = ny * sq + (ny - 1) * mk;
    double s = cell / sq;
    b->draw(cv::Size(static_cast<int>(p.sx * s) + 2 * edge, static_cast<int>(p.sy * s) + 2 * edge), p.tex, edge, 1);
    pts = b->objPoints; ids = b->ids;
  } else {
    auto b = cv::aruco::CharucoBoard::create(nx, ny, static_cast<float>(sq), static_cast<float>(mk), p.dict);
    p.sx = nx * sq; p.sy = ny * sq;
    b->draw(cv::Size(nx * cell + 2 * edge, ny * cell + 2 * edge), p.tex, edge, 1);
    pts = b->objPoints; ids = b->ids;
  }
  std::vector<std::vector<cv::Point2f>> found;
  std::vector<int> got;
  cv::aruco::detectMarkers(p.tex, p.dict, found, got, cv::makePtr<cv::aruco::DetectorParameters>());
  std::vector<cv::Point2f> a, b;
  double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
  for (size_t k = 0; k < got.size(); ++k) {
    for (size_t j = 0; j < ids.size(); ++j) {
      if (ids[j] != got[k]) {continue;}
      for (int c = 0; c < 4; ++c) {
        a.emplace_back(pts[j][c].x, pts[j][c].y);
        b.push_back(found[k][c]);
      }
    }
  }
  for (auto & q : pts) {
    for (auto & c : q) {
      x0 = std::min<double>(x0, c.x); x1 = std::max<double>(x1, c.x);
      y0 = std::min<double>(y0, c.y); y1 = std::max<double>(y1, c.y);
    }
  }
  p.mid = Eigen::Vector2d((x0 + x1) / 2, (y0 + y1) / 2);
  p.to_tex = cv::findHomography(a, b, 0);
  auto & h = p.to_tex;
  p.flip = h.at<double>(0, 0) * h.at<double>(1, 1) - h.at<double>(0, 1) * h.at<double>(1, 0) < 0;
  return p;
}

Intrinsics Lens(const json & o, Rng & r)
{
  Intrinsics n;
  n.width = 560 + 2 * static_cast<int>(r.u(0, 30)); n.height = 420 + 2 * static_cast<int>(r.u(0, 20));
  n.pixel_size = o.at("pix").get<int>() * 0.001;
  n.f_x = r.u(420, 700) * n.pixel_size;
  n.f_y = n.f_x * r.u(0.85, 1.15);
  if (o.at("warp").get<int>() == 1) {
    n.k_1 = r.u(-0.2, 0.1); n.k_2 = r.u(-0.03, 0.03);
    n.p_1 = r.u(-0.01, 0.01); n.p_2 = r.u(-0.01, 0.01);
  }
  return n;
}

// what the camera sees of a board at a pose
cv::Mat Render(const Print & p, const Intrinsics & n, const cv::Mat & R, const cv::Mat & t, int back)
{
  int w = static_cast<int>(n.width), h = static_cast<int>(n.height);
  std::vector<cv::Point2f> px, ideal;
  for (int y = 0; y < h; ++y) {for (int x = 0; x < w; ++x) {px.emplace_back(x, y);}}
  cv::undistortPoints(px, ideal, K(n), D(n));
  cv::Mat H = cv::Mat::eye(3, 3, CV_64F);
  R.col(0).copyTo(H.col(0)); R.col(1).copyTo(H.col(1)); t.copyTo(H.col(2));
  cv::Mat G = p.to_tex * H.inv();   // ideal image plane to texture
  cv::Mat mx(h, w, CV_32F), my(h, w, CV_32F);
  for (int y = 0; y < h; ++y) {
    for (int x = 0; x < w; ++x) {
      auto & q = ideal[static_cast<size_t>(y) * w + x];
      double c = G.at<double>(2, 0) * q.x + G.at<double>(2, 1) * q.y + G.at<double>(2, 2);
      mx.at<float>(y, x) = static_cast<float>((G.at<double>(0, 0) * q.x + G.at<double>(0, 1) * q.y + G.at<double>(0, 2)) / c);
      my.at<float>(y, x) = static_cast<float>((G.at<double>(1, 0) * q.x + G.at<double>(1, 1) * q.y + G.at<double>(1, 2)) / c);
    }
  }
  cv::Mat bx, by, big, out;
  cv::resize(mx, bx, cv::Size(), 2, 2, cv::INTER_LINEAR);
  cv::resize(my, by, cv::Size(), 2, 2, cv::INTER_LINEAR);
  cv::remap(p.tex, big, bx, by, cv::INTER_LINEAR, cv::BORDER_CONSTANT, cv::Scalar(back));
  cv::resize(big, out, cv::Size(w, h), 0, 0, cv::INTER_AREA);
  return out;
}

void New(Ctx & ctx, const json & op)
{
  cv::setNumThreads(1);
  Rng r(op.at("seed").get<uint64_t>());
  json e = op;
  B = Table();
  B.lg = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
  EKF::Parameters p;
  p.debug_logger = B.lg;
  p.log_directory = ctx.scratch + "/";
  p.augmenting_type = AugmentationType::ALL;
  B.ekf = std::make_shared<EKF>(p);
  B.ekf->SetMaxTrackLength(20);
  json cams = json::array();
  for (auto & o : op.at("cams")) {
    Camera::Parameters c;
    c.name = "cam"; c.logger = B.lg; c.ekf = B.ekf; c.log_directory = p.log_directory;
    c.rate = 10.0;
    c.variance = Eigen::VectorXd::Ones(6) * 1e-4;
    c.pos_c_in_b = r.v3(0.5); c.ang_c_to_b = r.q(2.0);
    c.intrinsics = Lens(o, r);
    B.lens.push_back(c.intrinsics);
    B.cams.push_back(std::make_shared<Camera>(c));
    cams.push_back(B.cams.back()->GetId());
  }
  json boards = json::array();
  int id = 0;
  for (auto & o : op.at("boards")) {
    FiducialTracker::Parameters f;
    int cam = o.at("cam").get<int>() - 1;
    f.name = "board"; f.logger = B.lg; f.ekf = B.ekf; f.log_directory = p.log_directory;
    f.camera_id = B.cams[cam]->GetId();
    f.id = static_cast<unsigned>(++id * 3);
    f.detector_type = o.at("type").get<int>() == 0 ? FiducialType::ARUCO_BOARD : FiducialType::CHARUCO_BOARD;
    f.predefined_dict = o.at("dict").get<unsigned>();
    f.squares_x = o.at("nx").get<unsigned>(); f.squares_y = o.at("ny").get<unsigned>();
    f.square_length = r.u(0.03, 0.3); f.marker_length = f.square_length * r.u(0.55, 0.75);
    f.pos_f_in_l = r.v3(3.0); f.ang_f_to_l = r.q(2.0);
    for (int k = 0; k < 6; ++k) {f.variance(k) = r.u(0.001, 0.1);}
    B.trk.push_back(std::make_shared<FiducialTracker>(f));
    B.cams[cam]->AddFiducial(B.trk.back());
    Print d = Draw(o, o.at("dict").get<int>(), f.square_length, f.marker_length,
        static_cast<int>(f.squares_x), static_cast<int>(f.squares_y));
    d.id = static_cast<int>(f.id); d.cam = cam;
    B.prints.push_back(d);
    boards.push_back(json{{"id", f.id}, {"pe", jv(f.variance.head<3>())}, {"ae", jv(f.variance.tail<3>())}});
  }
  json lens = json::array();
  for (auto & c : B.cams) {
    auto & n = B.ekf->m_state.cam_states.at(c->GetId()).intrinsics;
    cv::Mat k = n.ToCameraMatrix(), d = n.ToDistortionVector();
    json m = json::array(), v = json::array();
    for (int i = 0; i < 9; ++i) {push_real(m, k.at<double>(i / 3, i % 3));}
    for (int i = 0; i < 4; ++i) {push_real(v, d.at<double>(i));}
    lens.push_back(json{{"k", m}, {"d", v}});
  }
  json given = json::array();
  for (auto & n : B.lens) {
    given.push_back(json{{"fx", jr(n.f_x)}, {"fy", jr(n.f_y)}, {"w", jr(n.width)}, {"h", jr(n.height)},
      {"pix", jr(n.pixel_size)}, {"d", jv(Eigen::Vector4d(n.k_1, n.k_2, n.p_1, n.p_2))}});
  }
  e["lens"] = lens; e["given"] = given;
  e["sid"] = cams;
  e["made"] = boards;
  e["watch"] = Watching();
  PassOn(false);
  TakeCalls();
  ctx.emit(e);
}

// the board whose tracker the updater belongs to, from 1
int Who(const void * u)
{
  auto a = static_cast<const char *>(u);
  for (size_t k = 0; k < B.trk.size(); ++k) {
    auto o = reinterpret_cast<const char *>(B.trk[k].get());
    if (a >= o && a < o + sizeof(FiducialTracker)) {return static_cast<int>(k) + 1;}
  }
  return 0;
}

json Clones()
{
  json a = json::array();
  for (auto & q : B.ekf->m_state.aug_states) {
    for (auto & s : q.second) {
      a.push_back(json{static_cast<int>(q.first), s.frame_id, std::lround(s.time / kTick)});
    }
  }
  return a;
}

void Frame(Ctx & ctx, const json & op)
{
  json e = op;
  Rng r(op.at("seed").get<uint64_t>());
  int c = op.at("cam").get<int>() - 1, b = op.at("board").get<int>() - 1;
  auto & n = B.lens[c];
  int w = static_cast<int>(n.width), h = static_cast<int>(n.height), back = static_cast<int>(r.u(60, 255));
  cv::Mat img(h, w, CV_8UC1, cv::Scalar(back));
  e["whole"] = false;
  if (b >= 0) {
    auto & p = B.prints[b];
    cv::Mat R, t;
    bool fits = false;
    double size = std::max(p.sx, p.sy), f = std::min(n.f_x, n.f_y) / n.pixel_size;
    for (int k = 0; k < 400 && !fits; ++k) {
      double z = f * size / (h * r.u(0.62, 0.85));
      double tilt = r.u(0.3, 0.9), way = r.u(-M_PI, M_PI), roll = r.u(-M_PI, M_PI);
      Eigen::Matrix3d q = (Eigen::AngleAxisd(tilt, Eigen::Vector3d(std::cos(way), std::sin(way), 0)) *
        Eigen::AngleAxisd(roll, Eigen::Vector3d::UnitZ()) *
        Eigen::AngleAxisd(p.flip ? M_PI : 0.0, Eigen::Vector3d::UnitX())).toRotationMatrix();
      Eigen::Vector3d m(r.u(-0.35, 0.35) * w / f * z, r.u(-0.35, 0.35) * h / f * z, z);
      Eigen::Vector3d o = m - q * Eigen::Vector3d(p.mid.x(), p.mid.y(), 0);
      R = (cv::Mat_<double>(3, 3) << q(0, 0), q(0, 1), q(0, 2), q(1, 0), q(1, 1), q(1, 2), q(2, 0), q(2, 1), q(2, 2));
      t = (cv::Mat_<double>(3, 1) << o(0), o(1), o(2));
      std::vector<cv::Point3d> corners;
      for (int i = 0; i < 4; ++i) {
        corners.emplace_back(p.mid.x() + (i % 2 ? 0.55 : -0.55) * p.sx, p.mid.y() + (i / 2 ? 0.55 : -0.55) * p.sy, 0);
      }
      std::vector<cv::Point2d> at;
      cv::projectPoints(corners, R, t, K(n), D(n), at);
      fits = true;
      for (auto & a : at) {fits = fits && a.x > 12 && a.x < w - 12 && a.y > 12 && a.y < h - 12;}
      Eigen::Quaterniond qq(q);
      e["tp"] = jv(o); e["tq"] = jq(qq);
    }
    img = Render(p, n, R, t, back);
    e["whole"] = fits;
    if (op.at("cover").get<int>() > 0) {
      // a hand in front of part of the board
      cv::rectangle(img, cv::Rect(static_cast<int>(r.u(-60, w - 60)), static_cast<int>(r.u(-60, h - 60)), w / 3, h / 3),
        cv::Scalar(150), cv::FILLED);
      e["whole"] = false;
    }
    if (op.at("noise").get<int>() > 0) {
      for (int y = 0; y < h; ++y) {
        for (int x = 0; x < w; ++x) {
          int v = img.at<uint8_t>(y, x) + static_cast<int>(std::lround(r.u(-6, 6)));
          img.at<uint8_t>(y, x) = static_cast<uint8_t>(std::max(0, std::min(255, v)));
        }
      }
    }
  }
  json seen = json::array();
  for (auto & p : B.prints) {
    std::vector<std::vector<cv::Point2f>> m;
    std::vector<int> ids;
    cv::aruco::detectMarkers(img, p.dict, m, ids, cv::makePtr<cv::aruco::DetectorParameters>());
    seen.push_back(ids.size());
  }
  e["seen"] = seen;
  CameraMessage msg(op.at("empty").get<int>() == 1 ? cv::Mat() : img);
  msg.time = op.at("t").get<double>() * kTick;
  msg.sensor_id = B.cams[c]->GetId();
  msg.sensor_type = SensorType::Camera;
  auto state = [&]() {
      return json{{"x", jm(B.ekf->m_state.ToVector())}, {"cov", jm(B.ekf->m_cov)}, {"t", jr(B.ekf->GetCurrentTime())}};
    };
  e["pre"] = state();
  TakeCalls();
  B.cams[c]->Callback(msg);
  e["post"] = state();
  e["clones"] = Clones();
  e["tk"] = std::lround(B.ekf->GetCurrentTime() / kTick);
  json calls = json::array();
  for (auto & q : TakeCalls()) {
    calls.push_back(json{{"kind", std::string(1, q.kind)}, {"ours", q.ekf == B.ekf.get()}, {"t", std::lround(q.time / kTick)},
      {"fid", q.board.frame_id}, {"p", jv(q.board.pos_f_in_c)}, {"q", jq(q.board.ang_f_to_c)},
      {"pe", jv(q.board.pos_error)}, {"ae", jv(q.board.ang_error)}, {"who", Who(q.who)}});
  }
  e["calls"] = calls;
  ctx.emit(e);
}
}  // namespace

bool BoardOp(Ctx & ctx, const json & op)
{
  auto k = op.at("op").get<std::string>();
  if (k == "bnew") {New(ctx, op);} else if (k == "bframe") {Frame(ctx, op);} else {return false;}
  return true;
}
