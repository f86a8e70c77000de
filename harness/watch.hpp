// What the trackers hand to their updaters: the driver is linked so that calls from one
// source file to another of the updaters' UpdateEKF pass through watch.cpp.
#pragma once
#include <vector>
#include <opencv2/opencv.hpp>
#include "ekf/ekf.hpp"
#include "ekf/types.hpp"

struct Call
{
  char kind;   // m: feature tracks, f: board
  EKF * ekf;
  const void * who;   // the updater
  double time;
  FeatureTracks tracks;
  double px{0};
  BoardDetection board;
};
// whether calls can be seen in this build
bool Watching();
// the calls since the last time
std::vector<Call> TakeCalls();
// whether calls go on to the updater
void PassOn(bool on);

// What a frame's matching looked like: the neighbors asked for and the points that went
// through the geometric test.
struct Matching
{
  int asked{0};                                          // calls for neighbors
  std::vector<std::vector<std::vector<cv::DMatch>>> lists;   // their results
  std::vector<std::vector<cv::Point2f>> from, to;        // calls of the geometric test
  std::vector<std::vector<uint8_t>> inlier;
};
bool WatchingMatches();
Matching TakeMatching();
