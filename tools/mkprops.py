#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

E = "src/ekf/ekf.cpp"; T = "src/ekf/types.cpp"; M = "src/utility/math_helper.cpp"
prop("C01", "The state vector is one gap-free partition, always in the same order",
 "After any sequence of registrations, clonings and removals, every calibrated component (body, then each IMU, GPS antenna, camera and fiducial in ascending id order, then the pose clones) owns its own contiguous range of the error-state vector, the ranges neither overlap nor leave gaps, and components whose calibration is off own none. The reported index, start and size of every component and group, the reported sensor counts, and the total size all describe this partition, and the covariance is square with exactly that dimension.",
 ["histories", "configurations"],
 "every sequence of sensor/fiducial registrations (any ids, any order, any calibration flags), clonings, evictions and prunings, in both covariance forms",
 "the existing tests register at most two sensors per group in ascending id order and never register after a clone exists",
 ["src/ekf/ekf.cpp", "src/ekf/types.cpp"], [("index refresh", E+": RefreshIndices"), ("size bookkeeping", E+": Register*/AugmentStateIfNeeded"), ("vector form size", T+": State::GetStateSize/ToVector")],
 ["public getters of the filter", "index fields of the public state"], [("m_state_size and group sizes", "dimension of the error state", "src/ekf/ekf.hpp")])
prop("C02", "Uncertainty stays with its component when the state grows or shrinks",
 "When a sensor or fiducial is registered, or a clone is added, evicted or pruned, the covariance among all components that remain is exactly what it was before, wherever their ranges have moved to. A newly registered component starts with the covariance it was registered with and no correlation to anything else, and a new clone's covariance and cross-covariances equal those of the current body position and orientation. This holds identically for the standard and the square-root covariance form.",
 ["histories", "configurations"],
 "every interleaving of registrations (any id order), clonings and removals over correlated covariances, in both covariance forms",
 "tests check one registration order, one clone at the end of the state, and never the square-root form",
 ["src/ekf/ekf.cpp", "src/utility/math_helper.cpp"], [("insertion/removal of covariance blocks", M+": InsertInMatrix, RemoveFromMatrix"), ("clone covariance", E+": AugmentCovariance"), ("registration", E+": RegisterIMU/GPS/Camera/Fiducial")],
 ["public covariance of the filter"])
prop("C03", "Registering an id twice changes nothing",
 "Registering an IMU, GPS, camera or fiducial under an id that is already registered in that category leaves the estimate, the covariance, every size, index and count, and the behaviour of all later operations exactly as they were, and is reported as a warning. The same id may be used in different categories.",
 ["histories", "inputs"],
 "every history in which an already used id is registered again with different values, flags or covariance, at any point",
 "tests register one duplicate per category immediately after the first and look only at the count",
 ["src/ekf/ekf.cpp"], [("duplicate guard", E+": RegisterIMU/GPS/Camera/Fiducial")], ["public getters, state, covariance, debug log"])
prop("C04", "Filter time never runs backwards and stale requests are ignored",
 "The filter's clock only ever moves forward to the time of a prediction: predicting to an earlier time changes neither estimate, covariance, clones nor clock, and predicting to a later time sets the clock to exactly that time. Without explicit initialisation the first measurement seen defines local time zero and every later measurement time is converted by subtracting that same epoch; with explicit initialisation the clock starts at the given time and measurement times are used as they are.",
 ["histories", "schedules", "inputs"],
 "every order (including late and duplicate) of time-stamped measurements and predictions, initialised or not",
 "tests only feed increasing times",
 ["src/ekf/ekf.cpp"], [("stale guard", E+": PredictModel"), ("epoch", E+": CalculateLocalTime, Initialize")], ["current time getter, state, covariance"])
prop("C05", "Prediction integrates the body motion exactly as modelled",
 "Predicting over dt once gravity is initialised advances velocity by dt times the gravity-free acceleration (zero while the body is flagged as not accelerating), position by dt times the new velocity and attitude by the rotation of angular rate times dt applied in the local frame, and touches no other component of the estimate; before gravity is initialised only the clock moves. The covariance becomes F(P+Q dt)F-transposed, where F couples only position to velocity and Q is the body process noise (as last set) plus each calibrated component's own stability terms, with zero for clones, in both covariance forms.",
 ["histories", "inputs", "configurations"],
 "every estimate, correlated covariance, dt, sensor configuration and noise setting, in both covariance forms",
 "tests predict from one state without sensors and do not look at the covariance or the square-root form",
 ["src/ekf/ekf.cpp"], [("prediction", E+": PredictModel"), ("process noise assembly", E+": RefreshIndices, SetBodyProcessNoise")], ["public state and covariance"])
prop("C06", "Pose clones are made exactly when the augmentation policy says",
 "With the policies none / all / primary a clone is made never / for every camera frame / for every frame of the first registered camera only; with the time policy during a prediction when none exists or more than the configured interval has passed since the last one; with the error policy when none exists, when the last one is older than the track window, or when it is older than the shortest camera period and the constant-velocity back-prediction differs from it by more than the position or the angle threshold. Time and error clones additionally need a camera frame since the previous clone. Each clone records the current time, the frame id (all/primary) and the body pose at that moment.",
 ["histories", "schedules", "configurations"],
 "every interleaving of camera frames of several cameras, predictions and registrations under every policy",
 "tests sample one camera and no time- or error-policy schedule",
 ["src/ekf/ekf.cpp"], [("policy", E+": AugmentStateIfNeeded (both overloads)")], ["clone list of the public state"])
prop("C07", "The clone window is bounded and drops the oldest first",
 "With the all and primary policies each camera's clones are in order of creation, and a new clone evicts exactly the oldest one of that camera when there are then more than the configured maximum track length, so that the window never grows past that length. With the time and error policies a clone is dropped exactly when its successor is older than the track window (the maximum track length, or one more, of the longest camera periods); the newest clone is never dropped and the survivors are unchanged.",
 ["histories", "configurations"],
 "every number and interleaving of frames, cameras, predictions and window-length settings",
 "tests never exceed the window",
 ["src/ekf/ekf.cpp"], [("eviction", E+": AugmentStateIfNeeded(camera, frame)"), ("pruning", E+": AugmentStateIfNeeded()"), ("window", E+": SetMaxTrackLength, RegisterCamera")], ["clone list of the public state"])
prop("C08", "A frame lookup returns its clone or the interpolated pose at its time",
 "Looking up a frame of a camera that clones every frame returns the pose, time and index of that frame's clone. For every other camera it returns the pose at the frame's time: linear in position and spherical in rotation between the two neighbouring clones, from the last clone towards the current body pose after it, and the first clone itself before it, together with the index of the earlier clone and the interpolation fraction; the result is always finite and a lookup never changes the filter.",
 ["histories", "inputs"],
 "every clone history, query time (before, at, between and after the clones, and at the current time) and camera under every policy",
 "tests look up one frame id and one interpolated time",
 ["src/ekf/ekf.cpp"], [("lookup", E+": GetAugState")], ["returned clone"])
prop("C09", "A measurement update is the exact Kalman update in both covariance forms",
 "For every covariance P, Jacobian H, residual r and measurement noise R, the update corrects the estimate by K r with K = P H'(H P H'+R)^-1 and leaves the covariance (I-KH)P(I-KH)'+KRK'. The result is symmetric and positive semi-definite, never exceeds the prior covariance, and the square-root form gives the same estimate and covariance as the standard form.",
 ["inputs", "configurations"],
 "every correlated prior covariance, measurement size from one row to more rows than states, noise and residual, in both covariance forms",
 "no test checks the update itself; sensor tests only run it once from the initial diagonal covariance",
 ["src/ekf/update/updater.cpp"], [("update", "src/ekf/update/updater.cpp: KalmanUpdate"), ("root form", M+": QR_r")], ["public state and covariance before/after"])
prop("C10", "Corrections and state vectors address every component by its own range",
 "Adding a correction vector to the estimate adds each calibrated component's own range to it (vectors by addition, orientations by right-multiplying the rotation of the three angle entries) and leaves uncalibrated quantities untouched. The exported state vector has the reported size and holds each component in its own range, orientations as rotation vectors, and setting the estimate from a vector is its inverse for everything except the clones, which it leaves alone; all orientations stay unit.",
 ["inputs", "configurations", "histories"],
 "every combination of sensors, calibration flags, ids and clones, and every correction",
 "tests use one instance of each component with fixed flags",
 ["src/ekf/types.cpp"], [("correction", T+": operator+=(State, vector)"), ("export/import", T+": ToVector, SetState")], ["public state"])
prop("C11", "The GPS reference is initialised once, by its rule, and then stays fixed",
 "With a constant reference the filter is ready immediately; otherwise every GPS fix before readiness is buffered (time, earth-fixed position, body position at that time) without altering the estimate, and readiness is declared on the first fix at which at least four are buffered and the configured rule holds (horizontal baseline above its limit, or alignment residuals below both limits). The reference then determined reproduces the alignment: fixes generated from the body trajectory through any position and heading yield that heading and map every buffered fix onto its body position. Once ready, the reference never changes except by explicitly setting it.",
 ["histories", "inputs", "configurations"],
 "every sequence of fixes and body positions, reference location and heading over the full circle, for each initialisation rule",
 "tests use one trajectory with one heading",
 ["src/ekf/ekf.cpp", "src/utility/math_helper.cpp", "src/utility/gps_helper.cpp", "src/ekf/update/gps_updater.cpp"], [("initialisation", E+": AttemptGpsInitialization"), ("alignment", M+": kabsch_2d, affine_angle")], ["readiness flag, reference getters, buffers"])
prop("C12", "A GPS fix corrects the estimate by its antenna position error",
 "Once the reference is set, a fix predicts the filter to its time and applies one Kalman update whose residual is the fix converted to the local frame minus the predicted antenna position (body position plus rotated antenna offset), with the reported fix covariance and a Jacobian that is the derivative of the predicted antenna position with respect to the state vector. A fix that agrees with the prediction leaves the estimate unchanged, and an antenna offset that is not calibrated is never changed.",
 ["inputs", "histories", "configurations"],
 "every pose, reference, heading, antenna offset, covariance and fix, calibrated or not, both covariance forms",
 "tests run one fix at one pose and check the Jacobian at one pose",
 ["src/ekf/update/gps_updater.cpp", "src/utility/gps_helper.cpp"], [("update", "src/ekf/update/gps_updater.cpp: UpdateEKF, GetMeasurementJacobian, PredictMeasurement")], ["public state and covariance, GPS log"])
prop("C13", "Stationary phase ends for good at the first detected motion",
 "Until its first detected motion, each IMU measurement is scored by its normalised squared gravity/bias residual; a score below the threshold declares gravity initialised, and only a score above the threshold with gravity initialised ends the stationary phase, permanently for that IMU. A stationary measurement predicts to its time, corrects only through the gravity (and, when biases are calibrated, rate) residual, and leaves body acceleration equal to gravity and angular rate and angular acceleration zero. The decision is the same in both covariance forms.",
 ["histories", "inputs", "configurations"],
 "every sequence of IMU measurements of one or several IMUs, thresholds and calibration flags, both covariance forms",
 "tests feed a handful of identical samples",
 ["src/ekf/update/imu_updater.cpp"], [("detector", "src/ekf/update/imu_updater.cpp: ZeroAccelerationUpdate"), ("flag", E+": SetZeroAcceleration, InitializeGravity")], ["gravity flag, public state and covariance, IMU log"])
prop("C14", "After motion an IMU measurement drives the body motion state",
 "After motion is detected, with a single IMU the body acceleration and angular rate become the bias-free measurement rotated from the IMU into the local frame, angular acceleration becomes zero, and then the filter predicts to the measurement time; nothing else is corrected. With several IMUs one Kalman update with the measurement-minus-prediction residual and the reported noise is applied before that prediction. The bias, mounting and motion state of other IMUs never enter.",
 ["inputs", "histories", "configurations"],
 "every attitude, mounting, bias, measurement, time step and number of IMUs",
 "tests use identity mounting and one measurement",
 ["src/ekf/update/imu_updater.cpp"], [("update", "src/ekf/update/imu_updater.cpp: UpdateEKF")], ["public state and covariance"])
prop("C15", "A board detection is compared with the board pose seen from the camera",
 "A board detection predicts the filter to its time and applies one Kalman update whose position residual is the detected board position minus the estimated board position expressed in the camera frame, whose rotation residual is the rotation taking the estimated to the detected board orientation in the camera frame, and whose noise is the detection's own. A detection equal to the estimated board pose leaves the estimate unchanged, and uncalibrated camera and board poses are never changed.",
 ["inputs", "histories", "configurations"],
 "every body, camera and board pose, detection and noise, calibration flags, both covariance forms",
 "tests run one detection near identity",
 ["src/ekf/update/fiducial_updater.cpp"], [("update", "src/ekf/update/fiducial_updater.cpp: UpdateEKF, PredictMeasurement")], ["public state and covariance"])
prop("C16", "Feature tracks correct the filter without needing the feature position",
 "A set of feature tracks predicts the filter to its time and yields at most one update: empty sets contribute nothing, and tracks whose pixels exactly match a point seen from the stored poses leave the estimate unchanged. The residual is measured minus projected normalised image coordinates, and the information used is exactly that remaining after eliminating the feature position, so the update does not depend on how an undetermined feature error is split. A feature whose true position is not known is placed at the least-squares intersection of its track's rays from the stored poses and takes part only if its depth in the first camera lies within the limits (1 to 100 m); that position is what the triangulation log reports, for every track within the limits.",
 ["inputs", "histories", "configurations"],
 "every clone history, camera pose, track set, feature position and augmentation policy",
 "the only test is a smoke run with one track and one covariance",
 ["src/ekf/update/msckf_updater.cpp", "src/utility/math_helper.cpp"], [("update", "src/ekf/update/msckf_updater.cpp: UpdateEKF, TriangulateFeature"), ("elimination", M+": ApplyLeftNullspace")], ["public state and covariance, triangulation log"])
prop("C17", "Eliminating and compressing measurements loses no information",
 "Eliminating nuisance variables leaves exactly the measurement rows' component orthogonal to their Jacobian: the result has that many fewer rows, no dependence on the nuisance, and, for a nuisance Jacobian of full column rank, exactly the information about the state that the nuisance leaves. Compressing a tall measurement preserves its information matrix and information vector and never returns more rows than states or than it was given; a wide measurement is returned as it was.",
 ["inputs"],
 "every Jacobian and residual, including rank-deficient ones with zero rows or columns in any position",
 "the tests check sizes and two full-rank examples",
 ["src/utility/math_helper.cpp"], [("elimination", M+": ApplyLeftNullspace"), ("compression", M+": CompressMeasurements")], ["function results"])
prop("C18", "Every feature observation ends up in at most one delivered track",
 "A feature's observations are collected per feature in frame order and delivered as one track in the frame where the feature is first missing or where it has reached the maximum length; tracks shorter than the minimum are discarded instead. After delivery or discarding the feature starts over from nothing, no observation is delivered twice or under another feature, and tracks never exceed the maximum length (of at least two observations). The same holds for the simulated features and for those tracked in camera images, including images without any feature.",
 ["histories", "schedules"],
 "every visibility history of many features over many frames, and every minimum/maximum length",
 "tests look at the number of tracks for one fixed trajectory",
 ["src/trackers/sim/sim_feature_tracker.cpp", "src/trackers/feature_tracker.cpp"], [("track lifecycle", "src/trackers/sim/sim_feature_tracker.cpp: GenerateMessage")], ["generated tracker messages", "updates asked for by the image tracker"])
prop("C19", "A data log is a header plus rate-limited rows in order",
 "A data log that is not enabled creates no file; an enabled one writes its header exactly once before the first row and then every accepted row in order. With a positive rate a row is accepted when fewer rows than rate times elapsed time since the first row have been written (the first row always), whatever the time of the first row; with rate zero every row is accepted, and unlimited rows are always accepted and count.",
 ["histories", "inputs", "configurations"],
 "every sequence of limited and unlimited log calls, times (starting at any value including zero) and rates",
 "tests write a few rows at one rate starting at one time",
 ["src/infrastructure/data_logger.cpp"], [("rate limit", "src/infrastructure/data_logger.cpp: RateLimitedLog, Log")], ["file contents"])
prop("C20", "Every logged row matches its header and reports true variances",
 "In every file the filter and its updaters write, each row has exactly as many columns as the header, the time column is the local time of the measurement or the filter's clock, and the covariance columns are the variances of the named component taken from the current covariance, in both covariance forms and in stationary and moving phases alike. The estimate columns are the estimate after the step being logged.",
 ["histories", "configurations"],
 "every sensor configuration, calibration flags, covariance form and measurement history",
 "no test reads the rows back",
 ["src/ekf/ekf.cpp", "src/ekf/update/imu_updater.cpp", "src/ekf/update/gps_updater.cpp", "src/ekf/update/fiducial_updater.cpp", "src/ekf/update/msckf_updater.cpp"], [("row writers", "src/ekf/ekf.cpp: LogBodyStateIfNeeded; src/ekf/update/*: UpdateEKF")], ["csv files"])
prop("C21", "Debug messages are shown exactly when their level is enabled",
 "A debug message is emitted if and only if it is at least as severe as the configured level, exactly once and with its text intact, informational and debug messages on standard output and warnings and more severe ones on standard error. Changing the level affects all later messages and none before, and is announced only where informational messages are enabled.",
 ["histories", "configurations"],
 "every sequence of level changes and messages of every level",
 "tests only check that calls do not crash",
 ["src/infrastructure/debug_logger.cpp", "src/infrastructure/sim/sim_debug_logger.cpp"], [("filter", "src/infrastructure/sim/sim_debug_logger.cpp: Log")], ["standard output and error"])
prop("C22", "Simulated sensors produce the right messages for the true trajectory",
 "A simulated sensor produces exactly floor(duration times rate) messages under its own id, error-free ones at i/rate, and with errors at one common random phase within one period plus the configured time jitter. An error-free IMU, GPS, camera-feature or board message equals what the true body pose and motion imply at its time through the true mounting, and camera frames carry strictly increasing frame ids with one message per attached tracker and board. Features added on request are as many as asked for, lie in view of the camera, and keep their ids. With errors the deviations from the error-free values scatter with the configured standard deviations, and reported covariances are their squares.",
 ["inputs", "configurations"],
 "every trajectory, mounting, rate, duration and seed",
 "tests check message counts for one configuration",
 ["src/sensors/sim/sim_sensor.cpp", "src/sensors/sim/sim_imu.cpp", "src/sensors/sim/sim_gps.cpp", "src/sensors/sim/sim_camera.cpp", "src/trackers/sim/sim_fiducial_tracker.cpp", "src/trackers/sim/sim_feature_tracker.cpp"], [("message generation", "src/sensors/sim/*: GenerateMessages")], ["generated messages"])
prop("C23", "The true trajectory is self-consistent and starts at rest",
 "For the cyclic and the spline trajectory, velocity and acceleration are the first and second time derivative of position, the orientation is a unit rotation, and the body angular rate and acceleration are those that carry the orientation forward. Before the stationary time the body is at rest (all rates zero) at the pose at which the motion then starts, without a jump.",
 ["inputs", "configurations"],
 "every frequency, amplitude, offset, waypoint set, stationary time and query time",
 "tests compare a few hand-picked times",
 ["src/infrastructure/sim/truth_engine_cyclic.cpp", "src/infrastructure/sim/truth_engine_spline.cpp"], [("trajectory", "src/infrastructure/sim/truth_engine_*.cpp")], ["trajectory getters"])
prop("C24", "Sensors get unique ids and act only on their own part of the filter",
 "Every sensor and every tracker created in a process gets an id never used before in its family, registers itself in the filter exactly once under that id (boards under their configured id) with its configured initial values, variances (an IMU's and a camera's raised to at least a millionth) and calibration flags, and its messages only ever use that sensor's own calibration. Messages sorted for replay are ordered by time, and equal inputs and seed reproduce the same messages, the same filter result and the same files of the simulation program exactly.",
 ["histories", "configurations", "schedules"],
 "every creation order and mix of sensors and trackers, message interleaving and seed",
 "tests create one or two sensors and never compare two runs",
 ["src/sensors/sensor.cpp", "src/sensors/imu.cpp", "src/sensors/gps.cpp", "src/sensors/camera.cpp", "src/trackers/tracker.cpp", "src/utility/sim/sim_rng.cpp"], [("ids", "src/sensors/sensor.cpp, src/trackers/tracker.cpp"), ("registration", "sensor constructors"), ("ordering", "src/sensors/sensor.cpp: MessageCompare")], ["ids, public state, generated messages"])
prop("C25", "First-estimate mode linearises every update at the first calibration estimate",
 "With first-estimate Jacobians enabled, the antenna offset (GPS), the camera and board poses (board detections) and the camera pose (feature tracks) used for prediction and Jacobian in every update are those held at that updater's first use, however the calibration estimate changes afterwards; with it disabled they are always the current estimate. Body pose and clones always use the current estimate in either mode.",
 ["histories", "configurations"],
 "every history of updates and calibration changes, in both modes",
 "no test enables first-estimate mode",
 ["src/ekf/update/gps_updater.cpp", "src/ekf/update/fiducial_updater.cpp", "src/ekf/update/msckf_updater.cpp"], [("freeze", "src/ekf/update/*: RefreshStates / first-estimate guards")], ["predicted measurement and Jacobian"])
prop("C26", "Frame and rotation conversions are exact inverses of each other",
 "Geodetic, earth-fixed, east-north-up and local conversions invert each other to sub-millimetre accuracy for every latitude, longitude, heading and near-earth altitude, agree with the WGS84 ellipsoid, and preserve distances. Rotation vector and quaternion conversions invert each other for every rotation angle up to pi and produce unit quaternions, those through OpenCV to a ten-thousandth of a radian.",
 ["inputs"],
 "every reference point (all latitudes including poles and equator, all longitudes), heading, offset and rotation",
 "tests compare a few cities and angles",
 ["src/utility/gps_helper.cpp", "src/utility/type_helper.cpp"], [("conversions", "src/utility/gps_helper.cpp, src/utility/type_helper.cpp")], ["function results"])
prop("C27", "Every filter run stays numerically healthy end to end",
 "In every run of the assembled filter over any mix of IMU, GPS, board and feature measurements with non-zero expected noise (features under every policy, also before the first clone, when they change nothing), no step crashes, the estimate and covariance stay finite, the covariance stays symmetric positive semi-definite with the reported dimension, every orientation stays unit, and every pose clone records a time not later than the filter clock. The simulation program ends normally on its shipped configurations, whatever their duration, seed, policy and covariance form, and every file it writes has rows as wide as their header, finite numbers, times in order, unit orientations and no negative variance.",
 ["histories", "schedules", "configurations"],
 "every schedule of measurements from any number of sensors in both covariance forms and all augmentation policies",
 "no test runs more than one sensor type in one filter, and the program is never run",
 ["src/ekf/ekf.cpp", "src/ekf/update/updater.cpp", "src/application/sim/simulation.cpp", "config/"], [("whole filter", "src/ekf, src/sensors, src/trackers")], ["public state and covariance after every step", "exit status and files of the sim program"])
prop("C28", "The simulation program simulates what its configuration describes",
 "For every configuration the program creates the listed sensors, trackers and boards in order (IMUs, cameras, GPS receivers numbered from one), each with its own configured mounting, calibration flags, rate and log rate: the files and columns that exist, their number of rows and the constants of everything that is not calibrated follow from the configuration. The truth files hold the configured trajectory at the configured log rate, the true mountings, reference and boards. The reported state size is that of the calibrated components (plus six per clone, none without feature trackers), and with error-free measurements of one IMU, whatever other sensors there are, the estimate stays on the true trajectory.",
 ["configurations", "inputs"],
 "every list of sensors and every value of the options, both covariance forms, first-estimate mode on and off, all policies",
 "the program has no test; only its parts have",
 ["src/application/sim/simulation.cpp", "src/infrastructure/sim/truth_engine.cpp", "src/sensors/sim", "src/trackers/sim"], [("reading the configuration", "src/application/sim/simulation.cpp: main"), ("truth files", "src/infrastructure/sim/truth_engine.cpp: WriteTruthData")], ["files written by the program"])
prop("C29", "Image features are matched one to one and followed along the scene",
 "In camera images every feature of an image continues at most one feature of the previous image and is continued by at most one: matches that are ambiguous (closest over second-closest distance above the configured ratio) or not mutual are dropped, and of crowded features one per grid cell is kept. Exactly the matches that also pass a geometric test over both images (of at least ten matches) and move no more than three times the mean displacement extend a track. A delivered track follows one point of the scene: its pixel positions, in coordinates of the camera image whatever the down-sampling, are those of the matched features, nearly all of which move with the scene to within a few pixels, features seen again at the same place of the scene are followed, and no image (empty, flat, with a single feature, standing still) stops the tracker. An empty image changes nothing.",
 ["inputs", "histories", "configurations"],
 "every sequence of camera images, feature detector, descriptor and matcher, down-sampling factor and matching ratio",
 "the tests feed a few generated images and look at no track; the filters are only run on two hand-made lists",
 ["src/trackers/feature_tracker.cpp", "src/sensors/camera.cpp"], [("matching", "src/trackers/feature_tracker.cpp: RatioTest, SymmetryTest, RANSAC, DistanceTest"), ("choice of features", "src/trackers/feature_tracker.cpp: GridFeatures"), ("tracking", "src/trackers/feature_tracker.cpp: Track")], ["function results", "updates asked for by the image tracker"])
prop("C30", "A board seen in a camera image is measured at its pose in that camera",
 "An image that shows a configured board completely gives exactly one board update through that board's tracker, in the camera's own filter, at the image's time and under the image's frame id, with the configured noise and with the position and orientation the board has in the camera frame under that camera's lens (focal lengths, centre, distortion), for grid boards (markers of the square length, separated by the marker length) and charuco boards of every size, length and dictionary. An image without markers of the board's dictionary gives no update, whatever other boards it shows, and an empty image, or any image of a camera that watches nothing, changes nothing in the filter.",
 ["inputs", "configurations", "histories"],
 "every board, board pose, lens and sequence of images to several cameras",
 "the tests show blank images to the tracker; no board is ever detected in them",
 ["src/trackers/fiducial_tracker.cpp", "src/sensors/camera.cpp", "src/ekf/types.cpp", "src/utility/type_helper.cpp"], [("detection", "src/trackers/fiducial_tracker.cpp: Track, InterpolateCorners, EstimatePoseBoard"), ("dispatch", "src/sensors/camera.cpp: Callback"), ("lens", "src/ekf/types.cpp: Intrinsics")], ["updates asked for by the board tracker", "clones, estimate and covariance"])
prop("C31", "Every value of the configuration reaches the part it describes",
 "For every configuration file the simulation program makes one part per listed name, in the order of the lists, and gives it the values written under its own name: the filter its policy, thresholds, GPS-initialization options, process noise, covariance form and log rate; the debug logger its level; the trajectory its kind and parameters; each IMU, camera, GPS receiver, feature tracker and board its mounting, variances, stabilities, flags, rates, lens and simulated errors. A key that is left out takes its documented default, wherever it stands and whatever other parts are configured; orientations that are not unit quaternions are normalised; a tracker or board gets the camera id, lens and calibration flag of the camera that uses it; the longest track is that of all trackers and boards; without initial errors the filter starts at the configured pose, reference and heading.",
 ["configurations", "inputs"],
 "every file: any number of parts, any subset of keys, any values",
 "no test runs the program or reads a configuration",
 ["src/application/sim/simulation.cpp", "src/infrastructure/sim/truth_engine.cpp", "src/utility/type_helper.cpp"], [("reading the configuration", "src/application/sim/simulation.cpp: main")], ["values the parts of the program are constructed with"])
prop("C32", "A Monte-Carlo set runs one configuration in distinct, repeatable runs",
 "A configuration that asks for several runs (in the file, or on the command line, which wins) becomes that many run files, which equal it in everything but their own number, a single run each, a seed of their own if the configuration is seeded, and the duration asked for on the command line; the same request makes the same files again, and a configuration of one run is used as it is. Every run is started exactly once and writes into its own directory, which is where it is looked for when the set is evaluated; what it prints is kept. The summary reports, for the body and for every sensor whatever its id, the mean and standard deviation over the runs of each run's root-mean-square error of positions, velocities, accelerations, rates and biases against the true values interpolated at the times of the estimates, of the initialised GPS reference, and of the state sizes and durations.",
 ["inputs", "configurations", "histories"],
 "every number of runs, seed, duration, set already present, number of sensors, and every content of the log files",
 "the evaluation tools have no tests",
 ["eval/run.py", "eval/stats.py", "eval/utilities.py", "eval/input_parser.py"], [("run files", "eval/run.py: generate_mc_from_yaml"), ("running", "eval/run.py: add_jobs, run_sim"), ("finding runs and files", "eval/utilities.py: generate_mc_lists, find_and_read_data_frames"), ("statistics", "eval/stats.py: calc_sim_stats")], ["run files", "how the simulation program is started", "stats.txt"])
prop("C33", "The ROS node is the filter its parameters describe, fed by its topics",
 "For every set of ROS parameters the node makes one filter and one sensor per listed name, in order, with the values given under its own name or the declared default, as the simulation program would: process noise of all six kinds in their own places, cloning only if trackers are listed, orientations normalised, trackers and boards with the id, lens and calibration flag of their camera, the filter's window the longest track of all trackers and boards. Every message on a topic reaches exactly the sensors of its type that are subscribed to it, once each and under their own id, at the time of its header (seconds plus nanoseconds) and with its values, covariances or pixels; a camera with a tracker or board publishes each image it processed once, in colour and of the same size; every timer tick publishes the body state of the filter once. The logger prints a message, as it is, if and only if its level is at or below the configured one, and announces a changed level when INFO is shown before or after.",
 ["configurations", "histories", "inputs"],
 "every parameter set and every sequence of messages on every topic layout",
 "the node's tests need ROS, run on one parameter set and look at no value",
 ["src/application/ros/node/ekf_cal_node.cpp", "src/application/ros/ekf_cal_main.cpp", "src/sensors/ros/", "src/utility/ros_helper.cpp", "src/infrastructure/ros/ros_debug_logger.cpp"], [("parameters", "src/application/ros/node/ekf_cal_node.cpp: Initialize, DeclareSensors, LoadSensors"), ("messages", "src/application/ros/node/ekf_cal_node.cpp: ImuCallback, CameraCallback, GpsCallback; src/sensors/ros/"), ("publishing", "src/application/ros/node/ekf_cal_node.cpp: PublishState"), ("logging", "src/infrastructure/ros/ros_debug_logger.cpp")], ["values the parts are constructed with", "calls of the sensors' callbacks", "published messages", "printed lines"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
