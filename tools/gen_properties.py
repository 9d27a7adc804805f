#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech])))

X = 'extraction/include/lidar_feature_extraction/'
XA = 'extraction/app/feature_extraction.cpp'
E = 'ekf_localizer/src/'
EH = 'ekf_localizer/include/ekf_localizer/'
L = 'localization/include/lidar_feature_localization/'

p('F01', 'Edge and surface features obey the curvature thresholds and spacing',
  'In every scan line and every block of it, the points published as edges are exactly those picked by visiting points from the highest curvature down to the edge threshold, skipping any point within the padding distance of an already picked one as long as the chain of points between them is angularly connected; surfaces are picked the same way from the lowest curvature up to the surface threshold among the points the edges left untouched. Curvature of a point is the square of the sum, over the padding neighbours on each side, of the difference between their horizontal range and its own; points nearer than padding to the end of a line have none and are never features.',
  ['inputs', 'configurations'], 'every point cloud and every setting of padding, thresholds, neighbour angle and number of blocks',
  'Label tests use a dozen hand-made label arrays with a mock neighbour relation and are not even built here; no test runs the whole selection on a cloud.',
  [XA, X+'label.hpp', X+'fill.hpp', X+'curvature.hpp', X+'convolution.hpp', X+'neighbor.hpp', X+'algorithm.hpp'],
  [('EdgeLabel::Assign / SurfaceLabel::Assign', X+'label.hpp'), ('FillNeighbors', X+'fill.hpp'), ('CalcCurvature', 'extraction/src/curvature.cpp'), ('Argsort', X+'algorithm.hpp')],
  [('labels', 'label of every point of a line', XA)])
p('F02', 'Unreliable returns are never published as features',
  'A point whose horizontal range lies outside [min_range, max_range], a point on the far side of a range jump larger than the distance threshold between angularly adjacent points (and the padding points behind it that are connected to it), and a point whose range differs from both of its neighbours by more than the given ratio of its own range never appear in the edge or surface output, whatever their curvature. All other points keep the label the curvature rule gave them.',
  ['inputs', 'configurations'], 'every point cloud and every setting of the range, occlusion and parallel-beam thresholds',
  'Occlusion, range and parallel-beam tests call each labeller alone on hand-made lines; the order in which the labellers overrule each other and the ends of a line are not sampled.',
  [XA, X+'occlusion.hpp', X+'out_of_range.hpp', X+'parallel_beam.hpp', X+'range.hpp'],
  [('LabelOccludedPoints', X+'occlusion.hpp'), ('LabelOutOfRange', X+'out_of_range.hpp'), ('LabelParallelBeamPoints', X+'parallel_beam.hpp')])
p('F03', 'Each scan line is processed alone and arrival order is irrelevant',
  'The features published from one ring of a scan depend only on the points of that ring: adding, removing, corrupting or reordering points of other rings, or interleaving the points of the scan in any other order, leaves the set of features of the ring unchanged. A ring too short to be processed (fewer inner points than twice the number of blocks), or in which two neighbouring points lie at the origin so that no angle between them exists, is skipped without affecting any other ring or suppressing the output messages.',
  ['inputs', 'schedules'], 'every scan, every partition into rings and every permutation of its points',
  'Tests build one ring at a time, already sorted; no test runs several rings through one scan.',
  [XA, X+'ring.hpp', 'extraction/src/ring.cpp', X+'mapped_points.hpp'],
  [('ExtractAngleSortedRings', X+'ring.hpp'), ('RemoveSparseRings', 'extraction/src/ring.cpp')])
p('F04', 'Points of a ring are put into one consistent angular order',
  'For any finite coordinates, including points on the axes, at the origin, duplicates, denormal or very large values, the angular ordering of points is a strict weak order that agrees with the polar angle in (-pi, pi] and sorting by it yields a permutation of the ring\'s points in non-decreasing polar angle.',
  ['inputs'], 'every multiset of points',
  'The comparator test enumerates a grid of directions of one radius; it never compares two points on the same axis, where irreflexivity and transitivity can break, and std::sort on a non-order is undefined behaviour.',
  [X+'ring.hpp'], [('AHasSmallerPolarAngleThanB', X+'ring.hpp'), ('SortByAtan2', X+'ring.hpp')])
p('F05', 'Blocks partition the inner part of a scan line',
  'For every line length, padding and number of blocks, the blocks are contiguous, non-empty, pairwise disjoint and together cover exactly the points that are at least padding away from both ends, with sizes differing by at most one; a line with fewer inner points than blocks is rejected. Index arguments outside the valid blocks are refused, never clamped.',
  ['inputs', 'configurations'], 'every line length, padding and block count',
  'Tests check three fixed sizes; rounding errors in the boundary formula show only at particular combinations.',
  [X+'index_range.hpp', 'extraction/src/index_range.cpp'], [('IndexRange::Boundary', 'extraction/src/index_range.cpp')])
p('F06', 'Feature messages are consistent with the scan they come from',
  'Each received scan produces exactly one edge, one surface and one coloured cloud message, all carrying the scan\'s time stamp and the sensor frame; every published feature is a point of the scan with unchanged coordinates, none is both edge and surface or appears twice, and the coloured cloud holds every point of every processed ring once with the colour of its class. No valid scan, including empty or degenerate ones, crashes the node or stops later scans from being answered.',
  ['inputs', 'histories'], 'every sequence of scans',
  'No test runs the node.',
  [XA, 'extraction/src/color_points.cpp', X+'color_points.hpp', 'lib/include/lidar_feature_library/ros_msg.hpp'],
  [('FeatureExtraction::Callback', XA), ('ColorPointsByLabel', X+'color_points.hpp')])
p('F07', 'Range, curvature and adjacency are right on any part of a line',
  'The horizontal range of any sub-interval of a scan line is the range of exactly the points of that interval; two points are adjacent exactly when the angle between their directions is below the threshold, which holds for two points in the same direction at any pair of distances; a sliding-window sum equals its definition at every position where the window fits and is zero elsewhere. Inputs shorter than the window are refused.',
  ['inputs'], 'every sequence of points, sub-interval and window size',
  'Tests query whole lines from index 0 and a few angles; rounding of the cosine beyond 1 and intervals that do not start at 0 are never sampled.',
  [X+'range.hpp', X+'math.hpp', 'extraction/src/math.cpp', 'extraction/src/convolution.cpp', 'extraction/src/curvature.cpp', X+'neighbor.hpp'],
  [('Range::operator()', X+'range.hpp'), ('CalcRadian', 'extraction/src/math.cpp'), ('Convolution1D', 'extraction/src/convolution.cpp')])

p('K01', 'A delayed measurement corrects the estimate exactly as if it had been on time',
  'The delay filter\'s state and covariance always equal those of the ordinary Kalman filter over the stacked vector of the last N states: after any interleaving of predictions and (possibly delayed) updates, the current estimate, its covariance, and every past estimate still in the buffer follow from that filter. The covariance stays symmetric and positive semi-definite.',
  ['histories', 'inputs'], 'every sequence of predictions and updates with any delay within the buffer, any dimension and any buffer length',
  'The test checks one prediction and one update with 3 delay steps.',
  ['kalman_filter/src/time_delay_kalman_filter.cpp', 'kalman_filter/include/kalman_filter/time_delay_kalman_filter.hpp', 'kalman_filter/include/kalman_filter/kalman_filter.hpp'],
  [('updateP', 'kalman_filter/src/time_delay_kalman_filter.cpp'), ('UpdateWithDelay', 'kalman_filter/src/time_delay_kalman_filter.cpp')],
  [('x_, P_', 'stacked state and covariance', 'kalman_filter/include/kalman_filter/time_delay_kalman_filter.hpp')])
p('K02', 'A refused filter update leaves the estimate untouched',
  'An update whose delay exceeds the buffer or whose gain would not be finite is refused with an error and changes neither the estimate, its covariance, nor any past estimate; the filter keeps working afterwards as if the refused update had never been offered.',
  ['histories', 'fault_sequences'], 'every history containing refused updates at any point',
  'Tests check only that an exception is thrown.',
  ['kalman_filter/src/time_delay_kalman_filter.cpp', 'kalman_filter/src/kalman_filter.cpp'],
  [('UpdateWithDelay', 'kalman_filter/src/time_delay_kalman_filter.cpp')])

p('K03', 'The ordinary Kalman filter follows its model and refuses what it cannot use',
  'For every model, start and sequence of calls, the ordinary Kalman filter predicts with its own or the given model, corrects with its own measurement model, and always holds the estimate and covariance that the Kalman recursion gives for the accepted calls since the last start; an update whose gain is not finite is refused with an error and changes nothing, and a new start replaces estimate and covariance and keeps the model.',
  ['inputs', 'histories'], 'every model and sequence of predictions, updates and starts',
  'No test uses the class.',
  ['kalman_filter/src/kalman_filter.cpp', 'kalman_filter/include/kalman_filter/kalman_filter.hpp'],
  [('KalmanFilter::update', 'kalman_filter/src/kalman_filter.cpp'), ('KalmanFilter::predict', 'kalman_filter/src/kalman_filter.cpp')])
p('E01', 'Each measurement is fused exactly smoothing-steps times, once per tick, in order',
  'Every pose (twist) message received after initialisation takes part in exactly the configured number of consecutive filter ticks, once per tick, first-in first-out among messages of its kind and poses before twists, and in none afterwards. A new initial pose discards everything still waiting, and a message rejected in one tick still uses up that tick of its life.',
  ['histories', 'schedules', 'configurations'], 'every interleaving of ticks, messages and re-initialisations, every smoothing setting',
  'The queue test pushes and pops one message; no test drives the node with several waiting messages.',
  [EH+'aged_message_queue.hpp', E+'pose_measurement.cpp', E+'twist_measurement.cpp', E+'ekf_localizer.cpp'],
  [('AgedMessageQueue::pop', EH+'aged_message_queue.hpp'), ('PoseMeasurement::Update', E+'pose_measurement.cpp'), ('TwistMeasurement::Update', E+'twist_measurement.cpp')],
  [('messages_', 'waiting messages with their age', EH+'aged_message_queue.hpp')])
p('E02', 'Only admissible measurements reach the filter',
  'A measurement is fused in a tick if and only if its delay, rounded to whole ticks, is smaller than the filter\'s history, its values are finite, and its Mahalanobis distance from the estimate at its own time is within the gate; a stamp in the future counts as no delay and a wrong frame id only warns. Stamps are non-negative. However old, malformed or far off a message is (zero stamps, NaN, infinite or singular covariance), it never changes the estimate when inadmissible and never crashes the node.',
  ['inputs', 'histories', 'configurations'], 'every message content, stamp and gate setting at every point of a history',
  'Check functions are tested one value each; the conversion of a huge delay to a step count and the combination of checks are not sampled.',
  [E+'check.cpp', EH+'delay.hpp', E+'mahalanobis.cpp', E+'pose_measurement.cpp', E+'twist_measurement.cpp'],
  [('ComputeDelayStep', EH+'delay.hpp'), ('MahalanobisGate', E+'mahalanobis.cpp'), ('CheckMeasurementMatrixNanInf', E+'check.cpp')])
p('E03', 'Prediction follows the motion model over the real elapsed time',
  'Each tick advances the estimate by the unicycle motion model and its exact linearisation over the time since the previous tick, with process noise proportional to the squared elapsed time on heading, heading bias, speed and turn rate; the first tick uses the nominal period and a gap never counts for more than ten seconds. If the clock went backwards, the tick changes nothing and publishes nothing, and later ticks continue from the last good time.',
  ['histories', 'schedules', 'configurations'], 'every sequence of tick times and noise settings',
  'Tests check one prediction and two time steps.',
  [E+'state_transition.cpp', E+'update_interval.cpp', E+'ekf_localizer.cpp', EH+'ekf_localizer.hpp'],
  [('predictNextState', E+'state_transition.cpp'), ('createStateTransitionMatrix', E+'state_transition.cpp'), ('UpdateInterval::Compute', E+'update_interval.cpp')])
p('E04', 'One odometry message and one transform per tick, describing the estimate',
  'Before the first initial pose nothing is published; afterwards every accepted tick publishes exactly one odometry message and one map-to-base_link transform, both stamped with the current time and both describing the same pose: estimated position, smoothed height, roll and pitch, and heading plus heading bias, with the estimate\'s pose and twist covariances in the corresponding entries and speed and turn rate as twist. Messages alone never cause output.',
  ['histories', 'schedules'], 'every interleaving of ticks, initial poses and messages',
  'The node test only checks that something arrives.',
  [E+'ekf_localizer.cpp', E+'covariance.cpp', 'lib/src/ros_msg.cpp'],
  [('publishEstimateResult', E+'ekf_localizer.cpp'), ('EKFCovarianceToPoseMessageCovariance', E+'covariance.cpp')])
p('E05', 'The estimate stays finite and heading is treated as an angle',
  'From any finite initial pose no sequence of messages, however malformed, makes the published pose, twist or covariance non-finite, and the published orientation is always a unit quaternion. Headings that differ by full turns are interchangeable: a pose measurement on the other side of the +-pi cut pulls the heading the short way round.',
  ['histories', 'inputs'], 'every message history, every heading',
  'No test uses headings near the cut or feeds malformed values through the node.',
  [E+'pose_measurement.cpp', EH+'normalize_yaw.hpp', EH+'ekf_localizer.hpp', E+'state_transition.cpp'],
  [('PoseMeasurement::Update', E+'pose_measurement.cpp'), ('Simple1DFilter::update', EH+'ekf_localizer.hpp'), ('normalizeYaw', E+'state_transition.cpp')])
p('E06', 'Accepted measurements are weighted by their own covariance',
  'A fused pose observes x, y and heading (a fused twist speed and turn rate) at the tick its stamp refers to, with its own covariance for those components multiplied by the number of smoothing steps; height, roll and pitch follow a scalar Kalman filter over all received poses with finite values and variances, weighted by their variances and the time between them.',
  ['histories', 'inputs', 'configurations'], 'every message content, covariance, delay and smoothing setting',
  'Matrix helpers are tested once each; no test compares a fused estimate with the Kalman result.',
  [E+'pose_measurement.cpp', E+'twist_measurement.cpp', EH+'ekf_localizer.hpp'],
  [('PoseMeasurementCovariance', E+'pose_measurement.cpp'), ('TwistMeasurementCovariance', E+'twist_measurement.cpp'), ('Simple1DFilter', EH+'ekf_localizer.hpp')])
p('E07', 'An initial pose restarts the filter in the map frame or changes nothing',
  'An initial pose given in a frame with a known planar transform to the map frame restarts the filter at that pose expressed in the map frame, with its position and heading variances, zero speed, turn rate and bias, and an empty history. If the transform is unknown after the retry period the message has no effect: the node survives and any running estimate continues unchanged.',
  ['histories', 'fault_sequences'], 'every initial pose, transform, point of a history, and availability pattern of the transform',
  'Tests cover only a successful lookup of one transform.',
  [E+'ekf_localizer.cpp', E+'tf.cpp', E+'string.cpp'],
  [('callbackInitialPose', E+'ekf_localizer.cpp'), ('LookupTransform', E+'tf.cpp')])

p('L01', 'The prior store returns the pose closest in time and survives cleaning',
  'Among the stored poses the store always returns one whose stamp is closest to the query (the later one on a tie), a newer insertion at the same stamp replaces the older one, and its size is the number of distinct stamps kept. Cleaning at a given time keeps every pose stamped at or before that time, drops those after it, and leaves the store usable for any sequence of operations, even when every stored pose is after it.',
  ['histories', 'inputs'], 'every sequence of insertions, queries and cleanings',
  'Tests clean once in the middle of a list; cleaning before the first stamp is never tried.',
  [L+'stamp_sorted_objects.hpp'], [('GetClosest', L+'stamp_sorted_objects.hpp'), ('RemoveOlderThan', L+'stamp_sorted_objects.hpp')],
  [('objects_', 'poses by stamp', L+'stamp_sorted_objects.hpp')])
p('L02', 'One pose and one transform per matched scan pair, started from the nearest prior',
  'The localizer publishes exactly one pose and one transform for each pair of edge and surface scans with equal stamps received after a prior pose is available, both carrying that stamp, the map frame and the same pose, which is the result of registering the pair starting from the prior nearest in time; unmatched scans and scans before any prior produce nothing. Scans are matched exactly by stamp among the latest ten of each kind, and priors newer than one second after the last result are no longer candidates. Priors arrive on either the pose or the odometry topic with the same effect, and no history of priors and scans crashes the node.',
  ['histories', 'schedules'], 'every interleaving of edge scans, surface scans and priors with any stamps',
  'No test runs the node.',
  [L+'subscriber.hpp', L+'localizer.hpp', 'localization/app/localization.cpp'],
  [('PoseUpdateCallback', L+'subscriber.hpp'), ('Localizer::Update', L+'localizer.hpp')],
  [('prior_poses_', 'priors by stamp', L+'subscriber.hpp')])
p('L03', 'Registration always terminates with a verdict that matches its outcome',
  'Scan registration makes at most the configured number of steps; it reports failure and returns the pose reached so far when there is nothing to register, failure after the last allowed step, success when a step is below the convergence limits or when the total error or its spread grew, and the returned pose is the initial pose composed with exactly the steps taken. Each step is the robust weighted least-squares step of the current residuals, which are finite, and no step is taken in a degenerate geometry.',
  ['inputs', 'histories', 'configurations'], 'every problem, initial pose and iteration limit',
  'Tests run a few well-conditioned alignments to convergence; the other exits are not exercised as sequences.',
  [L+'optimizer.hpp', 'localization/src/optimizer.cpp', L+'optimization_result.hpp', 'localization/src/degenerate.cpp', 'localization/src/posevec.cpp'],
  [('Optimizer::Run', L+'optimizer.hpp'), ('WeightedUpdate', 'localization/src/optimizer.cpp')])
p('L04', 'Residuals measure the distance to the local map and derivatives match them',
  'For every edge point of the scan and every occupied one-metre cell of its surface points (taken at the mean of the cell) there are residuals: the edge residual is the cross product to the line through the centroid of its nearest map points along their principal direction, the surface residual the signed distance to the plane fitted to its nearest map points, and the reported derivatives are the derivatives of these residuals with respect to rotation and translation. Rows of the two kinds are all present, edges before surfaces.',
  ['inputs'], 'every map, scan and pose',
  'Tests check single formulas at one or two points and not the assembled problem.',
  [L+'edge.hpp', L+'surface.hpp', L+'loam_optimization_problem.hpp', 'localization/src/edge.cpp', 'localization/src/jacobian.cpp', 'localization/src/alignment.cpp'],
  [('Edge::Make', L+'edge.hpp'), ('Surface::Make', L+'surface.hpp'), ('LOAMOptimizationProblem::Make', L+'loam_optimization_problem.hpp')])
p('L05', 'Nearest-neighbour queries are exact',
  'A query for k neighbours returns the k stored points closest to the query position in increasing distance, together with their squared distances, for every map with at least k points and every query, including duplicates and queries far outside the map.',
  ['inputs'], 'every point set, query and k',
  'One test with four points.',
  [L+'kdtree.hpp', 'localization/src/kdtree.cpp', L+'pointcloud_to_matrix.hpp', L+'point_to_vector.hpp'],
  [('NearestKSearch', 'localization/src/kdtree.cpp')])
p('L06', 'Odometry registers each scan against a window of recent scans',
  'The first scan defines the map at the identity pose; every later scan is registered, starting from the current pose, against exactly the most recent N scans placed at the poses estimated for them, and then joins the map at its own estimated pose. The window holds all scans while fewer than N have been seen and never reorders, loses or duplicates points.',
  ['histories', 'configurations'], 'every sequence of scans and window length',
  'Tests use a mock with one or two updates.',
  [L+'odometry.hpp', L+'recent_scans.hpp', L+'point_cloud_map.hpp'],
  [('Odometry::Update', L+'odometry.hpp'), ('RecentScans::GetRecent', L+'recent_scans.hpp')])

p('M01', 'The map grows by exactly the keyframes, each placed at its pose',
  'A cloud paired with a pose is added to the map if and only if it is non-empty and the map is empty or the pose moved at least one metre or rotated by at least the rotation limit since the last added cloud; an added cloud appears once, transformed by its pose, with its other channels unchanged, and skipped or empty clouds affect neither the map nor the reference pose.',
  ['histories', 'inputs'], 'every sequence of cloud and pose pairs',
  'Tests add one cloud and check the pose-difference predicate at a few values.',
  ['mapping/include/lidar_feature_mapping/map.hpp', 'lib/include/lidar_feature_library/pcl_utils.hpp'],
  [('MapBuilder::Callback', 'mapping/include/lidar_feature_mapping/map.hpp'), ('PoseDiffIsSufficientlySmall', 'mapping/include/lidar_feature_mapping/map.hpp')],
  [('map_, prev_transform_', 'accumulated map and last key pose', 'mapping/include/lidar_feature_mapping/map.hpp')])
p('M02', 'Only clouds and poses of the same stamp are paired, and the map is saved once',
  'The mapper uses a cloud only together with the pose carrying exactly the same stamp, whichever arrives first, and each at most once, as long as no more than a thousand stamps wait for their partner. When it is stopped it writes the accumulated map to the map file with every point and channel, and writes no file when the map is empty.',
  ['histories', 'schedules'], 'every interleaving and loss pattern of clouds and poses',
  'No test runs the node.',
  ['mapping/src/mapping.cpp', 'mapping/include/lidar_feature_mapping/map.hpp'],
  [('MapSubscriber', 'mapping/src/mapping.cpp'), ('MapBuilder::SaveMap', 'mapping/include/lidar_feature_mapping/map.hpp')])
p('M03', 'The path is the complete history of received poses',
  'For each received pose the path generator publishes exactly one path that lists every pose received so far, in order of arrival, each with its own header and unchanged pose, under the header of the latest pose; it subscribes reliably and without a queue limit, so that no pose is dropped.',
  ['histories'], 'every sequence of pose messages',
  'Tests publish two poses.',
  ['path_generator/include/path_generator/path_generator.hpp', 'path_generator/src/node.cpp'],
  [('PathGenerator::Publish', 'path_generator/include/path_generator/path_generator.hpp')])
p('M04', 'The map loader publishes the file and the viewer frame sits at its centroid',
  'The map loader publishes the points of the configured file once, complete, unchanged and in the map frame, to late subscribers as well, and refuses to start without a file name. For each non-empty map received the transform generator broadcasts one static, unrotated transform from the configured map frame to the configured viewer frame, located at the mean of all its points; it also receives a map published before it started.',
  ['inputs', 'configurations', 'histories'], 'every map file, frame configuration and sequence of maps',
  'There are no tests of these nodes.',
  ['map_loader/src/map_loader.cpp', 'map_tf_generator/src/map_tf_generator_node.cpp'],
  [('LoadMap', 'map_loader/src/map_loader.cpp'), ('onPointCloud', 'map_tf_generator/src/map_tf_generator_node.cpp')])
p('C01', 'Converted clouds carry every valid point with its own values',
  'For each incoming cloud, of any point layout (disjoint fields, rows without padding) and byte order whose fields contain x, y, z, intensity and an unsigned ring number, with values the output types can hold, the converter publishes one cloud with the same header containing exactly the points not at the origin, in order, each with its own x, y, z, intensity and ring in the declared output layout; other fields are dropped, and no input makes the values of one field or point appear in another.',
  ['inputs', 'configurations'], 'every field layout, byte order, point step and payload',
  'Tests use one layout that already matches the output order.',
  ['point_type_converter/point_type_converter/convert.py'],
  [('PointTypeConverter.callback', 'point_type_converter/point_type_converter/convert.py'), ('filter_point_data', 'point_type_converter/point_type_converter/convert.py')])
p('S01', 'Launched nodes are wired into a pipeline that loses no scan',
  'Under the localization and mapping launch files, whatever topic arguments are given, the nodes are connected exactly as documented: sensor points to the converter, its output to the extraction, both extracted clouds to the localization (the edge cloud to the mapper), the localization result to the filter and the filter state back to the localization as its start, with the external inputs and map outputs on the topics of the launch arguments; both ends of each link have the same message type and compatible quality of service, links between nodes are reliable and the localization queues scans without limit, and every parameter set is one its node declares with that type. With those links, in every start and delivery order, maps reach late viewers and each scan sent while all nodes run and a start pose is known, no bounded queue overflowing, is localized once, in order, and fused.',
  ['configurations', 'schedules', 'histories'], 'every set of launch arguments and every order of node start and message delivery',
  'No test starts more than one node or reads a launch file.',
  ['lidar_feature_launch/launch/localization.launch.py', 'lidar_feature_launch/launch/mapping.launch.py', 'lidar_feature_launch/config/lidar_feature_extraction.param.yaml', 'localization/app/localization.cpp', 'extraction/app/feature_extraction.cpp', 'ekf_localizer/src/ekf_localizer.cpp'],
  [('generate_launch_description', 'lidar_feature_launch/launch/localization.launch.py'), ('generate_launch_description', 'lidar_feature_launch/launch/mapping.launch.py'), ('best_effort_keep_all', 'point_type_converter/point_type_converter/convert.py')])
p('S02', 'A vehicle stays localized while driving through a place it has mapped',
  'With the launched extraction parameters and default parameters elsewhere, in rooms with walls, floor, ceiling and pillars (15 to 24 m by 13 to 19 m, 16 rings of 360 beams, 4 mm of range noise, 1 % of beams without return): the extracted features of each scan are points the sensor saw; the maps built from a lap of known poses hold exactly the features of the accepted key clouds placed at their poses, and are saved, read back and served unchanged; every scan registered against these maps from a start off by up to 0.5 m and 5.5 degrees of heading is answered exactly once, never from further away than that, and all but at most one answer in eight are within 0.1 m and 1 degree of the truth; and when filter and registration feed each other from an initial pose off by up to 0.3 m and 4 degrees, at up to 1 m/s with five scans a second, the error of the filter never grows by more than the motion of a tick and noise between answers, goes a twentieth of the way to that of every answer fused (up to noise and the drift its heading error causes), and the vehicle is never lost.',
  ['inputs', 'histories', 'configurations'], 'every room of this kind, every lap, start and drive in it',
  'The tests check one component each on a handful of points; none runs the chain from sensor cloud to fused pose.',
  ['extraction/app/feature_extraction.cpp', 'mapping/src/mapping.cpp', 'localization/app/localization.cpp', 'localization/include/lidar_feature_localization/optimizer.hpp', 'ekf_localizer/src/ekf_localizer.cpp', 'map_loader/src/map_loader.cpp'],
  [('Localizer::Update', 'localization/include/lidar_feature_localization/localizer.hpp'), ('Optimizer::Run', 'localization/include/lidar_feature_localization/optimizer.hpp'), ('EKFLocalizer::timerCallback', 'ekf_localizer/src/ekf_localizer.cpp')])
p('R01', 'Rotation primitives satisfy their algebraic laws',
  'For all quaternions, vectors and angles: the hat matrix acts as the cross product, the left and right multiplication matrices act as quaternion multiplication, roll-pitch-yaw conversion equals the product of the three elementary rotations, the rotation-vector exponential is the unit quaternion of that rotation (to eight decimals also near zero), and the rotation derivative is the derivative of the rotated point with respect to each quaternion component.',
  ['inputs'], 'every quaternion, vector and angle',
  'Tests sample one or two values of each.',
  ['rotationlib/src/hat.cpp', 'rotationlib/src/quaternion.cpp', 'rotationlib/src/jacobian/quaternion.cpp', 'localization/src/posevec.cpp'],
  [('DRpDq', 'rotationlib/src/jacobian/quaternion.cpp'), ('RPYToQuaternionXYZ', 'rotationlib/src/quaternion.cpp'), ('AngleAxisToQuaternion', 'localization/src/posevec.cpp')])
p('R02', 'Medians, robust scale and robust weights match their definitions',
  'For every non-empty sequence the median is the middle element or the mean of the two middle elements of the sorted sequence whatever the input order, the robust scale is the fixed multiple of the median absolute deviation, and the Huber cost is continuous and its weight is its derivative on both sides of the threshold; empty sequences are refused.',
  ['inputs'], 'every sequence of values and every order of it',
  'Tests sample a handful of sequences.',
  ['lib/src/stats.cpp', 'localization/src/robust.cpp', 'lib/src/algorithm.cpp', 'lib/src/random.cpp'],
  [('Median', 'lib/src/stats.cpp'), ('MedianAbsoluteDeviation', 'localization/src/robust.cpp'), ('Huber', 'localization/src/robust.cpp')])
p('R03', 'Conversions between messages, matrices and clouds lose nothing',
  'Converting poses, transforms, covariances, twists, points and clouds between messages and matrices and back yields the same values in the same places, with the given stamp and frames, for every finite value; row selection, stacking and rigid transformation of points act on each element by its own index.',
  ['inputs'], 'every finite pose, covariance and cloud',
  'The conversion tests are excluded from the build here and use identity-like values that hide swapped indices.',
  ['lib/src/ros_msg.cpp', 'lib/src/eigen.cpp', 'lib/src/pcl_utils.cpp', 'lib/include/lidar_feature_library/ros_msg.hpp'],
  [('MakePoseWithCovarianceStamped', 'lib/src/ros_msg.cpp'), ('GetEigenCovariance', 'lib/src/eigen.cpp'), ('TransformXYZ', 'lib/src/eigen.cpp')])
p('A01', 'Localisation on real recordings stays within the advertised accuracy',
  'On real sensor recordings of a mapped area the published pose stays close to the ground truth for the whole drive, and every scan is answered before the next one arrives.',
  ['inputs', 'schedules'], 'every recorded drive and host load',
  'The tests contain no recordings and no timing.',
  ['localization/app/localization.cpp', 'extraction/app/feature_extraction.cpp', 'ekf_localizer/src/ekf_localizer.cpp'],
  [('Localizer::Update', L+'localizer.hpp')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for q in P:
            f.write(json.dumps(q) + '\n')
    print(len(P))
