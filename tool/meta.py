#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand; both files are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # properties
NA = []     # not applicable


def prop(pid, title, statement, over, qtext, why, files, mech, level='proof', note='', claimed=True, reason=None):
    P.append({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]},
              '_level': level, '_note': note, '_claimed': claimed, '_reason': reason})


REAL = ('Floating point is treated as exact real arithmetic and machine integers as mathematical ones; clang 18, the VC generator '
        'in tool/ and Z3 are trusted; denominators are assumed non-zero. ')

prop('C01', 'Twists and twist covariances change frame by the adjoint',
     'Given a rigid transform with rotation R and translation t, a twist (angular part w first, then linear part v) expressed in the second frame becomes (R w, t x R w + R v) in the first, and a '
     'transform covariance S becomes A S A^T with A the matrix of that same map. The matrix of a composition is the product of the matrices, that of the inverse is the inverse, and giving '
     'the transform or its precomputed matrix leads to the same covariance.',
     ['inputs'], 'every rigid transform, every twist, every 6x6 covariance',
     'The tests compare a few fixed transforms; the identities are over all rotations, translations and matrices.',
     ['eigen_ext/include/eigen_ext/geometry.hpp', 'eigen_ext/include/eigen_ext/matrix.hpp'],
     [('transform_adjoint, change_twist_reference_frame, change_covariance_frame', 'eigen_ext/include/eigen_ext/geometry.hpp')],
     note=REAL + 'All obligations discharged with no bound.')
prop('C02', 'Covariance of composed transforms',
     'Composing a state with covariance P and a relative motion T with covariance Q yields A P A^T + Q + C A^T + A C^T, where A is the adjoint of the inverse of T and C the supplied cross covariance (zero if none is given), in '
     'rotation-first order. Composing with the identity adds the covariances, and the result is symmetric whenever P and Q are.',
     ['inputs'], 'every rigid motion and every triple of covariance matrices',
     'Tests use single numeric examples.',
     ['eigen_ext/include/eigen_ext/geometry.hpp'],
     [('compose_transform_covariance', 'eigen_ext/include/eigen_ext/geometry.hpp')],
     note=REAL + 'All obligations discharged with no bound.')
prop('C03', 'Relative transforms, frame changes and constant rates',
     'The relative transform between two poses composed onto the first pose gives the second; moving a relative transform to another body-fixed frame is conjugation by the rigid transform between the frames, whether or not the inverse is supplied; '
     'a transform built from a translation and a rotation (quaternion or matrix) has exactly those parts. The constant body rates between two poses over a positive time, integrated over that time, reproduce the motion, and a time that is not positive is refused.',
     ['inputs'], 'every pair of rigid poses, every rigid frame change, every time step',
     'Tests cover hand-picked poses and time steps.',
     ['eigen_ext/include/eigen_ext/geometry.hpp'],
     [('relative_transform, change_relative_transform_frame, to_transform, linear_rates', 'eigen_ext/include/eigen_ext/geometry.hpp')],
     note=REAL + 'All obligations discharged with no bound; atan2/sin/cos axiomatised.')
prop('C04', 'Vector and matrix helpers return the quantity they name',
     'The skew-symmetric matrix of a vector multiplies like the cross product, converting back recovers the vector, and a matrix that is not skew symmetric is refused; linear interpolation is exact at and between the ends. '
     'Safe normalisation gives a unit vector of the same direction and refuses a zero vector; polar coordinates of a point off the vertical axis (range, azimuth in [0, 2 pi), inclination) convert back to that point, and a point on the axis is refused.',
     ['inputs'], 'every vector and matrix in the domain of each helper',
     'Tests sample a few vectors.',
     ['eigen_ext/include/eigen_ext/geometry.hpp', 'eigen_ext/include/eigen_ext/matrix.hpp'],
     [('skew_symmetric, from_skew_symmetric, linear_interpolate, safe_normalise', 'eigen_ext/include/eigen_ext/matrix.hpp'), ('cartesian_to_polar', 'eigen_ext/include/eigen_ext/geometry.hpp')],
     note=REAL + 'All obligations discharged with no bound; acos/sin/cos axiomatised.')
prop('C05', 'Covariance validity, reordering and rotation',
     'A matrix is accepted as a covariance exactly when it is square, finite, symmetric and positive definite as documented; swapping the two blocks of a covariance moves every entry to its '
     'block-swapped place and twice restores the original; rotating a point covariance gives R S R^T.',
     ['inputs'], 'every matrix (fixed sizes 2, 3, 4, 6 and dynamic sizes), every rotation',
     'Tests check individual matrices; asymmetric or non-finite entries in any position are not sampled.',
     ['eigen_ext/include/eigen_ext/covariance.hpp', 'eigen_ext/include/eigen_ext/matrix.hpp', 'eigen_ext/include/eigen_ext/geometry.hpp'],
     [('is_valid_covariance / is_symmetric / reorder_covariance / rotate_point_covariance', 'eigen_ext/include/eigen_ext')],
     note=REAL + 'Dynamic matrices are proved at the sizes named in the contract file.')
prop('C06', 'Precomputed transform components describe one transform',
     'Whichever way it is built, the precomputed transform holds a matrix, rotation, translation, rotation vector, angle, sine and cosine of one and the same rigid transform: '
     'the rotation is the exponential of the rotation vector, the angle its length. A zero rotation gives the identity rotation and no undefined value.',
     ['inputs'], 'every rotation vector and translation; every rigid 4x4 matrix',
     'No test covers this class beyond use in one covariance test.',
     ['eigen_ext/include/eigen_ext/precomputed_transform_components.hpp'],
     [('constructors', 'eigen_ext/include/eigen_ext/precomputed_transform_components.hpp')],
     note=REAL + 'atan2/sqrt/sin/cos are axiomatised.')
prop('C07', 'Non-linear registration Hessians are exact second derivatives',
     'For a correspondence and a pose estimate, the two Hessian blocks produced by the non-linear point-to-point and point-to-plane models equal half the exact second derivatives of the squared registration error with respect to '
     'pose and to pose and points, with the rotation given by its rotation vector. Requesting only the pose Hessian gives the same pose Hessian.',
     ['inputs'], 'every pose with a non-zero rotation, every pair of points, every normal',
     'The generated formulas have thousands of terms; the test compares one numeric example.',
     ['serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp'],
     [('compute_half_d2F_dx2 / compute_half_d2F_dzdx / process_correspondence of the non-linear models', 'serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp:180-4082')],
     note=REAL + 'Specification: hyper-dual differentiation of the error itself (contracts/icp_spec.hpp).')
prop('C08', 'Linearised registration Hessians are exact second derivatives',
     'For a correspondence and a pose estimate, the Hessian blocks of the linearised point-to-point and point-to-plane models equal half the exact second derivatives of the squared error in which the '
     'rotation is replaced by its first-order expansion. Requesting only the pose Hessian gives the same pose Hessian.',
     ['inputs'], 'every pose, every pair of points, every normal',
     'The test compares one numeric example.',
     ['serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp'],
     [('compute_half_d2F_dx2 / compute_half_d2F_dzdx / process_correspondence of the linearised models', 'serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp')],
     note=REAL + 'Specification: hyper-dual differentiation of the error itself (contracts/icp_spec.hpp).')

prop('C09', 'Registration covariances sum over all correspondences of the registration',
     'For any error model, the least squares covariance of a registration is the point variance times the inverse of the summed pose Hessians over all its correspondences, each evaluated at the source point, target point and final '
     'transform of that correspondence. The Censi covariance is variance times H^-1 D D^T H^-1 with D the mixed second derivatives of all correspondences side by side; both report the number of correspondences.',
     ['inputs'], 'every model, every pair of clouds, every list of correspondences of any length, every transform and variance',
     'Tests register one pair of clouds and do not check the assembly.',
     ['serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp'],
     [('censi_iid_covariance, lls_iid_covariance', 'serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp')],
     note=REAL + 'Any number of correspondences (loops summarised by induction, tool/loops.py). The correspondences are the contract proved in C10; Eigen\'s inverse of a 6x6 matrix is an arbitrary function of the matrix, symmetric where '
          'that is; the coefficient-based matrix product of Eigen is compiled instead of the blocked one.')
prop('C10', 'Registration correspondences pair each point with its nearest neighbour',
     'The correspondences of a registration hold, in order, one entry for each selected source point whose nearest target point after applying the final transform lies within the maximum correspondence distance: the source point, '
     'that target point and their distance. In the other direction every target point is moved by the inverse transform and paired with its nearest selected source point, and a source search not restricted to the selected points is refused.',
     ['inputs'], 'every source and target cloud of any size, every selection of source points, every final transform, every distance limit',
     'The tests register no clouds through this function.',
     ['pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp'],
     [('compute_registration_correspondences', 'pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp')],
     note=REAL + 'Clouds and selections of any size (loops summarised by induction, tool/loops.py). Assumed: the nearest neighbour search of PCL returns the nearest searched point, a function of the query point, with its squared '
          'distance (natively: brute force).')
prop('C11', 'Cloud transforms move every point and its attributes and keep the rest',
     'Transforming a point cloud gives for every point the rotated and translated position, rotated normal, and rotated unit vector or covariance (R S R^T); curvature, header, sensor pose, size and density flag are kept. '
     'Points with a non-finite coordinate in a cloud that is not dense are left as they were when all fields are copied, and it makes no difference whether the output is the input itself or held other points before. '
     'Every overload (matrix, transform, float or double) and the dispatching functions agree.',
     ['inputs'], 'every cloud of any number of points, every rigid transform, in place or not, every previous output content',
     'Tests transform no clouds with arbitrary fields, non-finite points, in-place calls or leftover output.',
     ['pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud_transform.hpp', 'serpent/include/serpent/front_end/lidar/transform_pointcloud-inl.hpp'],
     [('transform_pointcloud_with_normals_and_unit_vectors, transform_pointcloud_with_normals_and_covariances', 'pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud_transform.hpp'),
      ('TransformPointcloud dispatch', 'serpent/include/serpent/front_end/lidar/transform_pointcloud-inl.hpp')],
     note=REAL + 'Clouds of any size (loops summarised by induction, tool/loops.py). The portable (non-SSE) kernel of the installed PCL is compiled and verified; the SSE kernel of the same class is not.')
prop('C12', 'Cloud utilities treat every point',
     'Checking normals returns the number of points whose normal length differs from one by more than the threshold; extracting unit vectors returns one column per point, in order, holding that point\'s unit vector. '
     'Converting times from nanoseconds to seconds divides the time of every point by 10^9 and changes nothing else.',
     ['inputs'], 'every cloud of any number of points, every threshold',
     'No test calls these functions on arbitrary clouds.',
     ['pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud_utilities.hpp'],
     [('check_normals, extract_unit_vectors, convert_ns_to_s', 'pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud_utilities.hpp')],
     note=REAL + 'Clouds of any size (loops summarised by induction, tool/loops.py).')
prop('C13', 'Point types keep every field through construction and access',
     'Every constructor of the project point types sets every field: position, homogeneous coordinate 1, unit vector, normal, curvature, the six covariance entries, and zero padding, whatever the memory held before, and copying keeps the '
     'values. The covariance accessor is the symmetric matrix of the six stored upper-triangle entries; a point built from a pose has its translation, the rotation vector of its rotation, and gives the pose back.',
     ['inputs'], 'every field value, every previous memory content, every rigid pose',
     'Tests construct no point types with arbitrary fields or over dirty memory.',
     ['pointcloud_tools/include/pointcloud_tools/point_types.hpp', 'pointcloud_tools/src/point_types.cpp'],
     [('constructors and accessors of PointUnit, PointNormalUnit, PointCovariance, PointNormalCovariance, PointAngleAxis', 'pointcloud_tools/src/point_types.cpp')],
     note=REAL + 'All obligations discharged with no bound; atan2/sin/cos axiomatised.')
prop('C14', 'Match filters keep exactly the matches that satisfy their criterion',
     'The distance filter keeps the matches with descriptor distance at most its threshold, the stereo filter those with the left point strictly right of the right point and rows at most the threshold apart, and the depth filter those with positive disparity and '
     'focal length times baseline over disparity within its closed interval; each as configured by its current parameters. The kept matches are unchanged and in their original order, and the reported indices are their positions in the input of that call alone. '
     'A match that refers to a keypoint that does not exist is an out-of-range error.',
     ['inputs', 'histories'], 'every list of matches and keypoints of any length, every threshold, repeated calls on one filter',
     'Tests use no arbitrary match lists, and none has boundary values, repeated calls or bad indices.',
     ['serpent/src/front_end/stereo/match_filters.cpp', 'serpent/include/serpent/front_end/stereo/match_filters.hpp'],
     [('DistanceMatchFilter, StereoMatchFilter, StereoDistanceFilter', 'serpent/src/front_end/stereo/match_filters.cpp')],
     note=REAL + 'Lists of any length (loops summarised by induction, tool/loops.py); vectors are assumed to have memory for growth and loops to terminate.')
prop('C15', 'Stereo projection and backprojection are inverse',
     'A point in front of the camera projects to left, right and vertical pixel coordinates given by the pinhole model with the baseline, and a point on or behind the image plane is refused. A feature with distinct horizontal coordinates '
     'triangulates to the point with that projection, equal coordinates are refused, and the two maps are inverse of each other for a positive baseline.',
     ['inputs'], 'every point or feature, every camera matrix with non-zero focal lengths, every baseline, single and double precision',
     'No test covers the stereo equations.',
     ['serpent/include/serpent/front_end/stereo/stereo_equations.hpp'],
     [('stereo_project, stereo_backproject', 'serpent/include/serpent/front_end/stereo/stereo_equations.hpp')],
     note=REAL + 'All obligations discharged with no bound.')
prop('C16', 'Matching costs are their defining sums and stay inside the images',
     'A window is inside an image exactly when its first and last pixels are; for windows inside both images the window sum, mean and sum of squares and the costs (absolute, squared, zero-mean absolute and locally scaled absolute differences, '
     'negative normalised cross correlation) equal their defining sums over exactly the window pixels, with or without the statistics of the first window supplied. No pixel outside the images is read, and an image that is not single-channel 8-bit is refused by every cost.',
     ['inputs'], 'every pair of images of any size and row stride, every window inside both, every pixel value',
     'No test covers these functions.',
     ['serpent/src/front_end/stereo/stereo_cost_functions.cpp', 'serpent/src/front_end/stereo/window_functions.cpp'],
     [('window_sum, window_mean, window_sum_squares, window_within_image and the cost functions', 'serpent/src/front_end/stereo/stereo_cost_functions.cpp')],
     note=REAL + 'Images and windows of any size (nested loops summarised by induction, tool/loops.py); the window sums of the second image are assumed non-zero where the cost divides by them.')
prop('C17', 'Stereo matching finds the first cheapest admissible window and filters it',
     'A keypoint is matched along its row to the first window of lowest cost towards smaller columns in the right image (larger in the left one), never outside the image, and a keypoint whose window leaves the image is unmatched with maximal cost; among given keypoints the first of lowest cost within the vertical threshold, on the correct side and inside the image is chosen. '
     'The filters hold exactly: one-way keeps the best, the ratio test keeps it only when below the given fraction of the second best, two-way only when the way back finds no better window (lists: only when mutual); list forms give the result, cost and flag of each keypoint. '
     'Each matcher searches with its own defining cost over the windows compared, created matchers have the window, threshold, filter and ratio asked for, and images of different size, even windows and ratios outside (0, 1) are refused.',
     ['inputs'], 'every pair of images of any size, every keypoint, every list of keypoints, every cost function, every filter and ratio',
     'No test covers the matcher.',
     ['serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp', 'serpent/include/serpent/front_end/stereo/stereo_keypoint_matcher.hpp', 'serpent/src/front_end/stereo/stereo_cost_functions.cpp'],
     [('StereoKeyPointMatcher::keypoint_in_other_image, keypoint_index_in_other_image, the list forms and the cost of each matcher', 'serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp')],
     note=REAL + 'The search is verified against an arbitrary cost function (a subclass supplies an uninterpreted one), images, rows and lists of any size by induction (tool/loops.py). Costs are assumed below the largest double and positive for the ratio test.')
prop('C18', 'Configuration names and enumeration values match one to one',
     'Each configuration name (covariance estimation method, covariance model, point covariance method, stereo matching filter) is parsed to the value of that name and every other string is refused; printing a value gives its name and a value outside the enumeration is refused. '
     'Unit vectors are reported as required exactly for a computed covariance (CENSI or LLS) with a range-based noise model (RANGE or RANGE_BIAS), by value or by name.',
     ['inputs'], 'every string, every enumeration value and every value outside it',
     'Tests do not parse arbitrary strings.',
     ['serpent/src/front_end/lidar/registration_covariance.cpp', 'serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp'],
     [('to_covariance_estimation_method, to_covariance_estimation_model, to_point_covariance_method, to_string, to_matching_filter, requires_unit_vectors', 'serpent/src/front_end/lidar/registration_covariance.cpp')],
     note=REAL + 'Strings are compared as whole values (equality with literals); all obligations discharged with no bound.')
prop('C19', 'Eigen and GTSAM poses convert without loss',
     'Converting a rigid transform or rotation from Eigen to GTSAM keeps rotation and translation entry by entry, the conversion from GTSAM to Eigen gives a transform with the same parts and last row (0, 0, 0, 1), and both round trips are the identity.',
     ['inputs'], 'every rigid pose and rotation',
     'Tests convert a few poses.',
     ['eigen_gtsam/src/geometry.cpp', 'eigen_gtsam/include/eigen_gtsam/geometry.hpp'],
     [('to_gtsam, to_eigen', 'eigen_gtsam/src/geometry.cpp')],
     note=REAL + 'GTSAM constructors and accessors are assumed contracts (contracts/assumed/gtsam.cpp); all other obligations discharged.')

prop('C23', 'IMU buffers, pressure and message helpers keep what they should',
     'Deleting old IMU measurements from an ordered buffer removes from its front exactly the measurements older than the given time, and keeps the rest in order. A pressure measurement between two others lies on the line between them in value and variance, with '
     'the requested stamp and the frame of the first, and is refused outside their times; IMU lists, biases and poses convert to messages and back entry by entry in order. Preintegration parameters take the given covariances and are refused exactly when '
     'these are not covariances or gravity is zero.',
     ['inputs', 'histories'], 'every buffer of any length, every time, every message, every pose, bias and pair of diagonal covariances',
     'No unit test of these functions runs without ROS, and none covers every length and every time.',
     ['serpent/src/utils/utilities.cpp', 'serpent/include/serpent/utils/utilities-inl.hpp', 'serpent/src/utils/ros_conversion.cpp'],
     [('delete_old_measurements, interpolate_pressure, check_valid, update_preintegration_params', 'serpent/src/utils/utilities.cpp'), ('interpolate', 'serpent/include/serpent/utils/utilities-inl.hpp'), ('from_ros, to_ros', 'serpent/src/utils/ros_conversion.cpp')],
     note=REAL + 'ROS is not installed: message types and ros::Time are stand-ins (contracts/stubs); std::deque is replaced by a stand-in holding its elements contiguously (contracts/stubs_gtsam/deque), GTSAM pose and rotation accessors are assumed contracts '
          '(contracts/assumed/gtsam.cpp) in the proof and the real library in the native executions.')
prop('C26', 'IMU measurements are integrated over exactly the requested time',
     'Integrating a buffer of IMU measurements in time order that starts at or before the start of the interval accounts for every instant of the interval exactly once, each with the measurement last taken at or before it, '
     'and never takes a step of no or negative duration (which GTSAM refuses), also when a measurement falls exactly on either end. An interval of no length integrates nothing; a buffer of fewer than two measurements or one starting after the interval is refused.',
     ['inputs', 'histories'], 'every ordered buffer, every start and end',
     'The tests need ROS and use evenly spaced measurements; measurements exactly at an end of the interval are the corner that fails.',
     ['serpent/src/utils/utilities.cpp'],
     [('integrate_imu', 'serpent/src/utils/utilities.cpp')],
     note=REAL + 'GTSAM\'s preintegration is a stand-in that records duration and integrals of acceleration and rate and refuses non-positive steps as GTSAM does; ROS and std::deque are stand-ins (contracts/stubs).')
GRAPH = 'GTSAM and std::map are stand-ins that keep what they are given and refuse what the real ones refuse (contracts/stubs_graph); ROS time is a stand-in.'
prop('C27', 'The graph manager keeps values, factors and times under their keys',
     'Reading a pose, velocity, bias, state, timestamp or named key gives what was last set for it (through a key or through a name and offset), ranges hold exactly what lies between their keys inclusive, and what was never set is refused. '
     'Each factor connects the states its kind names with the measurement and noise given, and every new value (with the value it has by then), factor and key to marginalise is handed over exactly once, when its key is reached, while staying readable. '
     'The minimum key is the least over the named keys of at least the given priority.',
     ['inputs', 'histories'], 'every history of operations on the manager',
     'The tests set each kind of value once in order and never create a factor or hand anything over.',
     ['serpent/src/back_end/graph_manager.cpp', 'serpent/include/serpent/back_end/graph_manager-inl.hpp'],
     [('GraphManager', 'serpent/src/back_end/graph_manager.cpp'), ('add, set, update', 'serpent/include/serpent/back_end/graph_manager-inl.hpp')],
     level='other', note=REAL + 'BOUNDED: histories are discharged for one and for two operations of every kind on two keys with arbitrary values (executed natively for up to six on four keys); single factors, named keys and timestamps are discharged for every key. ' + GRAPH)
prop('C28', 'Stereo factors follow tracked features and optimisation moves the window',
     'Adding stereo features to the graph creates, for each feature also seen in the previous features, a factor for this observation and, when it was not tracked before, one for the previous observation at the key holding it, '
     'and places its landmark where the feature backprojects; each landmark belongs to the key that added it in ranges and when handed over, also when keys without features lie between. '
     'Optimising gives the optimiser every new factor and value up to the key exactly once, takes back its estimate, and then marginalises exactly the keys before the window; marginalising what is not yet optimised is refused.',
     ['inputs', 'histories'], 'every sequence of features and keys',
     'No test creates stereo factors or optimises.',
     ['serpent/src/back_end/graph_manager.cpp'],
     [('create_stereo_factors_and_values, ISAM2GraphManager', 'serpent/src/back_end/graph_manager.cpp')],
     level='other', note=REAL + 'BOUNDED: three frames with three features (tracked throughout, for two frames, seen once), with and without missed keys, and three states with windows of zero to two keys, all with arbitrary measurements and poses (executed natively on five frames with four features and on six states). Marginalisation of landmarks is not claimed. ' + GRAPH)
prop('C25', 'Covariance messages of any dimension convert without loss',
     'A covariance matrix of any size written to a covariance message (double or float, stamped or not) gives its dimension and its entries row by row, and nothing else even if the message was used before; reading the message back gives the same '
     'matrix, stamp and frame. A matrix that is not square and a message whose number of entries is not the square of its dimension are refused.',
     ['inputs'], 'every matrix, every size',
     'The ROS tests need ROS and convert symmetric matrices of one size with fresh messages.',
     ['eigen_ros/src/statistics_msgs.cpp', 'eigen_ros/include/eigen_ros/eigen_ros.hpp'],
     [('to_ros / from_ros of covariances', 'eigen_ros/src/statistics_msgs.cpp')],
     level='other', note=REAL + 'BOUNDED: discharged for every matrix of dimension 0 to 4 (the row-by-row index n r + c of a symbolic dimension is outside the loop technique), executed natively up to dimension 8. ROS is not installed: the message types are stand-ins with the members of the ROS definitions (contracts/stubs).')
prop('C20', 'Range-noise registration covariances use the noise along the measured rays',
     'For any error model, the range covariance is H^-1 D S D^T H^-1 with S block diagonal: range variance times u u^T for the unit vector u of each source and target point. In the range-bias covariance every entry of S '
     'is u_k u_l times the bias variance, plus the range variance on the diagonal; both report the number of correspondences and refuse point types that do not store unit vectors.',
     ['inputs'], 'every model, every pair of clouds, every list of correspondences, every transform and variances',
     'Tests register one pair of clouds and do not check the assembly.',
     ['serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp'],
     [('censi_range_covariance, censi_range_bias_covariance', 'serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp')],
     level='other', note=REAL + 'BOUNDED: the two formulas are discharged for one and for two correspondences with everything else symbolic (and executed natively for up to five); the refusal is proved. The correspondences are the contract proved '
          'in C10; Eigen\'s inverse of a 6x6 matrix is an arbitrary function of the matrix.')

prop('C21', 'Eigen values and ROS messages convert without loss',
     'A vector, quaternion, rotation, pose, transform, twist, odometry, IMU measurement or matrix written to a ROS message puts every number into the member of that name, with the stamp and frame names the message type is '
     'documented to carry, matrices row by row and 6x6 covariances in the ROS order (translation before rotation), and reading the message back gives the same value. An array of another shape is refused. '
     'A 3x3 matrix parameter is read row by row, is the identity when missing, and refused when too short.',
     ['inputs'], 'every value of every converted type',
     'The ROS tests need ROS and compare a hundred symmetric instances; a swapped block or transposed entry needs an unsymmetric value.',
     ['eigen_ros/src/geometry_msgs.cpp', 'eigen_ros/src/nav_msgs.cpp', 'eigen_ros/src/sensor_msgs.cpp', 'eigen_ros/src/std_msgs.cpp', 'eigen_ros/src/eigen_ros.cpp', 'eigen_ros/include/eigen_ros/eigen_ros.hpp', 'eigen_ros/include/eigen_ros/std_msgs.hpp'],
     [('to_ros / from_ros overloads, matrix3d_from_param', 'eigen_ros/src')],
     note=REAL + 'ROS is not installed: the message types, ros::Time and the parameter server are stand-ins with the members of the ROS definitions (contracts/stubs).')
prop('C22', 'Poses, odometry and IMU measurements move and interpolate rigidly',
     'Applying a transform to a pose, stamped pose or odometry composes the two, moves the covariance by the adjoint of the inverse transform and keeps what it does not concern (twist, frame names; odometry takes the new stamp). Changing the frame of an IMU '
     'measurement rotates its vectors and their covariances into the new frame and composes the orientation. An IMU measurement between two others interpolates the vectors linearly and the orientation on the sphere (unknown if either is), takes the rest '
     'from the nearer one, and is refused outside the two times.',
     ['inputs'], 'every pose, covariance, transform, odometry, pair of IMU measurements and time',
     'The tests need ROS and check three interpolation instants; no test covers apply_transform or change_frame.',
     ['eigen_ros/src/pose.cpp', 'eigen_ros/src/odometry.cpp', 'eigen_ros/src/imu.cpp', 'eigen_ros/src/twist.cpp'],
     [('apply_transform, to_transform', 'eigen_ros/src/pose.cpp'), ('apply_transform', 'eigen_ros/src/odometry.cpp'), ('Imu::change_frame, interpolate', 'eigen_ros/src/imu.cpp')],
     note=REAL + 'ROS is not installed: ros::Time is a stand-in counting nanoseconds. The orientation covariance under change_frame is not claimed (the source marks its formula as unchecked); interpolation on the sphere is Eigen\'s slerp at the time fraction.')

prop('C29', 'Stereo features keep their identity from frame to frame',
     'Every stereo pair yields first the features of the previous pair that the optical flow followed in both images and that pass the stereo and depth filters at their new positions, in order, under the identifiers they had, then the newly detected features '
     '(inside the region of interest, farther than the threshold from every followed feature of that image, matched with a cost below the limit, passing the depth filter), each under the next identifier never used before. '
     'Match k joins left feature k and right feature k, keypoint attributes are kept, and images of different size are refused. '
     'Statistics report the frame number from 0, the counts of each stage and the identifiers, for the first pair too.',
     ['inputs', 'histories'], 'every state of the tracker, every set of detected features, optical flow result, stereo match and threshold',
     'No test runs the tracker; identity holds over histories of frames, and index bookkeeping fails only for particular patterns of lost and filtered features.',
     ['serpent/src/front_end/stereo/stereo_feature_tracker.cpp', 'serpent/include/serpent/front_end/stereo/stereo_feature_tracker.hpp'],
     [('StereoFeatureTracker::process, track_previous_keypoints, remove_close_keypoints, create_filtered_new_matches, extract_matched_keypoints, append_keypoint_matches', 'serpent/src/front_end/stereo/stereo_feature_tracker.cpp')],
     level='other', note=REAL + 'The first pair and the refusal are proved for any number of features. BOUNDED: later pairs, from an arbitrary state of up to two tracked features with up to two detected ones per image (executed natively with up to five); the region of interest '
          'is only executed natively. Detector, optical flow and the match of a feature are arbitrary (C17 for the latter); OpenCV matrix headers are assumed contracts (contracts/assumed/opencv.cpp). Drawing is not claimed.')


prop('C30', 'Body frames give the configured transform between any two frames',
     'A static frame stands to the body frame as the product, down the nested frames, of the configured translations and normalised rotations (parts that are missing are zero and no rotation) or of one TF lookup from its parent where asked for; '
     'frame-to-body is the inverse, frame-to-frame the composition, and whatever involves a dynamic frame is looked up in TF, from the first frame id to the second, at the time asked. '
     'Frames, ids, aliases and flags are reported as configured, ids and aliases lead back to their frame, and duplicate names, ids or aliases, dynamic frames with options of static ones, malformed configurations and unknown frames are refused. '
     'Exactly the static frames configured here are published, relative to the body, and aliases at their frame.',
     ['inputs'], 'every tree of frames with every combination of options, every translation, rotation, TF transform and time',
     'No test builds body frames (they need a parameter server and TF); errors show only for nested, partial or mixed configurations.',
     ['eigen_ros/src/body_frames.cpp', 'eigen_ros/src/body_frames_tf.cpp', 'eigen_ros/include/eigen_ros/body_frames.hpp'],
     [('BodyFrames (constructor, process_frames, transform_from_node, lookup_transform, accessors)', 'eigen_ros/src/body_frames.cpp'), ('BodyFramesTf', 'eigen_ros/src/body_frames_tf.cpp')],
     level='other', note=REAL + 'BOUNDED: discharged for five configurations of up to five frames nested twice, which have every option, with every number arbitrary (executed natively for random trees of up to seven frames with every combination of options); refusals for one malformed '
          'configuration of each kind. The parameter server, TF, ros::Time and std::unordered_map are stand-ins (contracts/stubs_frames, with the access rules of xmlrpcpp).')
prop('C31', 'Values compare equal exactly when all their parts do',
     'Two poses, twists, odometries, IMU measurements or stamped values are equal when all their parts are, both quaternions of a rotation (q and -q) counting as equal. They are unequal as soon as a single number of a vector or covariance differs by more than '
     'rounding, the orientation is another rotation, or the stamp or a frame name differs at all. The order of the operands makes no difference.',
     ['inputs'], 'every pair of values that differ in nothing or in one part',
     'The tests need ROS and compare random values with themselves after a round trip; no test compares values that differ in one part.',
     ['eigen_ros/src/pose.cpp', 'eigen_ros/src/twist.cpp', 'eigen_ros/src/odometry.cpp', 'eigen_ros/src/imu.cpp', 'eigen_ros/include/eigen_ros/stamped.hpp'],
     [('operator==', 'eigen_ros/src/pose.cpp'), ('operator==', 'eigen_ros/src/imu.cpp')],
     note=REAL + 'Numbers are in [-10, 10] and differ by more than 1e-6; other rotations are half turns in the proof (any angle above 1e-6 natively). ROS is not installed: ros::Time is a stand-in counting nanoseconds.')


prop('C32', 'Rotated and flipped images and their camera information agree',
     'Rotating by any multiple of 90 degrees (0 included, clockwise) or flipping (horizontally, vertically or both) moves every pixel accordingly. In the camera information width and height and the two focal lengths swap for quarter turns, the principal point '
     'keeps its distance to the borders it moves with, all else is kept, and turning back restores it. Other angles and unknown flips are refused.',
     ['inputs'], 'every camera information, every angle and flip; every image up to 9x9 pixels',
     'No test covers the image operations; a wrong width or focal length shows only for images that are not square or lenses that are not symmetric.',
     ['camera_tools/src/image_operations.cpp', 'camera_tools/include/camera_tools/image_operations.hpp'],
     [('Rotate::apply, Flip::apply and their constructors', 'camera_tools/src/image_operations.cpp')],
     level='other', note=REAL + 'The camera information and the refusals are proved for all values. BOUNDED: pixels are moved by OpenCV and checked by native executions on random images and regions only. The principal point is measured from the borders as the code does (W - cx); '
          'a convention of pixel centres (W - 1 - cx) would differ by one pixel. CameraInfo is a stand-in with the members of the ROS definition.')


prop('C33', 'The registration method runs with exactly its configured options',
     'The registration object for a prefix is of the method named under it (fast_gicp when none is), and every option of that method has the value of the parameter of its name under that prefix, or its default if that is missing (35 iterations for ndt, 10 for the others; '
     'the single-threaded method always uses one thread). Names of methods, regularisations, voxel accumulations and neighbour searches give their one value; unknown names are refused.',
     ['inputs'], 'every set of given and missing parameters, every value, every name',
     'No test builds a registration method (it needs ROS and fast_gicp); a swapped key or default shows only in the quality of registrations.',
     ['serpent/include/serpent/front_end/lidar/registration_methods-inl.hpp', 'serpent/src/front_end/lidar/registration_methods.cpp'],
     [('registration_method, set_*_parameters', 'serpent/include/serpent/front_end/lidar/registration_methods-inl.hpp'), ('to_regularization_method, to_voxel_accumulation_mode, to_neighbor_search_method', 'serpent/src/front_end/lidar/registration_methods.cpp')],
     note=REAL + 'The registration classes of PCL and fast_gicp and the parameter server are stand-ins that keep the options they are given (contracts/stubs_registration); what the methods do with them is not claimed. Names of options are refused or known in contracts of their own.')


prop('C34', 'Stereo features are published as they were tracked',
     'For every stereo pair one message carries, under the header of the left image and with both camera informations, each tracked match in order with the positions of its left and right keypoint and its identifier; statistics, images and points (backprojected matches) are published when asked for, under their topics, with the same header. '
     'The detector, optical flow, filters, matcher, thresholds and region of interest of the tracker are those named by the parameters, or their defaults; a depth filter for the baseline and focal length of the cameras is made once when enabled. Unknown names, and cameras with different focal lengths or no positive baseline where it is needed, are refused.',
     ['inputs'], 'every list of tracked features, every statistics, every given or missing parameter and camera information',
     'No test runs the stereo node; a feature with the coordinate of another or a swapped option shows only as a worse trajectory.',
     ['serpent/src/front_end/stereo/stereo_factor_finder.cpp', 'serpent/include/serpent/front_end/stereo/stereo_factor_finder.hpp'],
     [('to_ros, stereo_coordinate_to_pcl_point, to_orb_score_type, to_norm_type, to_term_criteria_type, to_fast_type', 'serpent/src/front_end/stereo/stereo_factor_finder.cpp'), ('StereoFactorFinder::StereoFactorFinder, stereo_callback', 'serpent/src/front_end/stereo/stereo_factor_finder.cpp')],
     level='other', note=REAL + 'Conversions of statistics, points and names are proved; of features for zero to three arbitrary matches. BOUNDED: the configuration of the node and its callback are contracts checked by native executions only (arbitrary given and missing parameters, two pairs of images), with the real OpenCV, '
          'the tracker replaced by its contract (C29) and ROS, image transport, synchroniser and messages by stand-ins (contracts/stubs_stereo). Options of SIFT cannot be read back and are not claimed.')


def write():
    import importlib.util, glob
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 check.py setup',
         'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                     'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                     'technique': 'contracts on the real code; deductive VCs from its LLVM IR (polynomial normal form + Z3)',
                     'level': p['_level'], 'level_note': p['_note']} for p in P if p['_claimed']],
         'not_applicable': [{'property': p['id'], 'reason': p['_reason']} for p in P if not p['_claimed']]}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    for p in P:
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, p['id']
    write()
