"""The properties, in one table. mk.py writes properties.jsonl and MANIFEST.json from it."""

NOTE_CXX = "Every obligation is discharged for all real inputs on clang's IR of the current sources; floating point is read as exact reals, libm by its definitions. The same contracts run on the natively compiled code to find a failing input. "
NOTE_PY = "Every obligation is discharged for all inputs by executing the current Python functions on symbolic values, path by path; floating point is read as exact reals. The same contracts run on concrete inputs to find a failing input. "

PROPS = [
    dict(
        id="P01", title="Geodetic conversions are exact inverses and follow WGS84",
        statement="Converting a latitude, longitude and altitude to earth-centred coordinates gives the WGS84 point, the local east-north-up frame of a reference is a rigid frame with its origin at the reference, and conversions back recover the input. "
                  "Converting to local coordinates and back, in Python and in C++, are mutually inverse for every reference, and both languages compute the same values.",
        quant="every latitude, longitude, altitude and every reference (all real values in their ranges)",
        why="tests sample a handful of places and one reference; the conversions must agree for every coordinate, on both hemispheres and at every altitude",
        files=["opensfm/geo.py", "opensfm/src/geo/geo.h", "opensfm/src/geo/src/geo.cc"],
        mech=[("ecef_from_lla, lla_from_ecef", "opensfm/geo.py"), ("ecef_from_topocentric_transform, TopocentricConverter", "opensfm/geo.py"), ("geo::TopocentricConverter", "opensfm/src/geo/src/geo.cc")],
        observe=["return values of the geo module and of the C++ TopocentricConverter"],
        note=NOTE_CXX + "lla_from_ecef's closed-form approximation is checked for accuracy at run time only (bounded)."),
    dict(
        id="P02", title="Every camera model follows its equations and inverts its projection",
        statement="For each projection type, projecting a point in front of the camera gives the image coordinates of the documented projection, distortion and affine equations with the documented parameters. "
                  "Taking the bearing of a projected point returns the normalised direction of that point, and pixel and normalised image coordinates convert into each other without loss. "
                  "Reading or setting a parameter by its name touches that parameter only.",
        quant="every point, every parameter value of each of the ten models, every image size listed",
        why="tests project a few random points with one parameter set per model; equations, parameter order and inverse must hold for all points and parameters",
        files=["opensfm/src/geometry/camera.h", "opensfm/src/geometry/src/camera.cc", "opensfm/src/geometry/camera_instances.h", "opensfm/src/geometry/camera_projections_functions.h", "opensfm/src/geometry/camera_distortions_functions.h",
               "opensfm/src/geometry/transformations_functions.h", "opensfm/src/foundation/newton_raphson.h"],
        mech=[("projection, distortion and affine functors", "opensfm/src/geometry/*_functions.h"), ("composition and parameter order", "opensfm/src/geometry/camera_instances.h"), ("Camera", "opensfm/src/geometry/src/camera.cc"), ("NewtonRaphson", "opensfm/src/foundation/newton_raphson.h")],
        observe=["Camera::Project, Camera::Bearing, parameter getters and setters, pixel coordinate conversions"],
        note=NOTE_CXX + "Convergence of the Newton iteration is assumed (its step and the systems it solves are proved) and checked at run time only; degenerate neighbourhoods of the optical axis are left out of the inverse."),
    dict(
        id="P03", title="Analytic camera and pose derivatives are the true derivatives",
        statement="The Jacobians returned with a projection, distortion, affine, pose or normalisation function, and with their compositions with a pose or a rig, are the partial derivatives of the value returned, with respect to the point and to each parameter, in the documented order.",
        quant="every point and parameter value inside of the domain of each function, including near-zero rotations and points on the optical axis",
        why="tests compare with automatic differentiation at a few random points; wrong branches (small angles) and wrong columns at untested parameters go unnoticed",
        files=["opensfm/src/geometry/functions.h", "opensfm/src/geometry/transformations_functions.h", "opensfm/src/geometry/camera_projections_functions.h", "opensfm/src/geometry/camera_distortions_functions.h", "opensfm/src/geometry/camera_instances.h"],
        mech=[("ForwardDerivatives of every functor", "opensfm/src/geometry/*_functions.h"), ("ComposeForwardDerivatives, ComposeDerivatives", "opensfm/src/geometry/functions.h")],
        observe=["ForwardDerivatives, Project*Derivatives"],
        note=NOTE_CXX + "The compositions are proved modularly: the callees are replaced by arbitrary values and Jacobians, and the result must be the chain rule of them."),
    dict(
        id="P04", title="Poses, similarities and rigs stay one consistent rigid transformation",
        statement="After every constructor, setter, composition, inversion or relative pose, the world-to-camera and camera-to-world transforms, the origin and both rotation vectors of a pose describe the same rigid transformation, which is the one the operation documents; similarities likewise apply scale, rotation and translation and invert. "
                  "The pose of a shot in a rig is the rig camera pose composed with the instance pose, updating the instance through a shot gives that shot the requested pose, and poses of rig shots cannot be set directly.",
        quant="every rotation, translation, scale and point, from every consistent state before the operation, in every order of operations (each one preserves the invariant)", over=["inputs", "histories"],
        why="tests set a few poses in one order; a setter that leaves one of the six redundant fields stale only shows in the histories that read it",
        files=["opensfm/src/geometry/pose.h", "opensfm/src/geometry/similarity.h", "opensfm/src/geometry/transformations_functions.h", "opensfm/src/map/rig.h", "opensfm/src/map/src/rig.cc", "opensfm/src/map/src/shot.cc"],
        mech=[("Pose", "opensfm/src/geometry/pose.h"), ("Similarity", "opensfm/src/geometry/similarity.h"), ("RigInstance", "opensfm/src/map/src/rig.cc"), ("Shot::GetPose, SetPose", "opensfm/src/map/src/shot.cc")],
        state=[("cam_to_world_, world_to_cam_, r_min_*", "redundant forms of one transformation", "opensfm/src/geometry/pose.h")],
        observe=["getters and transforms of Pose, Similarity, Shot, RigInstance"],
        note=NOTE_CXX + "Rotations are parametrised by all non-zero quaternions; rotation vectors use the separately proved contract of the matrix-to-vector conversion (rotation angle above 2e-6). The rig obligations are for an instance of two shots."),
    dict(
        id="P05", title="Bundle adjustment minimises the documented problem",
        statement="For every registered shot, point, observation, prior and relative constraint, the problem handed to the solver contains exactly the documented residual: the reprojection error of the observed camera model through the rig instance and rig camera, the priors on camera parameters, poses, points and similarity groups scaled by their standard deviations, and each relative motion, rotation, common position, up vector, pan, tilt, roll, heatmap, linear motion and gauge term, of the right parameter blocks with the configured loss. "
                  "Analytic Jacobians equal the derivatives of the residuals they come with, fixed quantities stay fixed, and the values read back after the run are the values of the optimised blocks.",
        quant="every pose, point, observation, camera parameter, deviation and scale, for each camera model, rig layout, option and constraint kind listed",
        why="end-to-end tests only see that a few scenes converge; a term of the wrong shot, a wrong scale or a frozen parameter still converges on them, to the wrong place",
        files=["opensfm/src/bundle/src/bundle_adjuster.cc", "opensfm/src/bundle/bundle_adjuster.h", "opensfm/src/bundle/error/*.h", "opensfm/src/bundle/data/*.h", "opensfm/src/bundle/src/data/*.cc"],
        mech=[("BundleAdjuster::Run and the Add* methods", "opensfm/src/bundle/src/bundle_adjuster.cc"), ("cost functors", "opensfm/src/bundle/error/*.h"), ("parameter blocks, priors", "opensfm/src/bundle/data/*.h")],
        observe=["the ceres problem: residuals, parameter blocks, constancy, bounds, loss functions, Jacobians; getters after Run"],
        note=NOTE_CXX + "ceres::Solve is replaced by a stand-in that evaluates every residual block at symbolic parameter values and perturbs the free ones. Scenes have one point, up to three shots and the stated rig layouts. Projections, rotations, rotation products and bicubic interpolation enter by contracts proved in P02, P03, P04 and in the functors here; auto-differentiation of ceres is trusted."),
    dict(
        id="P06", title="Python rotations and transformations follow their conventions and invert",
        statement="Pan-tilt-roll, omega-phi-kappa, Euler angles of every axis sequence, quaternions and rotation matrices convert into each other without changing the rotation, and each matrix is the documented product of elementary rotations. "
                  "Registering a point set to its image under a similarity returns that similarity; plane, homography, K[R|t] and compass helpers return proper rotations and decompositions that recompose. "
                  "Poses from the robust estimators are inverted into world-to-camera form, rays of a ground control point are built from the shots that observe it, and upright coordinates follow the EXIF orientation.",
        quant="every angle, axis, quaternion, rotation, point, scale and image size in the stated open ranges; each of the 24 Euler sequences and four EXIF orientations",
        why="tests sample a few rotations; sign and branch errors show only for particular quadrants, axis sequences or degenerate planes",
        files=["opensfm/geometry.py", "opensfm/transformations.py", "opensfm/multiview.py", "opensfm/upright.py"],
        mech=[("ptr/opk conversions", "opensfm/geometry.py"), ("euler, quaternion and registration functions", "opensfm/transformations.py"), ("closed forms and pose wrappers", "opensfm/multiview.py"), ("opensfm_to_upright", "opensfm/upright.py")],
        observe=["return values of the functions"],
        note=NOTE_PY + "cv2.Rodrigues and numpy's svd, eigh and qr enter by their contracts, and the matrices handed to them are obligations. Slerp, the vertical plane, plane fitting and homography decompositions are checked at run time only (bounded)."),
    dict(
        id="P07", title="Triangulation, essential matrices and relative/absolute pose are exact",
        statement="The midpoint triangulation is the point closest to its rays, and a triangulated point is accepted exactly when two rays meet at an angle inside the stated range, every reprojection angle is below its threshold and every depth above the minimum. "
                  "The DLT, eight- and five-point systems are the equations of their constraints; the five-point action matrix and its solutions are those of the polynomial system. "
                  "The pose taken from an essential matrix is the decomposition of largest score, rotations and translations between point sets are the least-squares ones (always proper rotations), and angles between vectors lie in [0, pi] including opposite vectors. The inverse covariance of a point is the sum of J^T J over its observations.",
        quant="every ray, bearing, center, threshold, essential basis and pose within the stated non-degeneracy conditions; one to three views per loop (five and nine points for essential matrices)",
        why="tests check a few noise-free synthetic scenes; sign, threshold and candidate-selection errors need rays behind a camera, points at infinity, opposite vectors or reflected correlations",
        files=["opensfm/src/geometry/triangulation.h", "opensfm/src/geometry/src/triangulation.cc", "opensfm/src/geometry/essential.h", "opensfm/src/geometry/src/essential.cc", "opensfm/src/geometry/relative_pose.h", "opensfm/src/geometry/absolute_pose.h", "opensfm/src/geometry/src/absolute_pose.cc", "opensfm/src/geometry/covariance.h", "opensfm/src/geometry/src/covariance.cc", "opensfm/src/foundation/numeric.h"],
        mech=[("ray intersection and gates", "opensfm/src/geometry/src/triangulation.cc"), ("essential matrix solvers", "opensfm/src/geometry/essential.h, src/essential.cc"), ("decomposition choice and relative rotation", "opensfm/src/geometry/relative_pose.h"), ("closest rotation, translation, P3P", "opensfm/src/geometry/absolute_pose.h, src/absolute_pose.cc"), ("point covariance", "opensfm/src/geometry/src/covariance.cc")],
        observe=["values returned by the geometry module's functions"],
        note=NOTE_CXX + "Eigen's JacobiSVD and EigenSolver enter by their contracts, and the matrices handed to them are obligations. Loops over rays and correspondences run for the stated small counts. P3P, the quartic solver, refinement iterations, the scoring of the decompositions and larger counts are checked at run time only (bounded)."),
    dict(
        id="P08", title="Robust estimation returns the best model it scored, with its own inliers",
        statement="Robust estimation returns, of all models scored in any iteration or local refinement, one with the largest score, together with the inliers of that very model; it stops early only once the configured probability is reached for the inliers of the best model, refines on inliers of the best model, draws distinct samples and returns without a model when there are fewer samples than the model needs. "
                  "The three scorings count, weigh and rank errors as documented, every model's error is its documented residual and its threshold the documented transform of an angle or distance, and each wrapper runs its own model on the row pairs it is given, with unit bearings for absolute poses.",
        quant="every model, error, score, threshold, probability, sample set and draw of the random generator, for the stated small numbers of samples, iterations and refinements", over=["inputs", "histories"],
        why="tests run a few scenes with a fixed seed; losing the best model, its inlier list or termination depends on the order of scores and on how many inliers a refinement keeps",
        files=["opensfm/src/robust/*.h", "opensfm/src/robust/src/instanciations.cc"],
        mech=[("Estimate, ShouldStop, RunEstimation", "opensfm/src/robust/robust_estimator.h"), ("scorings", "opensfm/src/robust/scorer.h"), ("sampling without replacement", "opensfm/src/robust/random_sampler.h"), ("model residuals and thresholds", "opensfm/src/robust/*_model.h"), ("RANSAC* wrappers", "opensfm/src/robust/src/instanciations.cc")],
        observe=["ScoreInfo returned by RunEstimation and the RANSAC* functions"],
        note=NOTE_CXX + "The loop is proved for a model and a scoring of which only the interface is known, so for all of them; the number of samples, iterations, refinements and models is bounded as named in the obligations. The minimal solvers are the subject of P07; the real models are run on scenes with outliers at run time only (bounded). logarithm and cosine are uninterpreted functions."),
    dict(
        id="P09", title="What is written to files is what is read back",
        statement="Cameras of every projection type, biases, rig cameras, rig instances, shots, panorama shots, their measurements (any subset of them), meshes, points, the reference and ground control points read back from the JSON written for them are those that were written; shots return to their rig instance and rig camera, and the rig camera has its pose before shots are attached to it. "
                  "Cameras survive the vector form, missing distortion keys read as zero, and numbers equal to zero are not lost. In ground control lists all lines with the same coordinates (or the same coordinates without altitude) are one point with one observation for each line of a known image. Point clouds written as PLY read back to the written precision, with headers that count what follows.",
        quant="every value of every field, every projection type, every subset of the measurements, for reconstructions of the listed shapes", over=["inputs"],
        why="there is no test of a full round trip with every optional field; a swapped coefficient or a value of zero taken for missing silently changes the reconstruction used by the next command",
        files=["opensfm/io.py", "opensfm/types.py"],
        mech=[("camera_to_json, camera_from_json, camera_to_vector, camera_from_vector", "opensfm/io.py"), ("reconstruction_to_json, reconstruction_from_json", "opensfm/io.py"), ("metadata and rig assignments", "opensfm/io.py"), ("ground control points", "opensfm/io.py"), ("Reconstruction.create_shot, create_pano_shot", "opensfm/types.py")],
        observe=["objects read back", "JSON and PLY text"],
        note=NOTE_PY + "The classes of the C++ extension modules are stand-ins that keep their values (contracts proved in P02 and P04). JSON text itself is produced and parsed by the real json module at run time only; the obligations cover the object trees. GCP lists, UTM strings and PLY text are checked at run time only (bounded)."),
    dict(
        id="P10", title="Tracks are the sets of linked features, seen alike from shots and tracks",
        statement="Tracks made from matches are exactly the connected components of matched features with enough features and at most one feature per image; every feature of such a track is recorded once, with its own coordinates, scale, colour, semantics and depth. "
                  "After any sequence of additions and removals the tracks manager answers the same from the shot and from the track side; sub-managers hold exactly the observations of the given tracks and shots; common observations, pair connectivity and counts are those of the shared tracks; "
                  "merging managers joins exactly the tracks linked by a common feature; unknown shots are refused; tracks survive their text form to the written digits. Union-find clusters are the connected components.",
        quant="every history of unions, additions and removals, every set of matches, with any coordinates (structures enumerated up to the stated sizes, values unbounded)", over=["inputs", "histories"],
        why="the tests build a few small managers; a merge or a removal that leaves the two indices apart shows only for particular histories",
        files=["opensfm/unionfind.py", "opensfm/tracking.py", "opensfm/src/foundation/union_find.h", "opensfm/src/map/src/tracks_manager.cc", "opensfm/src/sfm/src/tracks_helpers.cc"],
        mech=[("UnionFind", "opensfm/unionfind.py"), ("create_tracks_manager, common_tracks, all_common_tracks", "opensfm/tracking.py"), ("Find, Union, GetUnionFindClusters", "opensfm/src/foundation/union_find.h"), ("TracksManager", "opensfm/src/map/src/tracks_manager.cc"), ("CountTracksPerShot", "opensfm/src/sfm/src/tracks_helpers.cc")],
        observe=["answers of TracksManager", "tracks made from matches"],
        note=NOTE_CXX + "Structures (histories of at most 12 steps, 4 shots, 6 tracks, 4 features per shot) are enumerated or drawn from a fixed seed, so the obligations hold for all payloads within those structures and are no induction over histories. The text form is checked at run time only (bounded). In Python the classes of the extension modules are stand-ins with the contract of TracksManager proved here."),
    dict(
        id="P11", title="The map stays consistent under every sequence of edits",
        statement="After any sequence of creating and removing shots, panoramas, landmarks, observations and rig instances, updating shots from another map, clearing, cleaning of landmarks with too few observations and deep copies, shots and landmarks of the map tell the same observations with the same values and features, rig instances list exactly their shots, cameras and rig cameras are those of the map itself, and poses, measurements, scales, colours, biases and the reference are those last set. "
                  "A deep copy has everything the original has (rig cameras and instances as far as shots use them, no reprojection errors), points to nothing of the original, and edits of either leave the other alone. Removing or reading what is not there and creating what is there already are refused. "
                  "The tracks manager of a map has exactly its observations; reprojection errors and valid observations of a tracks manager cover exactly the shots and landmarks of the map.",
        quant="every pose, position, observation and measurement, along edit histories drawn from a fixed seed and all pairs of removals from a full map", over=["inputs", "histories"],
        why="a stale observation or a pointer into another map shows only after particular sequences of edits; tests make a handful of them",
        files=["opensfm/src/map/src/map.cc", "opensfm/src/map/src/shot.cc", "opensfm/src/map/src/landmark.cc", "opensfm/src/map/src/rig.cc", "opensfm/src/map/shot.h", "opensfm/src/map/landmark.h", "opensfm/src/map/rig.h"],
        mech=[("edits, deep copy, updates, clearing", "opensfm/src/map/src/map.cc"), ("observation indices of a shot", "opensfm/src/map/src/shot.cc"), ("observations of a landmark", "opensfm/src/map/src/landmark.cc"), ("shots of a rig instance", "opensfm/src/map/src/rig.cc")],
        observe=["getters of Map, Shot, Landmark, RigInstance"],
        note=NOTE_CXX + "Structures (40 runs of 3 histories of 22 edits, pairs of removals; at most 4 shots, 3 landmarks and 4 rig instances) are enumerated or drawn from a fixed seed, so the obligations hold for all payloads along those histories and are no induction over histories. An observation is added once for a shot and a landmark with a feature of its own, and only empty rig instances are removed. Poses are translations. Angular errors are checked at run time only (bounded)."),
    dict(
        id="P12", title="Image metadata become the positions, times, angles and cameras they state",
        statement="GPS coordinates in degrees, minutes and seconds become signed degrees by hemisphere, with the drone's own position first; altitudes below sea level are negative and capped; what has a zero denominator or is missing is left out and never an error. "
                  "The focal length is that in 35 mm, else that in sensor widths, the width taken from the focal plane resolution in its unit or from the sensor database. Capture times are UTC: GPS time, else the first valid date with its subseconds and time zone offset of either sign. "
                  "Yaw, pitch and roll become the omega-phi-kappa angles of that camera in the local east-north-up frame; without them the rotation follows gravity or the EXIF orientation, and the compass. "
                  "A camera has the calibration listed for its model, else the focal length of the image, else the default, whatever images came before; overrides and defaults apply as configured, and shots get the measurements of their image.",
        quant="every value of every tag, each set of tags present, every projection type and calibration table form (dates and offsets sampled)", over=["inputs", "histories"],
        why="no test covers the decoding; wrong signs, units or fallbacks appear only for particular hemispheres, units, time zones or missing tags",
        files=["opensfm/exif.py", "opensfm/reconstruction_helpers.py", "opensfm/actions/extract_metadata.py"],
        mech=[("EXIF.extract_*", "opensfm/exif.py"), ("calibrations and cameras", "opensfm/exif.py"), ("exif_to_metadata, initial rotations", "opensfm/reconstruction_helpers.py"), ("run_dataset", "opensfm/actions/extract_metadata.py")],
        observe=["the EXIF dictionary", "cameras", "ShotMeasurements"],
        note=NOTE_PY + "The parsers of exifread and xmltodict are replaced by the tags they return; the extension classes are stand-ins. Sets of tags are enumerated, their values are arbitrary. Capture times (text) are checked at run time only (bounded). Altitudes of exactly 10000 m are left out, and OPK angles of cameras looking exactly east or west along the ground."),
    dict(
        id="P13", title="Aligning and realigning moves a reconstruction without changing what shots see",
        statement="Applying a similarity y = sAx + b to a reconstruction moves points and cameras together: every point is seen by every camera of every rig in the same direction, s times as far. "
                  "The similarity is fitted to all ground control points seen in two images (their height only when they have an altitude) and to the mean GPS position of each rig instance, as configured; it keeps the scale when there are multi-shot rigs. "
                  "One constraint, or identical positions, only translate; otherwise it is the best 3D fit or, for positions on a line, the levelling of the ground plane and the best 2D fit with the right mean height. "
                  "Image axes follow the EXIF orientation. GPS biases of cameras are the inverses of the fits to their GPS. "
                  "Realigning a map with another one gives shots, instances and cameras in both the poses, scales and parameters of the other one, shifted to its own reference, removes shots that are not in the other one, and moves each point with the nearest shot in both that sees it, as that shot sees it; other points stay.",
        quant="every pose, position, scale, similarity and camera parameter in reconstructions of the stated shapes, all configurations and EXIF orientations", over=["inputs"],
        why="needs consistency of points, rig instances and rig cameras at once and for any similarity; nothing in the test suite runs alignment",
        files=["opensfm/align.py", "opensfm/multiview.py", "opensfm/src/sfm/src/retriangulation.cc", "opensfm/src/map/src/map.cc"],
        mech=[("apply_similarity", "opensfm/align.py"), ("compute_reconstruction_similarity", "opensfm/align.py"), ("alignment_constraints, triangulate_all_gcp", "opensfm/align.py"), ("set_gps_bias", "opensfm/align.py"), ("RealignMaps", "opensfm/src/sfm/src/retriangulation.cc")],
        observe=["poses and points of reconstructions", "camera biases"],
        note=NOTE_CXX + "align.py runs symbolically as it is, with poses, GPS fits and the plane fit replaced by their contracts (P04, P06, P07); Pose setters called by RealignMaps are taken by their contracts (P04). Shapes are enumerated: at most 4 shots, 4 instances, 3 points and 4 constraints. The choice between 3D and 2D fit is checked on samples (bounded), and so is the whole alignment. Which axis looks forward in mirrored images is left open."),
    dict(
        id="P14", title="Image pairs and feature matches are exactly the nearest ones asked for",
        statement="Pair selection by distance gives each reference image its k nearest other candidates (within the distance limit; no limit when unset), by GPS at altitude zero or, with OPK angles, by where the image looks at a common altitude; nothing when an image has no GPS. "
                  "By time: the k nearest in time; by order, in a sequence: the images at most half of the neighbours away; by graph: the edges of the triangulations between references and candidates; by words or VLAD: the k with the most similar histograms, or k of the same camera and k of others. "
                  "All strategies in use are united; GPS based ones are off when an image lacks GPS, and when all are off every pair is matched. Each pair comes once, with a reference first. "
                  "Matches of features pass the ratio test, are mutual when asked to be symmetric, respect masks, and are given in indices of all features.",
        quant="every position, time, angle, distance, score, ratio and limit for up to four images in references and candidates of the stated shapes, all enabled strategies", over=["inputs"],
        why="the test that runs pair selection needs the C++ extensions and counts pairs of one data set; which image is lost depends on all distances, the limits and which images are both reference and candidate",
        files=["opensfm/pairs_selection.py", "opensfm/matching.py"],
        mech=[("match_candidates_by_distance, get_representative_points", "opensfm/pairs_selection.py"), ("match_candidates_from_metadata, ordered_pairs", "opensfm/pairs_selection.py"), ("construct_pairs, pairs_from_neighbors", "opensfm/pairs_selection.py"), ("match_flann_symmetric, match_brute_force_symmetric, unfilter_matches", "opensfm/matching.py")],
        observe=["pairs of images", "matches of a pair"],
        note="pairs_selection.py and the matchers of matching.py run symbolically as they are; scipy's k-d tree and triangulation, FLANN, OpenCV's matcher, match_using_words and compute_vlad_distances are replaced by their contracts. Shapes are enumerated: at most 4 images; three dimensional choices of four images are made on a line. Ties between distances are excluded. The altitude at which directions are compared (a fit) is any number."),
    dict(
        id="N01", title="Results do not depend on the number of processes and threads",
        statement="Commands give the same result with any number of processes and any interleaving of worker threads and OpenMP loops.",
        quant="every schedule of the workers", over=["schedules"],
        why="tests see one schedule",
        files=["opensfm/context.py", "opensfm/large/tools.py", "opensfm/src/bundle/src/bundle_adjuster.cc"],
        mech=[("parallel_map", "opensfm/context.py"), ("ComputeReprojectionErrors", "opensfm/src/bundle/src/bundle_adjuster.cc")], observe=["outputs of commands"],
        note="not applicable"),
    dict(
        id="N02", title="Depth maps and features are those of the scene",
        statement="Dense matching finds the depth and features are detected where the image has them, for every image.",
        quant="every image", over=["inputs"],
        why="tests see a few images",
        files=["opensfm/src/dense/src/depthmap.cc", "opensfm/features.py"],
        mech=[("DepthmapEstimator", "opensfm/src/dense/src/depthmap.cc"), ("extract_features", "opensfm/features.py")], observe=["depth maps, features"],
        note="not applicable"),
]

NA = [
    dict(property="N01", reason="the contracts here are sequential: the verifier has no model of processes, joblib or OpenMP, so that nothing about interleavings can be stated or decided with it"),
    dict(property="N02", reason="there is no contract to prove: PatchMatch is a random search without a functional specification, and features come from OpenCV and VLFeat, which are not part of the repository's verified code (what the results are used for is in P05, P07 and P08)"),
]
NOTES = "See DESIGN.md."
