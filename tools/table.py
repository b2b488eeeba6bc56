"""The properties: title, statement, quantifier, why the tests cannot settle it, anchors, and how the check decides it."""
T = "norfair/tracker.py:"
F = "norfair/filter.py:"
D = "norfair/distances.py:"
M = "norfair/camera_motion.py:"

P = {}


def prop(id, title, statement, over, quant, why, where, oracle, level_note=""):
    assert len(title) <= 80, (id, len(title))
    P[id] = dict(title=title, statement=statement, over=over, quant=quant, why=why, where=where, oracle=oracle, note=level_note)


prop("C01", "Identities are unique, permanent, never reused and consecutive",
     "Within a tracker no two objects ever carry the same id and an object's id, once it has one, never changes and is never handed out again; without re-identification the ids are consecutive from 1 in order of confirmation. global_id is likewise permanent and unique across all trackers of the process, and is absent exactly while the id is. total_object_count counts the ids handed out so far and never falls; current_object_count and get_active_objects describe exactly what the last update returned, also if the caller changes the lists it was given.",
     ["histories", "configurations"], "every history of present/absent detections of the streams, hit_counter_max, initialization_delay, several interleaved trackers, with and without ReID",
     "the tests follow a handful of fixed histories of one object; identity errors need particular births, deaths and re-identifications in particular orders",
     [("id allocation", T + "_TrackedObjectFactory"), ("id acquisition on confirmation", T + "TrackedObject"), ("counts", T + "Tracker")],
     "a ledger kept by the harness of every id and global id ever shown")
prop("C02", "Every detection of an update is consumed exactly once",
     "In every update each detection is consumed exactly once: either it becomes the last detection of one object that was already tracked, or it starts exactly one new object located at it and carrying its label. An object that consumes no detection keeps its last detection and last distance; an object that consumes one has as last_distance the distance of that pair in this update, also if the same Detection was given before. The caller's list and the detections' points are left alone.",
     ["inputs", "configurations"], "every distance matrix of the sizes given, every split of confirmed and tentative objects, every assignment of labels",
     "tests look at one or two objects with fixed distances; double consumption or loss depends on the pattern of distances over several objects and detections",
     [("two-stage matching", T + "Tracker.update"), ("consumption", T + "Tracker._update_objects_in_place"), ("matching", T + "Tracker.match_dets_and_objs")],
     "the pairs read off from the objects' last_detection after the update, compared with the symbolic distance matrix")
prop("C03", "Nothing matches at or above the threshold or across labels",
     "A detection is never matched with an object unless their distance is strictly below distance_threshold and their labels are equal; re-identification likewise requires a ReID distance strictly below reid_distance_threshold and equal labels, and an old and a new object that satisfy both, with no competitor, are re-identified.",
     ["inputs", "configurations"], "every threshold (negative included), distance matrix and labelling within the bounds",
     "boundary values (distance equal to the threshold), negative or mixed-type values and label combinations are not sampled",
     [("gate", T + "Tracker.match_dets_and_objs"), ("label separation", D + "ScalarDistance.get_distances"), ("ReID", T + "Tracker.update")],
     "the symbolic distance and label of each pair that was matched")
prop("C04", "Closest pairs match first, confirmed objects before tentative ones",
     "Matching is greedy by distance: if a detection and an object with the same label and a distance below the threshold were not matched with each other, then at least one of the two was matched with a partner at least as close. Confirmed objects choose before objects still initializing, which only compete for the detections the confirmed ones left over; hence no detection and object that could be matched are both left unmatched.",
     ["inputs"], "every distance matrix of the sizes given, ties included",
     "greedy stability is a statement over all matrices; the tests use well-separated objects for which any assignment gives the same answer",
     [("greedy loop", T + "Tracker.match_dets_and_objs"), ("stages", T + "Tracker.update")],
     "stability of the observed matching against the symbolic distances")
prop("C05", "Matching terminates and is one-to-one for every distance and threshold",
     "An update always returns, whatever floating-point values the distance function and the threshold take (infinities, subnormals, values too large for single precision included), as long as no distance is nan. What it matches is one-to-one and strictly below the threshold.",
     ["inputs"], "every IEEE double (and single) as distance, every double as threshold",
     "the failing values are isolated points of the floating-point range that no test samples; non-termination shows only there",
     [("greedy loop with masking", T + "Tracker.match_dets_and_objs"), ("matrix construction", D + "ScalarDistance.get_distances")],
     "termination of the symbolic run on every path, and the bit-precise comparison of the matched distance with the threshold")
prop("C06", "An object is confirmed exactly when its hit counter first exceeds the delay",
     "An object gets an id, and is returned by update, exactly from the first frame in which it is matched with its hit counter above initialization_delay (default hit_counter_max // 2); before that it is never returned and never counted. A newly created object starts with a hit counter equal to the period.",
     ["histories", "configurations"], "every history of presence and periods, every hit_counter_max and initialization_delay",
     "the tests sample a few constants; off-by-one errors appear for other combinations of period, delay and gaps",
     [("confirmation", T + "TrackedObject.hit"), ("construction", T + "TrackedObject.__init__"), ("filter of active objects", T + "Tracker.get_active_objects")],
     "an independent counter model run next to the tracker")
prop("C07", "Hit counters are capped, decay by one per frame and decide survival",
     "Per update a tracked object's hit_counter falls by one, and a match adds two periods, never above hit_counter_max (for periods up to it). Without ReID an object is dropped in the first update that starts with its hit counter below zero, and not before; a confirmed object is returned exactly while its counter is not negative. age counts the updates since the object appeared. With ReID, the same counters run on while a lost object is kept.",
     ["histories", "configurations"], "every history of presence of two streams, every period, hit_counter_max and delay",
     "the tests sample a few constants and one stream; survival errors need particular alternations of hits and misses",
     [("decay", T + "TrackedObject.tracker_step"), ("match", T + "TrackedObject.hit"), ("dropping", T + "Tracker.update")],
     "an independent counter model per stream run next to the tracker")
prop("C08", "Announcing the period keeps objects alive over skipped frames",
     "When the detector runs every p-th frame, its detections are passed with period=p and update is called without detections on the frames in between, an object seen on every detector frame is never lost and, once visible, never disappears, for every p up to hit_counter_max. update(), update(None) and update([]) are the same.",
     ["histories", "configurations"], "every sequence of periods, hit_counter_max, delay and pointwise_hit_counter_max",
     "the tests run at most one fixed period",
     [("period", T + "TrackedObject.hit"), ("decay", T + "TrackedObject.tracker_step")],
     "the object held, its visibility, and an independent counter model")
prop("C09", "Re-identification restores the old identity",
     "When an object still being initialized is re-identified with a confirmed object that is lost or unmatched, the latter keeps its id and global_id, takes over the former's estimate, velocity, last detection, last distance and live points, is alive (hit_counter at least 1, at most hit_counter_max) and visible, and the former disappears. Each object takes part in at most one such merge per update, the closest pairs first, and every pair below the ReID threshold with both sides free is merged. Only objects that were confirmed can be re-identified.",
     ["histories", "inputs"], "every ReID distance matrix between up to two lost and two new objects, every moment of loss",
     "the tests re-identify a single pair; competition between several lost and new objects and the frames after a merge are not sampled",
     [("ReID stage", T + "Tracker.update"), ("merge", T + "TrackedObject.merge"), ("matching", T + "Tracker._update_objects_in_place")],
     "identities recorded before the loss, the symbolic ReID distances, and the state of both objects after the merge")
prop("C10", "ReID window: lost objects are kept for it, matched ones unaffected by it",
     "With a ReID distance, a confirmed object whose hit counter has run out is kept, invisible, and offered for re-identification for exactly its ReID window (reid_hit_counter_max), and is gone after it; objects that never were confirmed are not offered once lost, never become visible, and do not stay longer than such a window either; re-identification opens a whole new window at the next loss. As long as no re-identification happens, configuring ReID changes nothing about which objects are visible, their ids, matches, counters and estimates.",
     ["histories", "configurations"], "every hit_counter_max, reid_hit_counter_max and history of presence within the bounds",
     "the tests sample one window length; a window running out while the object is being matched again is not reached",
     [("ReID counter", T + "TrackedObject.tracker_step"), ("dropping", T + "Tracker.update")],
     "frame counting by the harness; and a second tracker without ReID fed with the same history")
prop("C11", "Low-score points never influence the estimate of detected points",
     "The coordinates of points whose score is not above detection_threshold have no influence on the estimate and velocity of any point that has been detected with a score above it, nor on which points are live. This holds whatever the filter.",
     ["inputs", "histories"], "every score, threshold and coordinate value, every pattern of confident and low-score points over the frames",
     "a non-interference property over pairs of inputs; the tests compare single runs",
     [("measurement mask", T + "TrackedObject.hit"), ("filters", F + "OptimizedKalmanFilter.update")],
     "two runs of the real tracker whose low-score coordinates differ arbitrarily (self-composition)")
prop("C12", "The first confident detection of a point is adopted exactly and at rest",
     "In the frame in which a point of an object is first detected with a score above detection_threshold, the object's estimate of that point is exactly the detected position and its velocity is zero, whatever was reported for it before with a low score. When an object is re-identified, points not yet detected since it turned up again count as undetected. This holds for every filter, point count and dimension.",
     ["inputs", "histories"], "every pattern of confident points over the frames, every coordinate, score and threshold",
     "which coordinate is adopted when some of several points appear late depends on the pattern; the tests use one",
     [("late points", T + "TrackedObject.hit")],
     "the detected coordinates themselves")
prop("C13", "Live points are the recently confidently detected ones",
     "live_points has one flag per point: a point detected with a score above the threshold in this frame is live, a point never so detected is not, and a point that has not been detected for pointwise_hit_counter_max frames is not. A point with full inertia (detected in that many consecutive frames) stays live for that many frames without detection.",
     ["histories", "configurations"], "every history of detected / low-score / unmatched frames, pointwise_hit_counter_max and period",
     "depends on the history of each point's detections; the tests sample a few",
     [("pointwise counters", T + "TrackedObject.hit"), ("decay", T + "TrackedObject.tracker_step"), ("flag", T + "TrackedObject.live_points")],
     "the harness's own record of when each point was confidently detected")
prop("C14", "past_detections is bounded, own, ordered, aged and refreshed",
     "past_detections holds only detections the object consumed, oldest first, without duplicates, each with the age the object had when it took it, and never more than past_detections_length (nothing is stored for length 0). Until that many have been consumed all of them are there; afterwards a matched object replaces its oldest memory in time, so that the memory spans the object's life. All of this but the ages holds for a re-identified object too, whose memory goes on with the detections of the object merged into it.",
     ["histories", "configurations"], "every history of presence and every length within the bounds",
     "needs long histories with gaps for several lengths",
     [("memory", T + "TrackedObject._conditionally_add_to_past_detections")],
     "the harness's own list of the detections consumed and the frames they were consumed in")
prop("C15", "nan distances are refused, never matched silently",
     "If any distance handed to the matching (tracking or re-identification, from a scalar or vectorized function) is nan, the update raises ValueError; if none is nan it does not. nan coordinates fed to the built-in distances are refused in the same way.",
     ["inputs"], "every IEEE double for every entry of the matrix and the threshold",
     "tests feed one nan matrix; a nan hidden next to smaller or infinite entries, or in the second stage, is not sampled",
     [("nan gate", T + "Tracker._update_objects_in_place")],
     "bit-precise nan test on the symbolic matrix")
prop("C16", "The order in which detections are listed does not matter",
     "When no two distances are equal, permuting the detections passed to update changes nothing but the order in which simultaneous new objects are numbered: the same objects consume the same detections, with the same counters, estimates and visible ids for objects that existed before.",
     ["inputs", "schedules"], "every permutation of up to three detections and every distance matrix without ties",
     "a relation between runs; the tests compare no two orders",
     [("matching", T + "Tracker.match_dets_and_objs"), ("consumption", T + "Tracker._update_objects_in_place")],
     "two runs of the real tracker, one with the permuted list")
prop("C17", "Trackers do not influence each other",
     "What a tracker returns depends only on its own configuration and the updates it received: running other trackers in between, sharing distance objects or filter factories, or default arguments, changes none of its ids (initializing_id included), counts, estimates and velocities. Only global_id reflects the other trackers, by staying unique.",
     ["schedules", "configurations", "histories"], "every interleaving pattern of two trackers' frames, presence and positions within the bounds",
     "a relation between runs; the tests never run two trackers side by side",
     [("per-tracker factory", T + "Tracker.__init__"), ("default arguments", T + "Tracker.__init__"), ("filters", F + "OptimizedKalmanFilterFactory.create_filter")],
     "the same tracker fed alone with the same frames (self-composition)")
prop("C18", "Shifting all detections shifts all estimates and changes nothing else",
     "Adding one vector to every coordinate of every detection, in all frames, with a distance that depends only on differences of positions, adds that vector to every estimate and leaves matches, ids, counters and velocities unchanged.",
     ["inputs"], "every displacement, position and threshold within the bounds, several distances and all filters",
     "a relation between runs over all displacements",
     [("filters", F + "OptimizedKalmanFilter"), ("estimates", T + "TrackedObject.estimate"), ("distances", D + "mean_manhattan")],
     "two runs of the real tracker (self-composition)")
prop("C19", "Bad configuration and input are refused, good ones accepted as documented",
     "Tracker refuses with ValueError an initialization_delay that is negative or not below hit_counter_max, a negative past_detections_length and an unknown distance name or type, and accepts all other combinations of these with the documented defaults. Detection accepts points of rank 1 (one point) and 2 and refuses a higher rank with ValueError; anything but detections given to update is refused with ValueError; update(), update(None) and update([]) are equivalent.",
     ["configurations", "inputs"], "every combination of hit_counter_max, delay and past_detections_length within the bounds, every kind of distance argument, every rank of points up to 4",
     "boundaries of the accepted region are not sampled",
     [("tracker validation", T + "Tracker.__init__"), ("points validation", "norfair/utils.py:validate_points"), ("distance lookup", D + "get_distance_by_name")],
     "the documented region, as a formula over the symbolic arguments")
prop("C20", "The default filter is the textbook constant-velocity Kalman filter",
     "The optimized filter starts at the first detection at rest with the configured variances and, coordinate by coordinate, computes exactly the constant-velocity Kalman prediction and update with measurement variance R (or the one given) and process variance Q. Coordinates that are not measured are only predicted.",
     ["inputs", "histories", "configurations"], "every covariance, R, Q, position, velocity and measurement; every subset of measured coordinates",
     "the tests compare a few runs with loose tolerance",
     [("prediction", F + "OptimizedKalmanFilter.predict"), ("update", F + "OptimizedKalmanFilter.update"), ("initialisation", F + "OptimizedKalmanFilterFactory.create_filter")],
     "the scalar 2x2 Kalman equations written out in the harness, compared as exact rational functions")
prop("C21", "Estimates stay between prediction and measurement; covariances stay valid",
     "After every update of the default filter the estimated position lies between the predicted and the measured position, and equals the prediction when nothing was measured. The covariance of each coordinate stays positive semidefinite, and a measured position's variance never exceeds the measurement's.",
     ["inputs", "histories"], "every positive semidefinite covariance, R > 0, Q >= 0; one cycle from an arbitrary state (so, by induction, any number of cycles)",
     "an inequality over all states; the tests sample a few runs",
     [("update", F + "OptimizedKalmanFilter.update")],
     "the inequalities themselves, decided by nonlinear real arithmetic")
prop("C22", "The FilterPy filters are the documented constant-velocity model",
     "FilterPyKalmanFilterFactory builds, for any number of points in 2 or 3 dimensions, a filter that starts at the first detection at rest, moves by its velocity, measures positions with noise R, and has process noise Q on the velocities; P scales the initial uncertainty. Through predict and update it gives the textbook estimates for any subset of measured points.",
     ["inputs", "configurations", "histories"], "every R, Q, P, position and measurement within the bounds",
     "the tests use one configuration",
     [("model", F + "FilterPyKalmanFilterFactory.create_filter")],
     "the model matrices entry by entry, and the scalar Kalman equations")
prop("C23", "Without a filter the estimate is the last detected position",
     "With NoFilterFactory each point of an object is estimated to be exactly where it was last detected with a score above the threshold, in every frame, and its velocity is zero.",
     ["inputs", "histories"], "every pattern of presence and confidence, every coordinate",
     "depends on the history of each point; the tests sample one",
     [("filter", F + "NoFilter"), ("factory", F + "NoFilterFactory.create_filter")],
     "the harness's own record of the last confident detection of each point")
prop("C24", "Between detections an object moves by its velocity, one step per frame",
     "In every update in which an object is not matched its estimate moves by exactly its estimated velocity and the velocity stays as it is, whatever the filter, the number of points and the dimension. In a matched object the same holds for each point that was detected before and is not confidently detected in this frame. estimate and estimate_velocity have one row per point and one column per dimension.",
     ["histories", "inputs"], "every position and history within the bounds",
     "a relation between consecutive frames over all positions",
     [("step", T + "TrackedObject.tracker_step"), ("estimates", T + "TrackedObject.estimate"), ("velocity", T + "TrackedObject.estimate_velocity")],
     "the estimate and velocity before the frame")
prop("C25", "iou is one minus intersection over union for every pair of boxes",
     "For boxes with x_min < x_max and y_min < y_max, entry (i, j) of iou(candidates, objects) is one minus the intersection area over the union area of candidate i and object j: symmetric, 0 for equal boxes, 1 for disjoint or merely touching ones, within [0, 1], unchanged by a common displacement or scale. Inputs that are not of shape (N, 4) are refused with AssertionError.",
     ["inputs"], "every pair of boxes with real coordinates; every shape up to 4x5",
     "all relative positions (containment, one-sided overlap, touching, negative coordinates) of boxes cannot be sampled exhaustively",
     [("iou", D + "iou"), ("areas", D + "_boxes_area"), ("validation", D + "_validate_bboxes")],
     "the set-theoretic formula with min/max over symbolic corners")
prop("C26", "frobenius, mean_euclidean and mean_manhattan are their formulas",
     "For detections and objects of any number of points and dimensions, frobenius is the root of the summed squared coordinate differences, mean_euclidean the mean over the points of their Euclidean distance and mean_manhattan the mean of their L1 distance. All are symmetric, not negative, and zero exactly for equal positions; integer coordinates give the same results as real ones.",
     ["inputs"], "every coordinate value within the bounds, 1 to 3 points, 2 or 3 dimensions",
     "tests use a few vectors",
     [("frobenius", D + "frobenius"), ("mean_euclidean", D + "mean_euclidean"), ("mean_manhattan", D + "mean_manhattan")],
     "the formulas over symbolic coordinates")
prop("C27", "Normalized mean euclidean distance and keypoint voting are their formulas",
     "create_normalized_mean_euclidean_distance(height, width) gives the mean over the points of the Euclidean norm of the differences divided by the image width and height, without changing its arguments, and is bound to [0, 1] inside the image. create_keypoints_voting_distance gives 1/(1+n) with n the number of points that are closer than the keypoint distance threshold and whose scores in both the detection and the object's last detection exceed the detection threshold.",
     ["inputs", "configurations"], "every coordinate, score, threshold and image size within the bounds",
     "tests use a few vectors",
     [("normalized", D + "create_normalized_mean_euclidean_distance"), ("voting", D + "create_keypoints_voting_distance")],
     "the formulas over symbolic coordinates, scores and thresholds")
prop("C28", "Distance matrices put each pair's own distance in its own place",
     "get_distances of scalar, vectorized and scipy distances returns a matrix with one row per candidate and one column per object whose entry is the distance of exactly that pair if their labels are equal and infinity otherwise; the distance function never sees pairs of different labels. Further arguments of a ScipyDistance (weights, variances, exponent) are those of scipy's metric. This holds for any labels (None, strings, numbers, tuples), for detections (subclasses included) and for tracked objects as candidates, and without candidates or objects the matrix is empty.",
     ["inputs", "configurations"], "every assignment of the labels, every position, up to 3 candidates and 3 objects",
     "mixtures of label types and patterns over several candidates are not sampled",
     [("scalar", D + "ScalarDistance.get_distances"), ("vectorized", D + "VectorizedDistance.get_distances"), ("scipy", D + "ScipyDistance")],
     "the distance of the pair computed in the harness from the symbolic positions")
prop("C29", "Coordinate transformations are mutually inverse",
     "For translations abs_to_rel adds the camera movement and rel_to_abs undoes it exactly; for homographies abs_to_rel projects the points by the matrix and rel_to_abs undoes it, both ways round, for every invertible matrix and every point not mapped to infinity. Each keeps the number and order of the points and leaves its arguments alone.",
     ["inputs"], "every translation vector, every invertible affine and perspective matrix (and, thorough, every invertible 3x3 matrix), every point",
     "the tests use a few integer matrices",
     [("translation", M + "TranslationTransformation"), ("homography", M + "HomographyTransformation")],
     "the projection formula as a rational-function identity")

G = "norfair/drawing/"
prop("C30", "A moving camera changes where objects are shown, never what is tracked",
     "Tracking detections given relative to a moving camera, with the transformation of each frame passed to update, yields the same objects, ids, counts and absolute estimates as tracking their absolute positions with a fixed camera, for every sequence of camera movements, filter, with and without ReID and in frames without detections. get_estimate() is the absolute estimate moved by the transformation of the current frame; a detection's points stay as they were given and absolute_points is their absolute position under the transformation given last.",
     ["histories", "inputs"], "every sequence of camera translations, every position and threshold within the bounds",
     "a relation between two whole runs (moving and fixed camera) over all movements",
     [("update", T + "Tracker.update"), ("absolute points", T + "Detection"), ("relative estimates", T + "TrackedObject.get_estimate")],
     "a second tracker fed the absolute positions, compared object by object")
prop("C31", "The translation getter finds the dominant movement and accumulates it",
     "TranslationTransformationGetter returns a translation by the mode of the movements of the points (to the resolution of bin_size) plus the movement of the reference frame, and asks for a new reference exactly when the share of points that agree with the mode is below proportion_points_used_threshold. Over several calls the translations are relative to the very first frame. Arguments and earlier results are left alone.",
     ["inputs", "histories"], "every position of the points and of the movements within their bins, every threshold",
     "which movement is the mode, and accumulation over several references, depends on the pattern of movements over calls",
     [("getter", M + "TranslationTransformationGetter.__call__")],
     "votes counted in the harness over the symbolic movements")
prop("C32", "The homography getter hands over, accumulates and re-references correctly",
     "HomographyTransformationGetter estimates from previous to current points with the configured method, RANSAC threshold, iterations and confidence, multiplies onto the reference's homography, and asks for a new reference exactly when the share of inliers is below proportion_points_used_threshold. With fewer than 4 points, or no previous points, nothing is estimated: it returns the last known homography (or None) and asks for a new reference.",
     ["inputs", "histories"], "every inlier count, threshold, parameter and homography within the bounds, sequences of up to 3 calls",
     "the tests do not chain several calls with failures in between",
     [("getter", M + "HomographyTransformationGetter.__call__")],
     "products of the homographies the OpenCV stand-in returned")
prop("C33", "The motion estimator survives failing image processing and keeps its reference",
     "MotionEstimator.update never raises and returns a transformation exactly when the getter yields one, whatever the corner detection, the optical flow or the getter do. Corners are sampled once per reference frame, with the parameters and mask given for it; the flow runs from the reference frame to the current one, only points tracked with status 1 reach the getter, and the reference is replaced exactly when the getter asks. After a failure the getter starts afresh. The caller's frame is drawn on only when draw_flow is set.",
     ["histories", "inputs"], "every combination of success, empty result and exception of the three stages over up to 4 frames",
     "the tests exercise the estimator on good input only; failures at each stage followed by further frames are not sampled",
     [("estimator", M + "MotionEstimator.update"), ("sparse flow", M + "_get_sparse_flow")],
     "the recorded calls of the OpenCV stand-in and of the getter")
prop("C34", "Colours mean what they say and nothing else is accepted",
     "parse_color and hex_to_bgr turn '#' followed by six hexadecimal digits of either case (or three, doubled) into the blue, green, red tuple they denote; hex_to_bgr raises ValueError for any other text, and so does parse_color for any other text that starts with '#'. parse_color takes names as well: they give the CSS colour of that name, the same as the attribute of Color; three numbers are taken as BGR, cut to integers.",
     ["inputs"], "every text up to the length bound, every name, every triple of numbers",
     "accepting or rejecting all texts cannot be settled by samples",
     [("hexadecimal", G + "color.py:hex_to_bgr"), ("parsing", G + "color.py:parse_color"), ("names", G + "color.py:Color")],
     "the digits' values, and a list of the CSS colours in the harness")
prop("C35", "A palette gives each hashable one stable colour of its own",
     "Palette.choose_color gives equal hashes equal colours, always out of the palette set last, so that as many consecutive ids as there are colours all get different ones, and the default colour set last for None. Palettes may be predefined names or any iterable of colours in any notation; unknown palette names and malformed hexadecimal colours in a palette are a ValueError.",
     ["inputs", "histories"], "every hash value, palettes of 1..4 symbolic colours, sequences of set, set_default_color and choose_color",
     "the tests do not cover all hashes or sequences of palette changes",
     [("palette", G + "color.py:Palette")],
     "the list of colours given, kept by the harness")
prop("C36", "draw_points draws exactly the live points, where they are",
     "draw_points draws one circle per live point of every detection, tracked object or drawable (per point with hide_dead_points=False), centred at the point cut to integers, in the colour given, the object's, or one of the palette, with the radius and thickness given, and returns the frame, which is the only thing changed. Titles contain label, id and mean score exactly as asked for (by default label and id) and sit near the centre of the live points. Deprecated parameters mean what their replacements mean. With drawables=None nothing is drawn, and other objects are refused with ValueError; draw_tracked_objects draws the same.",
     ["inputs", "configurations"], "every combination of options, every pattern of live points, every position",
     "the combinations of options, object kinds and live points are far more than the tests' images",
     [("draw_points", G + "draw_points.py:draw_points"), ("drawing", G + "drawer.py:Drawer"), ("drawables", G + "drawer.py:Drawable"), ("titles", G + "utils.py:_build_text")],
     "the list of calls to OpenCV the harness expects, with symbolic coordinates")
prop("C37", "draw_boxes draws every box from its first to its second point",
     "draw_boxes draws one rectangle per detection, tracked object or drawable, from its first to its second point cut to integers, in the colour given, the object's, or one of the palette, with the thickness given, and returns the frame, which is the only thing changed. Titles contain label, id and mean score exactly as asked for (by default only the id) and sit at the first corner. Deprecated parameters mean what their replacements mean. With drawables=None nothing is drawn; draw_tracked_boxes draws the same.",
     ["inputs", "configurations"], "every combination of options, every position",
     "the combinations of options and object kinds are far more than the tests' images",
     [("draw_boxes", G + "draw_boxes.py:draw_boxes"), ("drawing", G + "drawer.py:Drawer"), ("titles", G + "utils.py:_build_text")],
     "the list of calls to OpenCV the harness expects, with symbolic coordinates")
prop("C38", "FixedCamera puts the frame where the camera points and fades the rest",
     "adjust_frame returns a picture of scale times the frame's size in which the current frame, pixel for pixel, is at its stabilised place relative to the first frame (which is centred), cut off where it leaves the picture, and everything else is what was there before multiplied by 1 - attenuation. The frame given and those returned earlier are left alone, and no camera movement makes it fail.",
     ["inputs", "histories"], "every pixel value, attenuation and camera movement within the bounds, leaving the picture on every side",
     "overlap on each side, partly or wholly outside, over several frames is not sampled",
     [("fixed camera", G + "fixed_camera.py:FixedCamera.adjust_frame")],
     "the picture composed in the harness pixel by pixel from the symbolic frames")
prop("C39", "The absolute grid stays fixed in the world",
     "draw_absolute_grid shows a fixed set of points in absolute coordinates (equator or polar projection, for the frame size and grid size): under a coordinate transformation each is drawn at its transformed place if that is inside the frame and not drawn otherwise, as a cross with the radius, thickness and colour given. What was drawn before, with any size, projection or transformation, has no influence.",
     ["inputs", "configurations"], "every camera translation, several sizes, both projections, sequences of draws",
     "visibility of each point for all translations, and interference of successive calls, are not sampled",
     [("grid", G + "absolute_grid.py:draw_absolute_grid"), ("points", G + "absolute_grid.py:_get_grid"), ("cross", G + "drawer.py:Drawer.cross")],
     "the points drawn without transformation, moved by the translation")
prop("C40", "Paths show where the objects have been",
     "Paths.draw adds a circle at every point of interest (by default the mean of the estimate) of every object to the frame, on top of the circles of earlier frames faded by 1 - attenuation per frame, and leaves the frame given alone. AbsolutePaths.draw draws, for every object with live points, a circle at its point of interest and lines between the successive last max_history absolute positions, shown through the current transformation, in the colour of the object (or the one given), each step fainter than the next newer one.",
     ["histories", "inputs"], "every position, pixel value, attenuation and camera translation within the bounds",
     "the history of each object over several frames and camera movements is not covered by tests",
     [("paths", G + "path.py:Paths.draw"), ("absolute paths", G + "path.py:AbsolutePaths.draw")],
     "the harness's own record of positions and of the fading picture")

V = "norfair/video.py:"
E = "norfair/metrics.py:"
U = "norfair/utils.py:"
prop("C41", "get_cutout returns exactly the part of the image the points span",
     "get_cutout(points, image) returns the rectangle of the image between the smallest and the largest coordinate of the points (cut to integers, the last row and column not included), limited to the image: parts outside, negative coordinates included, are left out, and nothing from elsewhere in the image is returned.",
     ["inputs"], "every position of the points inside and beyond every side of the image",
     "points that leave the image on some side, as tracker estimates do, are not sampled",
     [("cutout", U + "get_cutout")],
     "membership of every pixel, as a formula over the symbolic coordinates")
prop("C42", "A Video yields every frame once and in order and writes what it is given",
     "Iterating over a Video yields exactly the frames the source delivers, once and in order, until it ends (in any way OpenCV reports it and whatever the clock says), then releases source and output. write opens the output once, at the size of the first frame written, with the frame rate of the source or the one given, and writes every frame given exactly once. show displays the frame, or the frame reduced by downsample_ratio; both return the key pressed. Neither or both of camera and input_path, or a camera that is no int, is a ValueError, a missing file or one without frames a RuntimeError.",
     ["inputs", "histories", "configurations"], "every number of frames within the bound, every way of ending, every subset of frames written, symbolic sizes, rates, clock and ratio",
     "no test covers the video code at all",
     [("iteration", V + "Video.__iter__"), ("writing", V + "Video.write"), ("showing", V + "Video.show"), ("construction", V + "Video.__init__")],
     "the calls recorded by an OpenCV stand-in, compared with the frames and sizes of the harness")
prop("C43", "Output path, codec and progress description of a video are as documented",
     "get_output_file_path is the output_path itself unless that is a folder; in a folder it is <name of the input up to its first dot>_out.<extension>, or camera_<number>_out.<extension>. The codec is the one given, else mp4v for .mp4 and XVID for .avi in either case, and for other file names a RuntimeError is raised. The progress description (file name or Camera(n), then ' | ' and the label) is shown as it is if it is shorter than the terminal's columns minus 25, else abbreviated to beginning ... end so that it is (never to less than 6 characters).",
     ["inputs", "configurations"], "every name, extension, camera number and terminal width within the bounds",
     "no test covers it; all texts cannot be sampled",
     [("path", V + "Video.get_output_file_path"), ("codec", V + "Video.get_codec_fourcc"), ("description", V + "Video.abbreviate_description"), ("terminal", U + "get_terminal_size")],
     "the expected text built in the harness from the symbolic parts")
prop("C44", "VideoFromFrames yields the frames of a sequence and writes them to its video",
     "Iterating over VideoFromFrames yields the images 000001 ... seqLength (with the directory and extension of the sequence's information) in order, every time anew (also when the iteration before was left early). update writes each frame given to videos/<sequence>.mp4 (named after the sequence's folder, however its path is written) in the save path, created at the frame rate and size of the sequence, and closes it after the last frame; with make_video=False no video is created.",
     ["inputs", "histories"], "every sequence length within the bound, symbolic frame rate and size",
     "no test covers it",
     [("frames", V + "VideoFromFrames")],
     "the calls recorded by an OpenCV stand-in")
prop("C45", "The predictions file holds every prediction in the MOTChallenge format",
     "PredictionsTextFile writes, for every update, one line 'frame,id,left,top,width,height,-1,-1,-1,-1' per predicted object, in order and to full precision, numbering frames from 1 or by the frame_number given, to predictions/<sequence>.txt (named after the sequence's folder, however its path is written) in the save path (created when needed, replacing an earlier file); after seqLength updates everything is on disk.",
     ["inputs", "histories"], "every pattern of objects seen over the frames, every position and frame number",
     "no test covers it",
     [("file", E + "PredictionsTextFile")],
     "the file read back and compared with the estimates of the tracked objects")
prop("C46", "Detection files are read completely, every row in its own frame",
     "DetectionFileParser yields, every time it is iterated, one list per frame 1 ... seqLength with exactly one Detection for every row of det/det.txt of that frame, in whatever order and number the rows are (one row or none included): points (left, top), (left + width, top + height), and the row's confidence as score of both. seqLength is that of the information_file given, else of the sequence's seqinfo.ini.",
     ["inputs"], "every assignment of frame numbers to up to 4 rows (5 thorough), every box and score",
     "no test covers it; which rows belong to which frame, in any order, is not sampled",
     [("parser", E + "DetectionFileParser")],
     "the symbolic rows the harness wrote to the file")
prop("C47", "Variables of an information file are found by their whole name",
     "InformationFile.search(name) returns the value of the line 'name=value' with exactly that name, as int if it consists of digits and as the unchanged text otherwise, wherever the line is and whatever other names there are (also ones that begin with the name), and raises ValueError if there is none.",
     ["inputs"], "every text of names and values within the bounds",
     "all texts cannot be sampled; no test covers it",
     [("search", E + "InformationFile.search")],
     "equality of the symbolic names decided in the harness")
prop("C48", "Metrics are computed from exactly the predictions given, sequence by sequence",
     "Accumulators hands motmetrics, for every sequence, exactly the predictions of its updates (frame, id, left - 1, top - 1, width, height), also when there are only one or none or update() is called without any, against the ground truth gt/gt.txt of the same sequence, by IoU with threshold 0.5 and under the name of the sequence's folder, and computes the metrics asked for (all of MOTChallenge by default) with or without the overall row. compute_metrics returns the summary and save_metrics writes its table to the file named, creating the folder. The length of a sequence is that of the information_file given, else of its own seqinfo.ini.",
     ["inputs", "histories"], "every pattern of objects seen over the frames of one or two sequences, every position",
     "the one metrics test needs data that is not available and looks at totals",
     [("accumulation", E + "Accumulators"), ("table", E + "load_motchallenge"), ("evaluation", E + "eval_motChallenge")],
     "what stand-ins for pandas and motmetrics were given, compared with the estimates of the tracked objects")
prop("C49", "Debug output shows objects as they are, in any state",
     "print_objects_as_table and repr work for objects in every state (tentative, confirmed, never matched) and show id, age, hit counter, last distance (4 and 2 digits, None if there is none) and initializing id. Every object of a tracker has its own initializing id, which never changes; it gets one frame older with every update; its last distance is the distance of its last match.",
     ["histories"], "every pattern of detections over the frames, every distance",
     "no test prints objects; states before the first match are not sampled",
     [("table", U + "print_objects_as_table"), ("repr", T + "TrackedObject.__repr__"), ("age", T + "TrackedObject.tracker_step")],
     "the harness's own record of ages and distances")
prop("C50", "Drawing primitives draw what they are given; sizes not given suit the frame",
     "Drawer.circle, rectangle, line, cross, text and alpha_blend draw on the frame given (and return it) at the place and with the size, thickness and colour given; text puts its shadow, if any, beside the text and under it, and moves the text by no more than half its thickness, right and up; alpha_blend uses beta = 1 - alpha if it is not given. Sizes that are not given are picked from the frame for points, boxes, titles and paths: large enough to be seen (radius and lines of paths and text at least 1, boxes not filled, text scale between 0.5 and 1.5), never smaller on a frame that is at least as large in both directions, and larger on large ones.",
     ["inputs", "configurations"], "every place, size, colour and pair of frame sizes within the bounds",
     "tests do not draw; sizes for all frame sizes are not sampled",
     [("primitives", G + "drawer.py:Drawer"), ("sizes of points", G + "draw_points.py:draw_points"), ("sizes of boxes", G + "draw_boxes.py:draw_boxes"), ("sizes of paths", G + "path.py:AbsolutePaths.draw")],
     "the arguments given, compared with the calls recorded by an OpenCV stand-in")
prop("C51", "The unit and the direction of the axes do not matter",
     "If all coordinates, and with them the distances and the threshold, are given in another unit (also mirrored), a tracker does the same with any filter, with or without ReID: the same objects are matched, created, confirmed, dropped and shown at the same time, and their estimates, velocities and last distances are those in the other unit. No absolute sizes are built in.",
     ["inputs", "histories"], "every position of the points and threshold over the frames of the bound, factors 2, 1/4, -1, -8, 4096",
     "a relation between two runs that no test compares; sizes built in go unnoticed at the sizes a test uses",
     [("update", T + "Tracker.update"), ("matching", T + "match_detections_and_get_distances"), ("objects", T + "TrackedObject"), ("filters", F + "OptimizedKalmanFilter")],
     "the same tracker run on the same positions in the other unit")
prop("C52", "Points and axes are interchangeable and estimated independently",
     "Giving the points of all detections in another order, or their coordinates with the axes in another order, gives the same objects with estimates, velocities and visible points in that order; and with a distance that does not decide otherwise every point, and every coordinate, is estimated just as if it were the only one, points being left out by their own scores alone.",
     ["inputs", "histories"], "every position and score over the frames of the bound, every order of up to 3 points and axes, all filters",
     "a relation between runs that no test compares",
     [("objects", T + "TrackedObject.hit"), ("filters", F + "OptimizedKalmanFilter"), ("FilterPy", F + "FilterPyKalmanFilterFactory.create_filter")],
     "the same tracker run on the points in the other order, or on one point or axis alone")
prop("C53", "Objects that cannot match each other's detections are tracked as if alone",
     "If two groups of objects have different labels, or the distances between them are never below the threshold, each group is tracked as if the other were not there, whatever the order of the detections: the same objects, visible at the same frames, with the same ages, hit counters, estimates, past detections and last distances, also with ReID.",
     ["inputs", "histories"], "every pattern of detections of both groups over the frames, every distance",
     "a relation between runs that no test compares; tests follow one object or a fixed video",
     [("update", T + "Tracker.update"), ("matching", T + "Tracker._update_objects_in_place"), ("labels", D + "Distance.get_distances"), ("ReID", T + "TrackedObject.merge")],
     "the same tracker run on each group alone")
prop("C54", "Once all objects are gone a tracker starts afresh",
     "When nothing is tracked any more, a tracker behaves just as a new one (objects, counters, estimates, past detections, absolute coordinates, with or without ReID), whatever it saw before, except that ids and total_object_count go on where they were.",
     ["histories"], "every pattern of detections before and after, every distance and camera movement",
     "no test uses a tracker after everything has gone",
     [("update", T + "Tracker.update"), ("objects", T + "TrackedObject.__init__"), ("numbers", T + "_TrackedObjectFactory")],
     "a new tracker given the same detections")
prop("C55", "Parameters that are left out have their published values",
     "Leaving out any of the optional parameters of Tracker, Detection, the filter factories, the transformation getters, Paths, AbsolutePaths, draw_points, draw_boxes and draw_absolute_grid is the same as giving the value published in the signature or the documentation: the same objects, estimates, transformations and pictures for every history. In particular, a tracker has hit_counter_max 15, a delay of half of it, 4 for points and past detections, threshold 0 for scores and ReID and no ReID window, and uses the optimized filter with R = 4, Q = 0.1 and initial variances 10, 0, 1.",
     ["configurations", "histories"], "every subset of parameters of the forms none, one, all but one; every position, score and ReID distance within the bounds",
     "tests give most parameters; what a default does shows only after many frames",
     [("tracker", T + "Tracker.__init__"), ("filters", F + "OptimizedKalmanFilterFactory.__init__"), ("FilterPy", F + "FilterPyKalmanFilterFactory.__init__"), ("getters", M + "TranslationTransformationGetter.__init__"), ("paths", G + "path.py:AbsolutePaths.__init__"), ("drawing", G + "draw_points.py:draw_points")],
     "the same run with the published values given")

prop("C56", "Looking at objects changes nothing, and what was read stays as it was",
     "Reading attributes, estimates and velocities, counts and lists of objects, printing or drawing them, and computing distances to them, any number of times, changes nothing: the tracker goes on exactly as if nobody had looked. Estimates, velocities and live points that were read keep their values through later updates.",
     ["histories"], "every pattern of detections, scores, distances and looks over the frames of the bound",
     "tests read results once, at the end; that reading has no effect needs the run without it",
     [("objects", T + "TrackedObject.get_estimate"), ("lists", T + "Tracker.get_active_objects"), ("drawing", G + "draw_points.py:draw_points"), ("paths", G + "path.py:AbsolutePaths.draw"), ("distances", D + "VectorizedDistance.get_distances"), ("table", "norfair/utils.py:print_objects_as_table")],
     "the same tracker that nobody looks at")
prop("C57", "Distance functions see this frame's detections and predicted objects",
     "The distance function is given a detection of this update, with its absolute position for this frame's camera, and a tracked object of the same label that is not lost, as predicted for this frame: moved by its velocity, shown through this frame's transformation, one frame older, and with the last detection it had before the update. Confirmed objects are compared with every detection of their label and tentative ones with every one left over. The ReID distance is given an object that was tentative and has just been matched, then one that was confirmed and is not matched, of the same label.",
     ["inputs", "histories"], "every pattern of detections, positions, camera movements and near and far distances over the frames of the bound",
     "tests' distance functions look at the points only, and only at what decides the test",
     [("update", T + "Tracker.update"), ("matching", T + "Tracker._update_objects_in_place"), ("distances", D + "ScalarDistance.get_distances"), ("objects", T + "TrackedObject.tracker_step")],
     "what objects were before the update, moved by hand")
prop("C58", "Without OpenCV or motmetrics the rest works and what needs them says so",
     "In a program without OpenCV, motmetrics and pandas the library can be imported and tracks exactly as with them; whatever needs one of them (drawing, Video, MotionEstimator, the metrics) raises an ImportError that says what to install, as soon as it is used, and nothing else.",
     ["configurations", "inputs"], "every pattern of detections over the frames of the bound; every function that needs them",
     "tests run where everything is installed",
     [("OpenCV", "norfair/utils.py:DummyOpenCVImport"), ("metrics", "norfair/utils.py:DummyMOTMetricsImport"), ("drawing", G + "drawer.py:Drawer"), ("import", E + "Accumulators.create_accumulator")],
     "the same program with them; ImportError")
prop("C59", "It does not matter how a distance is given",
     "A distance given to Tracker by its name tracks exactly like a function of one's own that computes the same, or like the library's function of that name: the same matches, objects, estimates and last distances, for scalar, vectorized and scipy distances, any labels and thresholds.",
     ["inputs", "histories"], "every position, label and threshold over the frames of the bound",
     "tests use one way to give each distance; differences show only for certain labels, numbers of detections or distances",
     [("names", D + "get_distance_by_name"), ("vectorized", D + "VectorizedDistance.get_distances"), ("scipy", D + "ScipyDistance"), ("update", T + "Tracker.__init__")],
     "a tracker with a distance function written in the check")
prop("C60", "It does not matter in which form positions and scores are given",
     "Whole coordinates given as integers of any width (unsigned ones included), in single precision, as slices or transposes of larger arrays, or a single point as a vector, and scores given as integers, truth values or in single precision, are tracked just like those given in double precision: the same matches, distances, visible points, positions with and without a camera, estimates (floating-point numbers) and velocities, with any distance and filter. The arrays given are left alone.",
     ["inputs", "histories"], "every whole coordinate, camera movement and score pattern over the frames of the bound, in every form listed",
     "tests give integer arrays or floats as it happens; overflow and truncation show only for certain positions",
     [("points", T + "Detection.__init__"), ("estimates", T + "TrackedObject.hit"), ("filters", F + "OptimizedKalmanFilterFactory.create_filter"), ("boxes", D + "iou"), ("camera", M + "TranslationTransformation")],
     "a tracker given the same positions in double precision")

NA = {}
