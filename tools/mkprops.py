"""Write /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None)))
T="src/glimpse/track/tracker.py"; M="src/glimpse/track/motion.py"; O="src/glimpse/optimize.py"; H="src/glimpse/helpers.py"; R="src/glimpse/raster.py"; I="src/glimpse/image.py"; C="src/glimpse/camera.py"

p("C01","Tracks do not depend on parallelism, scheduling or the other tracks",
 """For given motion models, observers, observer mask and per-model random draws, a multi-model tracking run returns the same
 tracks (datetimes, matched images, means, sigmas or covariances, particles, weights, reduced values, errors) for every
 parallel setting, every supported backend (processes or threads), every assignment of models to workers and every
 interleaving and completion order. Entry i always belongs to motion model i, and equals what tracking model i without the
 other models produces.""",
 ["schedules","configurations","inputs"],"All worker counts, both pool backends, all item-to-worker assignments, line-level thread interleavings and completion orders, over random scenes, masks, resampling methods and return options.",
 "The tests run one schedule of one real process pool (or none) and compare nothing across schedules; a thread backend is never used, and unseeded particles hide any difference.",
 [T,"src/glimpse/track/tracks.py","src/glimpse/config.py"],
 [("Tracker.track process/reduce over config.backend",T),("image caching before fork",T)],
 [("particles/weights/templates","per-track filter state kept on the tracker",T)],["Tracks returned by Tracker.track"])
p("C02","A failure or warning in one track stays in that track",
 """In a run with two or more motion models, an exception raised while one model is being tracked (from the motion model, from
 reading an image, from invalid particles, whatever its class) does not escape: it is recorded as an exception in the error
 entry of exactly that track and carries the original message, the rows of that track before the failure equal those of the
 fault-free run and the later rows are missing, and every other track equals its fault-free result; warnings raised while a
 track runs are recorded for that track only, with one entry (a tuple of warnings or nothing) per track. With a single motion
 model tracked serially the exception propagates unchanged. If a worker process dies, the run raises rather than return tracks.""",
 ["fault_sequences","schedules","inputs"],"Any fault (exception class, warning, image I/O failure, worker death) at any call of any subset of tracks, in serial, process and thread execution.",
 "The tests cover one invalid-particle case in serial; they never inject faults at chosen steps, mix faults and warnings across tracks, or kill a worker.",
 [T,"src/glimpse/track/tracks.py"],
 [("per-track try/except and catch_warnings",T),("error recreated with formatted traceback",T),("Tracks.errors / warnings / success","src/glimpse/track/tracks.py")],
 (),["Tracks.errors, Tracks.warnings, Tracks.success, Tracks.means"])
p("C03","Track histories follow the observation schedule and the particle record",
 """Each track starts from its initial particles at the first requested datetime that has an image from one of the observers
 enabled for it, ends at the last such datetime, and is missing (NaN) outside that window; between consecutive datetimes the
 particles are evolved exactly once, by exactly the difference of the two datetimes. At every step only the images matched to
 that datetime from enabled observers are read, the particle and weight counts equal the model's n, every resampled particle
 is one of the evolved particles, and the returned means, sigmas and covariances are the weighted statistics of the
 particles and weights returned (or passed to the reducing function) for that step.""",
 ["histories","inputs","schedules","configurations"],"All observation schedules (gaps, unaligned observers, masks, forward and backward datetimes, maxdt), resampling methods, return options and schedules.",
 "The tests check a handful of fixed runs for shape or rough value; the evolve/update/record sequence is never compared step by step with a model of the filter.",
 [T,"src/glimpse/track/motion.py","src/glimpse/track/observer.py"],
 [("process loop over datetimes",T),("template_indices / matching_images",T),("particle_mean, compute_particle_sigma, particle_covariance",T)],
 (),["motion model callbacks","observer reads","Tracks arrays"])
p("C04","Datetimes are matched by elapsed time, whatever the process time zone",
 """Matching of datetimes to images (nearest image within the tolerance, otherwise no match), parsing of tracking datetimes
 (rejecting non-monotonic input, dropping duplicates and datetimes no image matches, requiring at least two), pairwise
 datetime distances, selection of datetimes by range and snap interval, splitting of an observer by datetime (which keeps every
 image), lookup of an image index by datetime and choice of bracketing rasters by datetime depend only on the elapsed time between the naive datetimes involved. They give the same
 result in every process time zone, including across daylight-saving gaps and folds, and when the time zone or the wall
 clock changes between or during calls.""",
 ["configurations","inputs","histories"],"All process time zones and changes of time zone or wall clock between operations; datetimes spread over DST transitions, duplicates, ties, reversed order, any tolerance.",
 "The tests run in one time zone (UTC) with datetimes far from any transition, so conversions through local time cannot show.",
 [H,T,"src/glimpse/track/observer.py",R],
 [("pairwise_distance_datetimes",H),("select_datetimes / datetime_range",H),("Tracker.match_datetimes / parse_datetimes",T),("Observer.index / subset / split","src/glimpse/track/observer.py"),("RasterInterpolant.nearest",R)],
 (),["return values of the matching functions"])
p("C05","Resampling conserves particles for every random stream",
 """For every legal stream of random draws (including values at the edges of [0, 1)) and every set of finite non-negative weights with a
 positive sum, each resampling method leaves exactly n particles, each an exact copy of one of the original particles paired
 with that particle's weight, and never raises. Up to rounding, systematic resampling copies a particle of normalised weight w either
 floor(nw) or ceil(nw) times, stratified resampling differs from nw by less than 2, and residual resampling copies it at least floor(nw)
 times and no particle of zero remaining weight beyond that; with every method a particle of zero weight is never copied and the mean number of copies over many plain draws is nw.""",
 ["inputs","fault_sequences"],"All random streams (uniform, extreme and adversarial draws), all weight vectors (dominant, equal, tiny, zero), all methods and n.",
 "The tests draw from one seeded generator where the extreme draws have probability near zero and check only that tracking runs.",
 [T],[("Tracker.resample_particles",T)],(),["Tracker.particles and Tracker.weights after resampling"])
p("C06","Projected DEM images do not depend on parallelism or scheduling",
 """For given inputs, projecting a DEM into a camera returns the same image, bit for bit, for every parallel setting, every
 backend and every completion order of the tiles, including where neighbouring tiles overlap or hide one another; where
 tiles compete for a pixel the later tile in tile order wins. The DEM, values and mask passed in are left unchanged, also
 when a tile fails, and a failing tile or a dead worker makes the call raise rather than return an image with missing tiles.""",
 ["schedules","fault_sequences","configurations","inputs"],"All worker counts, backends, tile completion orders and tile failures over random DEMs, cameras, masks, tile sizes, overlaps and scale limits.",
 "The tests use one tile or one schedule; results of overlapping tiles are never compared across completion orders.",
 [C,R,"src/glimpse/config.py"],[("Camera.project_dem process/reduce",C),("Grid.tile_indices",R)],(),["array returned by Camera.project_dem","dem.array"])
p("C07","Keypoints and matches do not depend on parallelism or scheduling",
 """For a deterministic descriptor matcher, detecting keypoints, matching image pairs, converting and filtering matches give the same keypoints, the same set of
 matched pairs (those the time separation, sequence and image criteria select) and the same match coordinates and weights
 for every parallel setting, backend, worker assignment and completion order, in memory or through keypoint and match
 files, and never deadlock. The result is an (n, n) strictly upper-triangular matrix whose entry (i, j) refers to the very
 camera objects of images i and j; clearing keypoints or matches drops them from memory but changes no result.""",
 ["schedules","configurations","inputs"],"All worker counts, both backends, interleavings, completion orders, and combinations of maxdt, seq, imgs, clear, overwrite, weights, filter and match type.",
 "The tests use two or three images and one schedule; results of different schedules, backends and clearing modes are never compared.",
 [O,"src/glimpse/config.py"],[("KeypointMatcher.build_keypoints / build_matches",O),("ordered clearing of keypoints",O),("convert_matches / filter_matches reduce",O)],
 [("keypoints / matches","results kept on the matcher",O)],["KeypointMatcher.keypoints, .matches, files"])
p("C08","Keypoint and match runs resume correctly after any crash",
 """If a process building keypoint or match files is killed at any point, or a write fails, rerunning the same build on the same
 directories (without overwriting) succeeds and yields exactly the keypoints, matches and files of an undisturbed run, and a
 file present after the crash is always complete. Several processes building into the same directory at once, in any
 interleaving, also all obtain the undisturbed result, and overwriting recomputes results rather than reuse files.""",
 ["crash_points","fault_sequences","schedules","histories"],"Kill, power loss, full disk or I/O error at every disk operation (and inside writes), any number of crashes and reruns, one or several concurrent builders.",
 "The tests build once into a fresh directory and never interrupt, fail or overlap a build.",
 [O,H],[("write_pickle of keypoints and matches",H),("skip of existing files",O)],(),["files in the keypoint and match directories","results of the rerun"])
p("C09","Saved pickle, JSON, camera and SVG files are complete or untouched",
 """Saving an object as a pickle (plain or compressed), JSON, camera JSON or SVG file either succeeds, and reading the file back gives
 an equal object, or fails with an exception. In both cases, and if the process is killed or loses power at any point, the path holds either
 the complete previous content (or still nothing) or the complete new content, other files in the directory are unchanged,
 and a failed save leaves no stray file behind.""",
 ["crash_points","fault_sequences","inputs","histories"],"Crash, power loss, full disk, I/O error, short write, unserialisable object or allocation failure at any point of any save in a sequence of saves and reads.",
 "The tests save once to a fresh path on a healthy disk.",
 [H,C,"src/glimpse/svg.py"],[("write_pickle / write_json",H),("Camera.to_json",C),("svg.write","src/glimpse/svg.py")],(),["file content at the target path and in its directory"])
p("C10","Writing Exif tags never damages the photo",
 """Inserting Exif tags into an image file either succeeds, after which the file has the same pixels and exactly the tags that were
 inserted, or raises; if it raises, or the process is killed or loses power at any point, the file holds either its complete
 original bytes or the complete new bytes. Other files in the directory are unchanged and a failed insertion leaves no stray file.""",
 ["crash_points","fault_sequences","histories"],"Crash, power loss, full disk, I/O error or invalid tag at any point of any insertion in a sequence of edits.",
 "The one test inserts into a temporary copy on a healthy disk.",
 ["src/glimpse/exif.py"],[("Exif.insert via piexif","src/glimpse/exif.py"),("Exif.dump","src/glimpse/exif.py")],(),["bytes of the image file"])
p("C11","Image caching is invisible: a read returns the file's pixels",
 """After any history of cached and uncached reads, full or boxed, camera resizes, cache clears, and failed reads (file missing, truncated or
 unreadable for a while), every read that succeeds returns exactly the pixels of the file resized to the current camera image
 size, cropped to the box, as a fresh image object would return. A read that cannot get all pixels raises, and nothing it
 leaves behind changes the result of later reads; the same holds when threads share the image. An observer's tile for a point is the box of
 the size asked for nearest to it, and refused where it leaves the image; shifted by part of a pixel, or sampled at points or on a grid,
 a tile gives the spline through its pixels there, and neither changes the tile nor what later reads return.""",
 ["histories","fault_sequences","schedules"],"All sequences of reads, resizes (whole fractions of the file size), cache operations and file faults, also interleaved across threads.",
 "The tests read a healthy file in two or three fixed orders.",
 [I,"src/glimpse/track/observer.py"],[("Image.read cache and box logic",I),("Observer.extract_tile / cache_images / clear_images","src/glimpse/track/observer.py")],
 [("array","cached pixels",I)],["arrays returned by Image.read"])
p("C12","Raster reads and samples never corrupt the raster",
 """After any history of cached and uncached reads, full or boxed, cache clears and samples of a raster opened from a file, including reads
 that fail (file missing or damaged for a while) and samples that fail (out of bounds, interpolation error, allocation failure), each
 read that succeeds returns the file's values cropped to the box as a fresh raster would. Sampling gives the values a
 fresh raster gives and never changes the raster's values, also when a sample fails or several threads sample at once.""",
 ["histories","fault_sequences","schedules"],"All sequences of reads, samples, cache operations and failures, in one thread or interleaved across threads; NaN and integer rasters, no-data values, cropped and resized openings.",
 "The tests sample once and never after a failure or from two threads; box reads are tested on fresh objects only.",
 [R],[("Raster.read / array cache",R),("Raster.sample and its grid variant",R)],[("_array","cached values",R)],["Raster.read, Raster.sample, Raster.array"])
p("C13","Camera optimisation leaves the cameras as it found them",
 """Predicting, computing residuals or errors, plotting or fitting a camera model with trial parameters leaves every camera exactly as
 it was before the call, whether the call returns, raises or is interrupted at any evaluation of the controls or of the
 optimiser, including fits that go through several parameter stages. The same holds for fitting observer view directions, and
 setting then resetting cameras restores the state last saved.""",
 ["fault_sequences","histories"],"An exception or interrupt at any evaluation during any sequence of predict, residual, error, plot, fit, set and reset calls on cameras shared by several controls.",
 "The tests fit to completion; no evaluation ever fails, so nothing exercises the restore path.",
 [O],[("Cameras.predicted / plot / fit restore of vectors",O),("ObserverCameras.fit reset",O),("set_cameras / reset_cameras",O)],
 [("camera vectors","parameters written during trial evaluations",C)],["Camera.to_array of every camera before and after"])
p("C14","RANSAC terminates with distinct samples and consistent inliers",
 """For every random stream, sampling yields sets of n distinct indices, never the same set twice, exactly as many as requested or as
 exist, and then stops. Whatever subset of trial fits fails to converge, RANSAC returns parameters refitted on a
 consensus set that met the acceptance criteria with the lowest mean error among those tried, together with exactly the
 members within the error threshold of those parameters, and raises if no trial qualified; an exception from the model propagates.""",
 ["fault_sequences","inputs"],"All random streams (including repeated and adversarial shuffles), sizes, thresholds and patterns of failing fits.",
 "The tests use one clean polynomial with one seed; failing fits, exhausted sample spaces and adversarial shuffles never occur.",
 [O],[("ransac",O),("_ransac_samples",O)],(),["return value of ransac, calls made to the model"])
p("C15","Point matches stay aligned through any sequence of operations",
 """Through any sequence of converting between match types, filtering, resizing, saving and reloading, and dropping images, serial or
 parallel, a set of matches keeps the same number of points in both images, in camera and image coordinates and in
 weights, and each remaining point pair is an original pair with its own weight in the original order, both coordinate kinds describing the same
 point. Filtering keeps exactly the pairs its criteria select, and an operation that raises leaves the matches it failed on usable and unchanged.""",
 ["histories","schedules","fault_sequences"],"All operation sequences over match types, with and without weights, image coordinates cleared or not, serial or parallel.",
 "The tests filter one plain set once; filtering after conversion, conversion after filtering and reloads are never combined.",
 [O],[("Matches.filter / to_type / resize",O),("RotationMatches coordinate pairs",O),("KeypointMatcher.convert_matches / filter_matches / drop_images",O)],
 [("uvs / xys / weights","parallel arrays of one match set",O)],["uvs, xys, weights, size of every match set"])
p("C16","Derived raster coordinates and interpolants always match the raster",
 """After any sequence of shifting, cropping, resizing, resampling, reassigning values, copying, sampling and failed operations on a raster,
 its cell coordinates, bounds, cell size, equality and sampled values equal those of a new raster built from its current values and limits, and the values and limits themselves
 are those the operations define (a shift moves coordinates and values by exactly the given offsets, a crop keeps exactly the cells within the crop).
 Operations on a copy never affect the original. Conversions between coordinates, cells and indices, snapping, tests of bounds, crop extents and tiles agree with the cells as they then are, tiles covering each cell exactly once (plus the overlap asked for).""",
 ["histories","fault_sequences"],"All sequences of mutating and observing operations with faults (invalid arguments, failing interpolation) between them, in any order relative to when cached coordinates and interpolants are first built.",
 "The tests apply one operation to a fresh raster, so caches are never stale.",
 [R],[("cached x, X, y, Y, interpolant",R),("_shift_xy / array setter invalidation",R)],[("_x,_X,_y,_Y,_Zf","cached coordinates and interpolant",R)],["x, y, X, Y, xlim, ylim, d, sample, array"])
p("C17","Raster interpolation in time never alters its inputs",
 """Interpolating a raster series returns the same mean and sigma for the same request whatever requests came before it, including
 requests that failed part-way (an input file missing or damaged, a user function raising, a point not bracketed), and
 never changes the rasters, sigmas or coordinates it was given. At a coordinate equal to an input's the mean is that input's values on the common grid,
 and between two inputs it is their linear interpolation.""",
 ["histories","fault_sequences","inputs"],"All request histories with faults, over rasters, files and numbers, with crops, cell sizes, z limits, user functions and extrapolation.",
 "The tests call a fresh interpolant once per case and never check the inputs afterwards or after a failure.",
 [R],[("RasterInterpolant.__call__ copies before modifying",R)],(),["returned rasters, the input rasters"])
p("C18","A raster or image write that returns has written everything",
 """Writing an array, a raster or an image to a raster file either returns, after which opening the file gives the same values (exactly, where the format
 holds their data type losslessly, otherwise up to its rounding) and the no-data value, transform and projection that the format can hold, or raises; it never reports success when the disk filled up or
 the write failed part-way. The array or raster being written is left unchanged.""",
 ["fault_sequences","inputs","configurations"],"Disk-full limits at any byte of the output, unwritable and vanishing targets, over drivers, dtypes, band counts and sizes.",
 "The tests write to a healthy disk, where the return of each write call does not matter.",
 [H,R,I],[("write_raster",H),("Raster.write",R),("Image.write",I)],(),["exception or file content after the call"])
p("C19","Tracking again gives what a fresh tracker gives",
 """Any sequence of tracking runs on one tracker and its observers - complete, failed, interrupted, with different motion models, datetimes, masks and
 options, with images cached, cleared or uncached in between - leaves nothing behind that changes a later run: the next run returns what a newly
 built tracker over newly built observers returns for the same draws. A run leaves its arguments and the observers' images, cameras, datetimes and pixel
 data unchanged.""",
 ["histories","fault_sequences","schedules"],"All histories of runs, faults inside runs, cache operations and backends on shared trackers and observers.",
 "The tests build a new tracker for each run.",
 [T,"src/glimpse/track/observer.py",I],[("Tracker.reset",T),("image cache","src/glimpse/track/observer.py")],
 [("particles/weights/templates","state left by the previous run",T)],["Tracks of later runs, observers and arguments after each run"])
p("C20","Motion models follow their stated law for every random stream",
 """Initialising a motion model gives its number of finite particles, each component its mean plus its standard deviation times its own standard normal draw (speed and
 direction in cylindrical models), heights that of the surface under each particle plus its uncertainty times a draw. Evolving moves every particle by v t + a t^2/2 and changes its
 velocity by a t, for any forward, backward, split or zero step, with an acceleration drawn for each particle; in tangent models the height over the surface changes only by the slope times the horizontal
 distance. Likelihoods are the squared distance from the surface over twice its variance. Whatever was done before - other models on the same surface, resampling,
 changed settings, failed reads of the surface, interrupts - a model gives what a new one gives for the same draws, changes neither itself nor its surface, and raises rather than
 giving heights where the surface is unknown.""",
 ["inputs","histories","fault_sequences","configurations"],"All model classes, settings, surfaces, random streams, steps and operation sequences with faults between them.",
 "The tests track once with one model class and fixed seeds and never check a particle against the law.",
 [M],[("initialize_particles / evolve_particles / compute_log_likelihoods",M)],[("xy, vxyz, axyz, dem, ...","settings of a model",M)],
 ["particles before and after each call","likelihoods","settings and surfaces after each call"])
p("C21","Particle weights are the likelihoods of the stated measurement model",
 """At every time step of a track, the weight returned with a particle is exp(-sum of its log likelihoods): for every enabled observer with a matching image, the squared error between the observer's template
 (grayscale, normalised, median-filtered tile of its first image used, around the projected weighted mean of the particles at that time) and the image around the
 particle's projected position (normalised, matched to the template's histogram, filtered), averaged over the template, interpolated at that position and divided by twice the observer's variance; plus the motion
 model's log likelihood. An image is left out only if the particles' search area leaves it, and then with a warning. This holds for every
 track whatever other tracks, earlier calls, caches, schedules and failures surround it.""",
 ["inputs","histories","schedules","fault_sequences","configurations"],"All observers (photos with any camera, rasters of any type, cached or not), tile sizes, filters, interpolation orders, models, masks and schedules.",
 "The tests check that tracking runs and roughly recovers a velocity; a weight that is off or belongs to another particle, observer or image shifts the result unnoticed.",
 [T,"src/glimpse/track/observer.py",H],[("Tracker.update_weights / compute_observer_log_likelihoods / extract_tile / initialize_template",T),("sample_tile, tile_box","src/glimpse/track/observer.py"),("normalize, match_cdf, compute_cdf",H)],
 [("templates, weights","state of the current track",T)],["Tracks.particles and Tracks.weights"])
O="src/glimpse/optimize.py"
p("C22","Camera fits and predictions follow from what the model was given",
 """Predictions, residuals, errors and fits of a camera model follow only from its cameras, controls, weights, groups, parameters, stages and options. Each parameter value is applied to exactly
 the cameras it names (those of its group, or its one camera, grouped or not); residuals are the weight times predicted minus observed for exactly the selected points; a fit goes through its stages in order, each with
 the model's controls, groups and weights, stays within the bounds, returns parameters whose residuals are no larger than at the start, and recovers cameras from exact observations (outliers excluded by weight or index).
 Whatever was done before - other trial parameters, subsets, fits, saved states, failed or interrupted calls, other models sharing the cameras - the results are those of a newly built model.
 Parameters begin at the values of the cameras (a group at their mean), within the bounds stated for them.
 Fits of observer view directions return the value of the stated objective, no larger than at the start.""",
 ["inputs","histories","fault_sequences","configurations"],"All cameras, controls, weights, groups, stages, options and call sequences with failures between them.",
 "The tests fit a few models once each, never in stages with default options, with groups and stages together, with ungrouped cameras, or after a failure.",
 [O],[("Cameras.set_cameras / predicted / residuals / fit",O),("ObserverCameras.fit",O),("Points, Lines, Matches .predicted / .observed",O)],
 [("params, masks, breaks, scales, sparsity, weights, vectors","state of the model",O)],
 ["returned predictions, residuals, errors, fit results","cameras after set_cameras"])
TR="src/glimpse/track/tracks.py"; OB="src/glimpse/track/observer.py"
p("C23","Animations and plots of tracks show the data of the frame they stand at",
 """Whatever frames an animation drew before, and however its timer, seeks, pauses, movie writes, zooms, unreadable photos and other animations or plots interleave, each frame drawn by Tracks.animate, Observer.animate
 and Observer.track shows that frame's own data: the photo's pixels at the box around the projected point, the track up to that time, the particles with their weights and their velocities scaled by that frame's own time step, the
 limits and the label. Every artist made for a frame is handed to the animation to be drawn, and none of an earlier frame stays. The frames are those selected which have a solution and an image, in order.
 Track plots and summaries (endpoints, standard deviations, success) report the stored values of the selected tracks, and nothing drawn changes the tracks, photos or other figures.""",
 ["schedules","histories","fault_sequences","inputs"],"All tracks, observers, selections of frames and orders of timer ticks, seeks, pauses, movie writes and failing reads.",
 "The test suite never animates or plots tracks; a frame's content depends on which frames were drawn before it.",
 [TR,OB],[("Tracks.animate, plot_xy, plot_vxy, plot_v1d, endpoints, xyz_sigma, success",TR),("Observer.animate / track / tile_box / extract_tile / plot_tile",OB)],
 [("lines, quivers, scatters, image tiles, limits and labels of a figure","what an animation has drawn",TR),("Image.array","cached pixels","src/glimpse/image.py")],
 ["matplotlib artists after each drawn frame","frame sequence and movie frames","returned plot artists"])
p("C24","A camera is its parameters, whatever its history",
 """Whatever was done to a camera - parameters set in any accepted form or edited in place, refused values, sizes in pixels or millimetres, corrections switched, resized, idealised, reset, copied,
 pickled, saved and reloaded as JSON, interrupted calls - its parameters are the ones this history implies, no other camera and no argument changes, and every accepted or refused target size is accepted or refused for any state
 of the random numbers. Each projection, visibility test, frame (grid, edges, view box, view polygon), rasterization, spherical conversion, rotation and rotation derivative is that of the distorted camera model with these
 parameters; unprojecting image points at any depths reverses projecting wherever the distortion can be inverted. Resetting restores the original parameters, also after an interrupt.""",
 ["histories","inputs","fault_sequences","configurations"],"All parameters, forms of values, sequences of operations, interrupts and states of the random number generator, for several cameras at once.",
 "The tests sample a few cameras, each just built, and a few points off the axes; they never mix setting, resizing, resetting, copying and failing.",
 [C,H],[("Camera attributes, resize, reset, copy, from_json, to_json",C),("Camera.xyz_to_uv / uv_to_xyz / rasterize / viewbox / viewpoly / edges / grid",C),("Camera.R / Rprime",C),("format_list, get_scale_from_size, rasterize_points",H)],
 [("Camera._vector, _original_vector, _sensorsz, correction","parameters of a camera",C)],["parameters of every camera after each operation","returned coordinates, masks, arrays"])
CV="src/glimpse/convert/converter.py"
p("C25","Converted cameras project like the originals",
 """Converting a camera to or from the Agisoft, Matlab, OpenCV or PhotoModeler model gives, wherever the other model can represent it, a camera with the same image coordinates for every camera direction; elsewhere the residuals
 reported are the true differences between both models, and optimising the requested parameters (by name, element or elements) changes those and no others, never increases the residuals, and comes as close as such an optimisation can.
 The converted camera, the arguments and, after a failure or interrupt of an optimisation, the optimised camera stay as they were; one converter can be used again. Reports and calibration files give the values, or their
 uncertainties, written in them, with defaults for absent ones.""",
 ["histories","inputs","fault_sequences","configurations"],"All parameters, parameter selections, numbers and positions of points, sequences of optimisations, interrupts at any line and file contents in the formats read.",
 "The tests convert a few cameras once with all parameters and read one file of each kind; they check neither selections of elements nor what an interrupted or repeated optimisation leaves.",
 [CV,"src/glimpse/convert/cameras"],[("Converter.residuals / optimize_cam / optimize_xcam",CV),("Agisoft, Matlab, OpenCV, PhotoModeler: to_camera, from_camera, from_xml, from_report","src/glimpse/convert/cameras")],
 [("Converter.xcam, cam",  "the two cameras being matched",CV)],["parameters of both cameras before and after","residuals","values read from files"])
IM="src/glimpse/image.py"; EX="src/glimpse/exif.py"
p("C26","A photo's camera and time come from its metadata and what overrides it",
 """An image opened from a photo has the camera its Exif metadata describe (size, focal length, sensor size by make and model) with every parameter given by the caller in any accepted form taking precedence, and the
 given or the Exif capture time with its subseconds. Metadata are read when needed, and not when everything is given; they are a snapshot of when the image was opened, whatever then happens to the file or to other images of it; missing,
 malformed or unreadable metadata leave values absent or raise a clear error, never wrong values. Edited metadata written to a photo are read back and leave its pixels alone, or, when interrupted, leave the photo as it was.
 Projecting a photo into another camera takes each pixel from where the photo's camera saw that direction, and marks those outside.""",
 ["histories","inputs","fault_sequences","crash_points","configurations"],"All metadata, overrides, orders of opening, rewriting, editing, moving and projecting, failed reads, vanished files and interrupts.",
 "The tests open a few complete photos once; they check neither combinations of overrides with partial metadata, nor files changing or failing under open images, nor projections.",
 [IM,EX],[("Image.__init__ / project / read",IM),("Exif.parse_tag / properties / insert / dump",EX)],
 [("Image.cam, exif, datetime, array",  "what an image knows about its photo",IM)],["cameras, times and tags of open images","projected arrays","bytes and pixels of files"])
na = dict
p("N04","Viewsheds and horizons agree with line of sight",
 "A viewshed marks exactly the cells with an unobstructed line of sight from the origin, and the horizon is its outer limit.",
 ["inputs"],"All surfaces and origins.","Tests sample a few surfaces.",[R],[("Raster.viewshed / horizon",R)])
p("N05","SVG markup is parsed as the format defines",
 "SVG paths, shapes and transforms are parsed to the coordinates their specification defines.",
 ["inputs"],"All well-formed files.","Tests sample a few files.",["src/glimpse/svg.py"],[("svg.read","src/glimpse/svg.py")])
p("N06","Geometry helpers are mutually consistent",
 "The box, line, ray and polygon helpers agree with one another for all inputs.",
 ["inputs"],"All shapes.","Tests sample a few shapes.",[H],[("geometry helpers",H)])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), [ (x["id"],len(x["title"])) for x in P if len(x["title"])>80])
