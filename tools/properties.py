#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json.  Run: python3 tools/properties.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
INFO = {}


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["cameratransform/" + f for f in files],
                     mechanism=[dict(name=n, where="cameratransform/" + w) for n, w in mechanism],
                     state=[], observe_at=observe, hook_needed=None)))
    INFO[id] = (technique, note)


prop("C01", "Space and camera coordinates are related by the documented rigid motion",
     "For every position, elevation, heading, tilt and roll, converting points from space to camera coordinates is the documented rigid motion: "
     "the camera looks in the compass direction of the heading (clockwise from the y axis), a tilt of 0 degrees is straight down and 90 degrees horizontal, and a positive roll rotates the camera around its view direction. "
     "Converting camera coordinates back to space is the exact inverse; directions are rotated only, distances and handedness are kept, and parameters that are not given take the documented defaults.",
     ["inputs", "configurations"], "all orientations (angles over several turns, positions over six orders of magnitude) and all points",
     "the tests compare a few example orientations and points", ["spatial.py"],
     [("rotation matrix from heading, tilt and roll", "spatial.py:SpatialOrientation._initCameraMatrix"), ("change of coordinates", "spatial.py:cameraFromSpace, spaceFromCamera")],
     ["SpatialOrientation.cameraFromSpace", "SpatialOrientation.spaceFromCamera"],
     "property-based testing (Hypothesis) against an independent reference rotation built from the documented axes; round trips and isometry",
     "random orientations and points; tolerance 1e-9 relative")

prop("C02", "Yaw, pitch and roll describe the same orientation as heading, tilt and roll",
     "An orientation given by yaw, pitch and roll is the same rotation as the orientation with heading = yaw, tilt = pitch + 90 degrees and roll of the opposite sign, for all angles, and it stays so when any of its parameters is changed later.",
     ["inputs", "histories"], "all angles and positions, before and after changes of the parameters",
     "the tests do not compare the two orientations", ["spatial.py"],
     [("rotation matrix from yaw, pitch and roll", "spatial.py:SpatialOrientationYawPitchRoll._initCameraMatrix")],
     ["SpatialOrientationYawPitchRoll.cameraFromSpace", "SpatialOrientationYawPitchRoll.spaceFromCamera"],
     "property-based differential testing of the two orientation classes and of the reference rotation", "random angles, positions and points")

prop("C03", "Projections follow their documented formulas and hide what is behind",
     "Points in camera coordinates are projected to the image by the documented formula of the rectilinear, cylindrical or equirectangular projection, for all focal lengths, principal points and image sizes, depending only on the direction of the point. "
     "The rectilinear projection hides exactly the points behind the camera (unless asked not to), while the panoramas show every direction, including points exactly beside the camera; the points of the caller are never modified.",
     ["inputs", "configurations"], "all projections, focal lengths and centers, points in all directions and distances",
     "the tests project a few points in front of the camera", ["projection.py"],
     [("projection formulas", "projection.py:imageFromCamera of the three projections"), ("hiding of points behind the camera", "projection.py:RectilinearProjection.imageFromCamera")],
     ["imageFromCamera"],
     "property-based testing against the documented formulas; metamorphic scaling of the distance", "random projections and points, incl. points beside and behind the camera")

prop("C04", "The ray of a pixel inverts the projection",
     "For all three projections, the ray of a pixel is the documented one, normed rays have length one and the same direction, and every point on the ray in front of the camera is projected back to the pixel. "
     "Conversely the ray of the image of a camera point passes through the point.",
     ["inputs", "configurations"], "all projections, pixels inside and around the image, distances along the ray",
     "the tests check a few pixels", ["projection.py"],
     [("rays of pixels", "projection.py:getRay of the three projections")], ["getRay", "imageFromCamera"],
     "property-based round trips pixel -> ray -> pixel, point -> pixel -> ray, and reference formulas", "random projections and pixels")

prop("C05", "Every documented way to specify a projection gives the same projection",
     "A projection specified by any documented combination of image size or image, sensor size, focal length in pixels or millimetres, field of view and principal point has the same parameters and projects in the same way as the one with explicit parameters. "
     "Contradictory or insufficient specifications are rejected with an error.",
     ["inputs", "configurations"], "all combinations of the constructor arguments, for all three projections",
     "the tests construct a few of the combinations", ["projection.py"],
     [("constructor logic", "projection.py:CameraProjection.__init__")], ["RectilinearProjection(...)", "parameters of the projection and of a camera with it"],
     "property-based testing over generated argument combinations, oracle: documented relations of the parameters", "all classes of argument combinations, random values")

prop("C06", "Field of view, focal length and image size are consistent",
     "The field of view of every projection is the angle between the rays at the left and right (top and bottom) edges of a centered image; the focal length calculated from a field of view reproduces it, and the image size calculated from a field of view is the one that has it.",
     ["inputs", "configurations"], "all projections, image sizes, focal lengths and angles",
     "the tests check single values", ["projection.py"],
     [("field of view formulas", "projection.py:getFieldOfView, focallengthFromFOV, imageFromFOV")], ["getFieldOfView", "focallengthFromFOV", "imageFromFOV"],
     "property-based testing: reference formulas, inverse functions, and rays at the image edges", "random projections")

prop("C07", "Lens distortions follow the documented radial formula",
     "The distorted position of an ideal image point is the documented radial polynomial of the Brown or ABC model around the principal point (in units of the focal lengths or of half of the smaller image side), it is finite and continuous including the center, and without a distortion points stay where they are.",
     ["inputs", "configurations"], "all coefficients, projections and points of the image",
     "the tests check single points for single coefficients", ["lens_distortion.py"],
     [("radial polynomials", "lens_distortion.py:_convert_radius, distortedFromImage")], ["distortedFromImage"],
     "property-based testing against the documented polynomials", "random lenses, projections and pixels")

prop("C08", "Removing the lens distortion inverts it on the whole image",
     "Wherever the distortion is strictly increasing up to the corners of the image, undistorting a distorted point gives the ideal point and distorting an undistorted point gives the observed point, up to a small fraction of a pixel, and the order of points by their distance from the center is kept.",
     ["inputs", "configurations"], "all lenses with an increasing distortion, all cameras (short to long focal lengths, any principal point), all points of the image",
     "the tests round-trip a few points of one camera", ["lens_distortion.py"],
     [("numerical inverse of the radial polynomial", "lens_distortion.py:invert_function, _init_inverse, imageFromDistorted")], ["imageFromDistorted", "distortedFromImage"],
     "property-based round trips and bisection reference", "random lenses with a slope between 0.4 and 1.6 on the image")

prop("C09", "A camera composes orientation, projection and lens consistently",
     "For every combination of projection, orientation and lens, the image of a point in space is its camera position projected and then distorted, and the ray of a pixel starts at the camera and points in the undistorted direction rotated to space. "
     "All points on the ray of a pixel are seen at the pixel, the ray of the image of a point passes through the point, and points behind a rectilinear camera are hidden unless asked not to.",
     ["inputs", "configurations"], "all combinations of parts, with random parameters, points and pixels",
     "the tests use a few cameras and few points", ["camera.py"],
     [("composition", "camera.py:Camera.imageFromSpace, Camera.getRay")], ["Camera.imageFromSpace", "Camera.getRay"],
     "property-based testing against the composed reference model, and round trips", "random cameras")

prop("C10", "Space positions of pixels fulfil the given constraint",
     "The space position of a pixel with a given X, Y or Z (one value or one per pixel) lies on the ray of the pixel and has exactly the given coordinate; it is undefined (nan) if and only if the camera does not look towards that plane. "
     "With a given distance it is the point at that distance from the camera on the ray, and the position of the image of a space point with one of its coordinates given is the point.",
     ["inputs", "configurations"], "all cameras, pixels, constraint axes and values",
     "the tests use Z=0 and a few pixels", ["camera.py"],
     [("intersection of the ray with the constraint", "camera.py:Camera.spaceFromImage")], ["Camera.spaceFromImage"],
     "property-based testing against reference rays; round trip space -> image -> space", "random cameras, rays that are not almost parallel to the plane")

prop("C11", "Rays intersect a mesh at its nearest triangle",
     "The space position of a pixel on a triangle mesh is the nearest intersection of its ray with a triangle in front of the camera, and undefined (nan) if there is none; it does not depend on the order of the triangles or of their corners, and with infinite planes the whole planes count. A ray that starts on the mesh meets it there. "
     "A wall extruded from a line covers exactly the area between the line and its extrusion.",
     ["inputs", "configurations"], "all meshes, rays and cameras (rays that are not at the edge of a triangle)",
     "the tests use a few triangles", ["ray.py", "camera.py"],
     [("ray-triangle intersection", "ray.py:ray_intersect_triangle"), ("nearest triangle", "ray.py:nanargmin"), ("walls", "ray.py:extrudeLine")],
     ["ray_intersect_triangle", "Camera.spaceFromImage(mesh=...)", "extrudeLine"],
     "property-based testing against an independent intersection; metamorphic permutations", "random and structured meshes")

prop("C12", "A batch of points gives the results of its points, in any layout",
     "For every transformation, the result of a list of points has one row per point, equal to the result of the point alone, for every number of points (including one and numbers equal to the number of coordinates) and for every way to pass them (array, list, tuple, integers, read-only or not contiguous arrays). Undefined points stay undefined and do not disturb the others, and the functions of cameras, parts and objects keep the arrangement of grids of points. "
     "The arrays of the caller are not modified, a constraint value per point belongs to its point, and points with a wrong number of coordinates or pairs of lists of different length are rejected.",
     ["inputs", "configurations"], "all transformations of cameras, parts and groups, batches of 0 to 20000 points, 8 layouts, arrays with up to 4 dimensions",
     "the tests use one or a few batch sizes per function", ["utils.py", "camera.py", "projection.py", "spatial.py", "lens_distortion.py", "gps.py", "ray.py"],
     [("format of point arrays", "utils.py:ensure_array_format")], ["all transformations of Camera, CameraGroup, projections, orientations and lenses"],
     "property-based differential testing batch against single points, over a table of all transformations", "random cameras; tolerances from the local sensitivity of each transformation")

prop("C13", "A camera depends only on the current values of its parameters",
     "After any history of changes (setting values through the camera, its parts or its parameters, resetting to defaults, changing defaults, giving uncertainties, sampling, returning to the mean, setting fit parameters), every camera behaves like a fresh camera with the final values. "
     "This also holds for parts shared by several cameras and for the parameters of a camera group, shared or of a single camera.",
     ["histories", "configurations"], "histories of up to 7 operations on up to 3 cameras with shared or separate parts",
     "the tests set single parameters once", ["parameter_set.py", "camera.py", "projection.py", "spatial.py", "lens_distortion.py"],
     [("parameters, defaults and callbacks", "parameter_set.py:Parameter, ParameterSet, ClassWithParameterSet"), ("derived state: camera matrix, inverse distortion", "spatial.py:_initCameraMatrix, lens_distortion.py:_init_inverse"), ("collected parameters", "camera.py:CameraGroup.__init__, Camera.__init__")],
     ["attributes of cameras and parts", "Camera.getRay", "Camera.imageFromSpace"],
     "stateful model-based testing: generated operation histories against a model of the parameter values and the reference camera", "histories of 1-7 operations")

prop("C14", "Saving and loading reproduces the camera",
     "A camera saved to a file and loaded again, into a new or an existing camera, has the same parameters and transforms points in the same way, for every projection, orientation and lens, for values that are numpy numbers and after any history of changes; the same holds for the files of the parts. "
     "Saved and loaded cameras are independent of each other, the loaded camera follows later changes, and a save that fails leaves an existing file as it was.",
     ["inputs", "histories", "configurations"], "all combinations of parts and parameter histories, including overwritten and older files",
     "the tests save and load one default camera", ["camera.py", "projection.py", "spatial.py", "lens_distortion.py"],
     [("files", "camera.py:Camera.save, Camera.load, load_camera; save and load of the parts")], ["save", "load", "load_camera"],
     "property-based round trips through files in a scratch directory, after generated histories", "random cameras and histories")

prop("C15", "The top view shows every ground position at its place",
     "Each pixel of the top view shows the color of the image where its ground position (at the given height) is seen by the camera, the x axis pointing right and the y axis pointing up, and is empty where the camera does not see it. "
     "This holds for gray, color and transparent images, any extent and scaling, and for any sequence of calls with changed cameras, extents, heights and hiding in between; images of a wrong size are rejected unless the check is switched off, without an extent the whole image is shown, and a plot shows the returned image at its position in space.",
     ["inputs", "histories", "configurations"], "all cameras, extents, scalings and heights, histories of up to 5 calls and changes",
     "the tests call it once and look at the shape", ["camera.py"],
     [("map of image positions and its cache", "camera.py:_getMap, getTopViewOfImage")], ["Camera.getTopViewOfImage"],
     "property-based testing against per-pixel reference projection; generated call histories for the cache", "small random images; pixels close to the border of two image pixels are not decided")

prop("C16", "Undistorting an image moves every pixel to its ideal position",
     "Each pixel of the undistorted image shows the color of the image at the distorted position of the pixel, and is empty where that is outside of the image, for every lens, for gray, color and transparent images, any extent and scaling. "
     "This holds for any sequence of calls with changes of the camera, the extent and the scaling in between, and a plot shows the returned image at its pixels.",
     ["inputs", "histories", "configurations"], "all lenses, cameras, extents and scalings, histories of up to 5 calls and changes",
     "the tests call it once", ["camera.py"],
     [("map of image positions and its cache", "camera.py:_getUndistortMap, undistortImage")], ["Camera.undistortImage"],
     "property-based testing against per-pixel reference distortion; generated call histories for the cache", "small random images")

prop("C17", "Distances, bearings and movements on the earth agree with the sphere",
     "The distance and bearing between two GPS positions are those of the great circle on a sphere of 6371 km radius (with heights, the difference in height is included), and moving a position by a distance and bearing arrives where the great circle ends, keeping the height. "
     "Moving and measuring are inverse to each other, for single positions, lists, and one position combined with many.",
     ["inputs"], "all positions including the poles, the date line, equal and antipodal positions, all distances and bearings",
     "the tests check single examples", ["gps.py"],
     [("great circle formulas", "gps.py:getDistance, getBearing, moveDistance, splitGPS")], ["getDistance", "getBearing", "moveDistance"],
     "property-based testing against unit-vector geometry; round trips and triangle inequality", "tolerances from the conditioning close to poles and antipodes")

prop("C18", "GPS positions as text keep their value",
     "Formatting a position and reading the text again gives the position up to the precision of the format, for every documented format of degrees, minutes and seconds, sign or letter, and for positions in all four quadrants. "
     "Every documented notation (symbols, letters, single strings, lists and heights) is read with the right value and sign; invalid formats are rejected.",
     ["inputs"], "all latitudes and longitudes, formats and notations",
     "the tests check a few strings", ["gps.py"],
     [("formatting and parsing", "gps.py:formatGPS, processDegree, gpsFromString")], ["formatGPS", "gpsFromString"],
     "property-based round trips, generated notations with a known value", "random positions and formats")

prop("C19", "A camera with a GPS position places points on the map",
     "A camera accepts its GPS position in every documented way (numbers, tuple, array, text, with and without elevation) and keeps its elevation if none is given. "
     "A point x metres east and y metres north of the camera's origin has the GPS position at that distance and direction, converting back gives the point, and the GPS positions of pixels and the pixels of GPS positions agree with those of their positions in space. "
     "The same holds for the conversions relative to any position without a camera, where heights do not move a point horizontally.",
     ["inputs", "configurations"], "all camera positions (to 85 degrees latitude) and points within tens of kilometres, all constraints",
     "the tests use one position", ["camera.py", "gps.py"],
     [("position of the camera", "camera.py:setGPSpos"), ("conversion", "camera.py:gpsFromSpace, spaceFromGPS, gpsFromImage, imageFromGPS; gps.py:spaceFromGPS, gpsFromSpace")],
     ["Camera.setGPSpos", "Camera.gpsFromSpace", "Camera.spaceFromGPS", "Camera.gpsFromImage", "Camera.imageFromGPS"],
     "property-based testing against unit-vector geometry, round trips", "relative tolerance elevation / earth radius for the two conventions of the radius")

prop("C20", "Heights and lengths of objects are those of the objects",
     "The height of an object measured from the pixels of its foot (on the ground or at the given height Z) and head is the true height of an upright object, also in negative direction and for lists of objects, and undefined if the foot is not on the ground. "
     "The length measured from the pixels of two ends of an object lying on the ground (or at the given height Z) is the distance of the two ground positions, independent of their order.",
     ["inputs", "configurations"], "all cameras, objects in the field of view, heights of the ground (one or one per object)",
     "the tests measure a few objects of one camera", ["camera.py"],
     [("measurement", "camera.py:getObjectHeight, getObjectLength")], ["Camera.getObjectHeight", "Camera.getObjectLength"],
     "property-based testing: objects with a known size are projected with the reference camera and measured again", "tolerance from the sensitivity of the reference measurement")

prop("C21", "Areas of triangles, quadrilaterals and of the ground seen by a pixel are exact",
     "The area of a triangle (in two or three dimensions, degenerate or not) and of a quadrilateral without crossing edges in the ground plane is its geometric area, in a batch or alone, wherever it lies and in whatever order its corners are listed. "
     "The look-up table of areas holds, for every pixel of the middle column or of the whole image, the area of the ground (Z=0) covered by the square of one pixel around it, and the given value for pixels that do not show the ground completely.",
     ["inputs", "configurations"], "all triangles and quadrilaterals, all cameras and image sizes",
     "the tests calculate the table for one camera", ["ray.py", "camera.py"],
     [("areas", "ray.py:areaOfTriangle, areaOfQuadrilateral"), ("look-up table", "camera.py:generateLUT")], ["areaOfTriangle", "areaOfQuadrilateral", "Camera.generateLUT"],
     "property-based testing against the cross product and against reference ground positions of the pixel corners", "random triangles, small images")

prop("C22", "Horizon, border and cone of the view agree with the rays of the camera",
     "The distance to the horizon is that of the tangent to the earth sphere, and the horizon in a column of the image is the pixel whose ray comes closest to it. "
     "The border of the image runs once around the image in the given resolution; the camera cone consists of the lines from the camera to the corners at the given distance (or to the ground) and of the lines around them.",
     ["inputs", "configurations"], "all cameras, columns and resolutions",
     "the tests call the functions for one camera", ["camera.py"],
     [("horizon", "camera.py:distanceToHorizon, getImageHorizon"), ("border and cone", "camera.py:getImageBorder, getCameraCone")],
     ["Camera.distanceToHorizon", "Camera.getImageHorizon", "Camera.getImageBorder", "Camera.getCameraCone"],
     "property-based testing against reference rays", "the horizon is compared in rows of the image")

prop("C23", "Triangulated points are where two cameras see them",
     "The position triangulated from the corresponding pixels of two cameras of a group is the middle of the shortest connection of the two rays, so that it is the point itself if the pixels are its images, and the discrepancy of the rays is the length of that connection. "
     "The group projects points with each of its cameras, and its baseline is the distance of the two cameras, also after the cameras were moved.",
     ["inputs", "configurations"], "all pairs of cameras (projections, lenses, shared or separate), single points and lists, pixels with and without noise",
     "the tests triangulate one scene", ["camera.py", "ray.py"],
     [("triangulation", "camera.py:CameraGroup.spaceFromImages, discanteBetweenRays"), ("images and baseline", "camera.py:CameraGroup.imagesFromSpace, getBaseline")],
     ["CameraGroup.spaceFromImages", "CameraGroup.discanteBetweenRays", "CameraGroup.imagesFromSpace", "CameraGroup.getBaseline"],
     "property-based testing against the geometry of two lines computed from reference rays", "tolerance from the sensitivity of the reference triangulation")

prop("C24", "Corresponding points: error in pixels, and recovery of the second camera",
     "The correspondence error of a pair of pixels is, in each of the two images, the distance from the image of the ray of the other pixel, so that it is zero for the images of one point. "
     "Placing the second camera by point correspondences keeps the first camera, has the given baseline, and gives the true relative orientation and direction of the second camera as far as the pixels determine them.",
     ["inputs", "configurations"], "all pairs of rectilinear cameras and pixels with and without noise; scenes of 12 to 40 points",
     "the tests use one pair of cameras", ["camera.py"],
     [("error", "camera.py:CameraGroup.pointCorrespondenceError"), ("reconstruction", "camera.py:CameraGroup.setCameraParametersByPointCorrespondence")],
     ["CameraGroup.pointCorrespondenceError", "CameraGroup.setCameraParametersByPointCorrespondence"],
     "property-based testing against the epipolar line of the reference cameras; simulated scenes with a known second camera", "the accuracy of the reconstruction is limited by OpenCV's threshold of one pixel")

prop("C25", "Rotating or scaling the space moves the cameras with it",
     "Rotating the space of a camera by an angle turns its position clockwise around the vertical axis of the origin and adds the angle to its heading, so that points that are turned in the same way have the same images; rotating back restores the camera. "
     "Scaling the space of a group multiplies the positions of its cameras (also of cameras with a shared orientation), so that points scaled in the same way have the same images.",
     ["inputs", "histories", "configurations"], "all cameras, sequences of rotations and scalings",
     "the tests do not rotate or scale", ["camera.py"],
     [("rotation", "camera.py:Camera.rotateSpace"), ("scaling", "camera.py:CameraGroup.scaleSpace")], ["Camera.rotateSpace", "CameraGroup.scaleSpace"],
     "property-based metamorphic testing: the images of moved points in the moved camera", "up to 4 rotations or 3 scalings in a row")

prop("C26", "Distances and intersections of lines and points are the geometric ones",
     "The intersection of two lines in space is the middle of their shortest connection, their distance is its length, and the distance of a point from a line is that of its nearest point, independent of the lengths and signs of the direction vectors. "
     "Parallel lines, alone or within a batch, have their finite distance and do not disturb the other lines of the batch; a line without a direction is a point.",
     ["inputs"], "all lines and points: one pair of lines or two origins with many directions, including lines that meet, coincide or are parallel",
     "the tests check a few lines", ["ray.py"],
     [("formulas", "ray.py:intersectionOfTwoLines, distanceOfTwoLines, getClosestPointFromLine")], ["ray.intersectionOfTwoLines", "ray.distanceOfTwoLines", "ray.getClosestPointFromLine"],
     "property-based testing against projection formulas, metamorphic scaling of the directions", "angles of zero or at least 1e-5")

prop("C27", "The log probability is that of the observations the user added",
     "The log probability of a camera is the sum over the added information: normal densities of the measured heights, lengths and rows of the horizon around the given values with the given uncertainties, for landmarks the sum of the densities of 1000 points of the ray, evenly within twice the largest uncertainty of the point next to the landmark, and custom terms. "
     "A group adds the terms of the baseline, the correspondences and of its cameras; information that is only plotted does not count. "
     "The sum follows every change of the parameters and of uncertainties that are parameters, is minus infinity if it is undefined, and removing the information removes it completely.",
     ["inputs", "histories", "configurations"], "all combinations of up to four observations, one or several points each, any form of the uncertainties, changes of the camera afterwards",
     "the tests check that a fit improves", ["camera.py"],
     [("terms", "camera.py:addObjectHeightInformation, addObjectLengthInformation, addLandmarkInformation, addLandmarkInformationGPS, addHorizonInformation"), ("sum", "camera.py:CameraGroup.getLogProbability; statistic.py")],
     ["Camera.getLogProbability", "CameraGroup.getLogProbability"],
     "property-based testing against an independent sum of densities, with generated histories of changes", "measurements are taken from a fresh camera with the same parameters (decided by C09, C19, C20, C22)")

prop("C28", "A fit finds the most probable parameters within their limits",
     "Fitting parameters of a camera or group returns and sets parameters that are within their limits and at least as probable as the start, at the optimum of well conditioned problems, and the camera behaves like one with these parameters. "
     "The probability is never asked for outside of the limits, the number of iterations is respected, undefined probabilities do not win, and a problem without any possible position is rejected.",
     ["inputs", "histories", "configurations"], "quadratic problems of 1 to 3 parameters of all kinds, with and without limits; simulated observations",
     "the tests fit one example", ["camera.py", "statistic.py"],
     [("optimisation", "statistic.py:Model, CameraGroup.fit in camera.py"), ("parameters", "parameter_set.py:set_fit_parameters")], ["Camera.fit", "CameraGroup.fit"],
     "property-based testing against the exact constrained optimum of quadratic problems; improvement over the start for simulated observations", "default optimiser; the tolerance allows for its stopping rule")

prop("C29", "Metropolis samples follow the posterior within the limits",
     "The samples of metropolis are within the limits, each has the log probability listed for it, their number is that of the iterations without the burn-in, none has zero probability, and the camera is left at the most probable sample. "
     "The samples follow the target distribution, also at the limits of the parameters, and a far too small or large step is adapted during the burn-in; a start without probability is replaced, and a problem without any possible position is rejected.",
     ["inputs", "histories", "configurations"], "targets of 1 to 4 parameters with and without limits, cliffs and undefined regions; statistical tests for normal, cut and uniform targets",
     "the tests look at one short trace", ["statistic.py", "camera.py"],
     [("sampling", "statistic.py:metropolis"), ("parameters", "camera.py:metropolis")], ["Camera.metropolis", "CameraGroup.metropolis", "statistic.metropolis"],
     "property-based testing of the chain against the target evaluated independently; statistical tests with six standard errors", "5000 samples per statistical case")

prop("C30", "Uncertain parameters are sampled as declared and return to their mean",
     "A camera or group with a trace takes, for each sample, all the values of one row, every row equally often, and the most probable row as the mean; a parameter with an uncertainty is sampled from that normal distribution, no other parameter changes, and a plain value removes the uncertainty. "
     "The free parameters of a camera are those that are not set, by type, their defaults belong to their names, and parameters of a fit draw from and evaluate their declared distribution.",
     ["inputs", "histories", "configurations"], "all parts and parameters, traces of up to 6 rows, sequences of sampling and setting",
     "the tests call sample once", ["parameter_set.py", "statistic.py"],
     [("samples and traces", "parameter_set.py:ClassWithParameterSet, ParameterSet.sample, set_trace"), ("distributions", "statistic.py:Parameter")],
     ["Camera.sample", "Camera.set_trace", "Camera.set_to_mean", "ParameterSet.get_fit_parameters", "FitParameter"],
     "property-based testing against a model of the parameters; statistical tests with six standard errors", "400 samples per statistical case")

prop("C31", "Drawings show the scene and the observations where they are",
     "The wireframes of a scene consist of exactly the edges of its cubes, squares and grids, and its views show each object from the three sides and as the camera sees it, in an image of the size of the camera. "
     "Plotting the fit information draws each observation at its pixel and each prediction of the camera where the camera expects it, with the limits of the image, and changes neither the camera nor its log probability; plots of epipolar lines show each corresponding point with its line and its distance from the line.",
     ["inputs", "configurations"], "all objects and cameras, all kinds of information",
     "the tests only draw", ["scene.py", "camera.py"],
     [("scene", "scene.py:Scene"), ("fit information", "camera.py:plotFitInformation and the plot functions of the information")], ["Scene.addCube", "Scene.addRect", "Scene.addGrid", "Scene.plotSceneViews", "Camera.plotFitInformation", "CameraGroup.plotMyEpiploarLines", "CameraGroup.plotEpilines"],
     "property-based testing against the data of the matplotlib axes", "colors and styles are not decided")

prop("C32", "Camera parameters read from an image are those of the image",
     "The focal length and image size read from an image are those of its EXIF data, and the sensor size is that of exactly its camera model in the database if it is listed there and the database is used, and otherwise follows from the resolution of the focal plane. "
     "The database is downloaded at most once and only if it is used, and a failed download leaves nothing behind.",
     ["inputs", "fault_sequences"], "all models, databases with similar names, sizes and resolutions; existing, downloaded and unreachable databases",
     "the tests have no image with EXIF data and no network", ["camera.py"],
     [("reading", "camera.py:getCameraParametersFromExif, _getSensorFromDatabase")], ["getCameraParametersFromExif"],
     "property-based testing with generated images and a stand-in for the download, including failures", "stand-in for requests.get")

prop("C33", "Summaries and plots of sampled parameters show the samples",
     "The summary of a trace prints for each parameter its mean and standard deviation over the samples, to the precision of the standard deviation, also for a parameter that did not vary; parameters declared as logarithmic are shown as their exponential. "
     "The plot of a trace draws the samples of each parameter in their order and marks the most probable sample and the mean; neither changes the trace.",
     ["inputs", "configurations"], "traces of 1 to 4 parameters and 2 to 40 samples, constant and discrete parameters, all options of the plot",
     "the tests do not look at the output", ["statistic.py", "parameter_set.py"],
     [("summary and plot", "statistic.py:printTraceSummary, plotTrace"), ("of a camera", "parameter_set.py:ClassWithParameterSet.plotTrace")], ["Camera.plotTrace", "Camera.printTraceSummary"],
     "property-based testing against numpy statistics, the printed text and the data of the matplotlib axes", "the estimate of the density is only checked for its range")

prop("C34", "The printed description of a camera shows its parameters",
     "The text of a camera, and of its projection, lens and orientation, names their kind and contains the current value of each of their parameters: position, angles, focal length, sensor and image size and the parameters of the lens. "
     "It follows every change of a parameter.",
     ["inputs", "configurations"], "all kinds of projections, lenses and orientations",
     "the tests do not look at it", ["camera.py", "projection.py", "spatial.py", "lens_distortion.py"],
     [("descriptions", "__str__ of Camera, CameraProjection, SpatialOrientation, SpatialOrientationYawPitchRoll, LensDistortion")], ["str(camera)"],
     "property-based testing: the values are parsed from the text and compared with the parameters", "to the precision that is printed")

prop("C35", "A calibration with images of a chess board describes the camera",
     "The calibration from images of a chess board, with the script and with the calibration window, recovers the focal lengths, the centre and the lens distortion of the camera that took the images, from whichever of the images can be used: "
     "images without a complete board, of another size, or switched off by the user have no influence, and parameters that are not to be fitted keep their default (the centre of the image, equal focal lengths, no distortion). "
     "The corner points found in an image are those of the board, the same with and without stored files; a stored calibration is loaded unchanged; the camera of the window has the parameters of the current calibration, and the displayed and saved images are undistorted with it.",
     ["inputs", "configurations", "histories"], "cameras, lens distortions, sets of poses of the board, image formats, unusable images, choices of fitted parameters, repeated fits and loaded calibrations",
     "there are no tests of the graphical tools", ["gui_tools/calibrate/calibrate.py", "gui_tools/calibrate/gui_calibrate.py"],
     [("corner points", "gui_tools/calibrate/calibrate.py:processImage"), ("fit of the script", "gui_tools/calibrate/calibrate.py (main)"), ("calibration window", "gui_tools/calibrate/gui_calibrate.py:Window, MyImage")],
     ["processImage", "calibrate.py", "Window.fitCalibration", "Window.loadCalibration", "Window.saveCalibration"],
     "property-based testing with images and corner points of a reference camera (rendered chess boards); round trips through stored files; generated batches with unusable images", "320 to 641 px images; the Qt window without a screen; message boxes are stand-ins")

prop("C36", "The demonstrators show the scene with the chosen parameters",
     "After any sequence of changes of the sliders, numbers, check boxes and choices in the demonstrator (the Qt window or the matplotlib figure), the displayed values, the camera and the drawn scene (camera cone, cubes, grid and horizon) are those of a new camera with the chosen parameters. "
     "While locked, the focal lengths are equal and the centre is half of the image size; the choice of heading-tilt-roll or yaw-pitch-roll keeps the orientation, and a reset restores the initial values.",
     ["inputs", "histories"], "all sequences of changes of the parameters, projections and kinds of angles",
     "there are no tests of the graphical tools", ["gui_tools/demonstrator/demo_qt.py", "gui_tools/demonstrator/demo_matplotlib.py", "gui_tools/demonstrator/demo_includes.py", "scene.py"],
     [("window", "gui_tools/demonstrator/demo_qt.py:Window.updatePlot"), ("figure", "gui_tools/demonstrator/demo_matplotlib.py:open_demo"), ("scene", "gui_tools/demonstrator/demo_includes.py:Scene9Cubes")],
     ["demo_qt.Window", "demo_matplotlib.open_demo"],
     "stateful property-based testing: generated sequences of user actions; the state is compared with a model, the drawing with that of a freshly built camera", "sizes and focal lengths of 0 are not chosen")

prop("C37", "Inputs and image views of the windows do what the user does",
     "The input widgets (number, text, check box, choice, file, color) have the value that was set last, limited to their range, and emit a signal with the new value whenever the user changes the value, also back to an earlier one, but not when the program sets it; a cancelled dialog changes nothing. "
     "The image view shows the whole image centred after a fit (also after the window, the image or the rotation changed, unless the user moved it), the wheel magnifies around the point below the mouse, the right button moves the image with the mouse, and positions in the window and in the image are converted consistently.",
     ["inputs", "histories"], "all sequences of user actions and program calls for each kind of input; sizes of the window and the image, magnifications, positions and rotations",
     "there are no tests of the graphical tools", ["gui_tools/demonstrator/QtShortCuts.py", "gui_tools/calibrate/QExtendedGraphicsView.py"],
     [("inputs", "gui_tools/demonstrator/QtShortCuts.py:QInput and its subclasses"), ("image view", "gui_tools/calibrate/QExtendedGraphicsView.py:QExtendedGraphicsView")],
     ["QInput.value", "QInput.setValue", "QInput.valueChanged", "QExtendedGraphicsView"],
     "stateful property-based testing: generated sequences of user actions against a model of the state", "mouse events are sent directly, dialogs are stand-ins; rotated views only for the fit and the directions")

prop("C38", "A copied camera is a camera of its own",
     "A camera, a list of cameras or a group of cameras that is copied with copy.deepcopy (or whose parts are copied and used for a new camera) behaves like the original one at the time of the copy, including parts shared between its cameras. "
     "Afterwards any change of the copy (parameters, defaults, uncertainties, samples, fit parameters, GPS position) affects the copy completely, as it would affect a fresh camera, and the original not at all, and vice versa. Cameras with information for a fit are excluded.",
     ["inputs", "histories"], "all projections, orientations and lenses, histories of changes of the originals and the copies",
     "the tests never copy a camera", ["parameter_set.py", "projection.py", "spatial.py", "lens_distortion.py", "camera.py"],
     [("callbacks of parameters", "projection.py:CameraProjection.__init__, spatial.py, lens_distortion.py:setProjection"), ("parameters", "parameter_set.py:ParameterSet, ClassWithParameterSet")], ["copy.deepcopy(camera)"],
     "stateful property-based testing: histories with copies against the reference model of C13 with copied values", "copies of cameras with information for a fit are not explored")

NOT_APPLICABLE = []

if __name__ == "__main__":
    have = {f[:3].upper() for f in os.listdir(os.path.join(HERE, "vp", "props")) if f[0] == "c"}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fp:
        for p in PROPS:
            fp.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks = []
    for p in PROPS:
        if p["id"] in have:
            technique, note = INFO[p["id"]]
            checks.append(dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
                               evidence_file="evidence/%s.json" % p["id"], technique=technique, level="exploration", level_note=note))
    manifest = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import hypothesis, numpy, scipy, pandas'", checks=checks,
                    not_applicable=[dict(property=a, reason=b) for a, b in NOT_APPLICABLE],
                    notes="No hooks: the checks use the public interface of the working tree in /repo. ./check.sh replay <file> repeats a saved failing case.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
        json.dump(manifest, fp, indent=1, ensure_ascii=False)
        fp.write("\n")
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        if p["id"] not in have:
            print("no check for", p["id"])
    print(len(checks), "checks")
