"""C01 space <-> camera coordinates"""
import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import gen, ref
from ..core import check, close, layouts, require, arr, shape_is

ASSUMPTIONS = ["angles in degrees with |angle| <= 720 (heading also up to 1e5), positions up to 1e6 m; tolerance 1e-11 of the magnitudes"]

KIND = ("thr",)


@st.composite
def cases(draw):
    o = draw(gen.orientation(KIND, max_pos=draw(st.sampled_from([10, 1000, 1000000]))))
    if draw(st.integers(0, 5)) == 0:
        o["heading"] = draw(gen.num(-100000, 100000))
    pts = draw(gen.points(3, gen.coord(draw(st.sampled_from([1, 100, 100000]))), 5))
    return dict(o=o, pts=pts, bulk=draw(gen.bulk()))


def tol(o, pts):
    return 1e-11 * (1 + np.max(np.abs(arr(pts))) + np.max(np.abs(ref.o_pos(o)))) * (1 + abs(o["heading"]) / 1000)


@check("C01", cases(), quick=3000, shards=4, rule="camera not at the origin and at least two of the three angles are no multiples of 90 degrees")
def agrees_with_reference(case, ctx):
    o, pts = case["o"], case["pts"]
    ctx.nontrivial(any([o["x"], o["y"], o["z"]]) and sum(o[k] % 90 != 0 for k in ("heading", "tilt", "roll")) >= 2)
    ctx.label("heading>360" if abs(o["heading"]) > 360 else "heading<=360", "N=%d" % min(len(pts), 2))
    ori = gen.make_orientation(o)
    t = tol(o, pts)
    close(ori.cameraFromSpace(arr(pts)), ref.camera_from_space(o, pts), t, "camera coordinates of space points")
    close(ori.spaceFromCamera(arr(pts)), ref.space_from_camera(o, pts), t, "space coordinates of camera points")
    close(ori.spaceFromCamera(arr(pts), direction=True), ref.space_from_camera(o, pts, True), t, "space direction of camera directions")
    # other arrangements of the points
    more = gen.expand(case["bulk"], 9, -1, 1, 3) * np.max(np.abs(arr(pts)))
    layouts(ori.cameraFromSpace, more, ref.camera_from_space(o, more), t, "camera coordinates of space points")
    layouts(ori.spaceFromCamera, more, ref.space_from_camera(o, more), t, "space coordinates of camera points")
    layouts(lambda x: ori.spaceFromCamera(x, direction=True), more, ref.space_from_camera(o, more, True), t, "space direction of camera directions")
    # single points
    close(ori.cameraFromSpace(pts[0]), ref.camera_from_space(o, pts)[0], t, "camera coordinates of one space point")
    close(ori.spaceFromCamera(pts[0]), ref.space_from_camera(o, pts)[0], t, "space coordinates of one camera point")
    close(ori.spaceFromCamera(pts[0], direction=True), ref.space_from_camera(o, pts, True)[0], t, "space direction of one direction")
    # in a camera with this orientation
    cam = ct.Camera(ct.RectilinearProjection(focallength_px=100, image=(100, 50)), ori)
    close(cam.getPos(), ref.o_pos(o), 1e-12 * (1 + np.max(np.abs(ref.o_pos(o)))), "position of the camera")


@check("C01", cases(), quick=2000, shards=2, rule="at least two different points")
def rigid_and_inverse(case, ctx):
    o, pts = case["o"], case["pts"]
    ctx.nontrivial(len(pts) > 1)
    ori = gen.make_orientation(o)
    p = arr(pts)
    t = tol(o, pts)
    q = ori.cameraFromSpace(p)
    shape_is(q, p.shape, "camera coordinates")
    close(ori.spaceFromCamera(q), p, 2 * t, "space -> camera -> space")
    close(ori.cameraFromSpace(ori.spaceFromCamera(p)), p, 2 * t, "camera -> space -> camera")
    # distances between points and to the camera are kept
    d1 = np.linalg.norm(p[:, None] - p[None], axis=-1)
    d2 = np.linalg.norm(q[:, None] - q[None], axis=-1)
    close(d2, d1, 4 * t, "distances between points in camera coordinates")
    close(np.linalg.norm(q, axis=-1), np.linalg.norm(p - ref.o_pos(o), axis=-1), 4 * t, "distances to the camera")
    # the handedness is kept
    base = ori.spaceFromCamera(np.eye(3), direction=True)
    require(abs(np.linalg.det(base) - 1) < 1e-9, "the transformation is no proper rotation: determinant %r", np.linalg.det(base))


@st.composite
def directions(draw):
    return dict(h=draw(gen.angle()), t=draw(gen.angle(0, 180)), z=draw(gen.coord()), d=draw(gen.logu(1e-2, 1e4)))


@check("C01", directions(), quick=800, shards=1, rule="tilt is neither straight down nor straight up")
def compass(case, ctx):
    """heading 0 looks north (+y), 90 looks east (+x); tilt 0 looks down, 90 horizontal, 180 up; the x axis of the camera is horizontal"""
    ctx.nontrivial(0 < case["t"] < 180)
    ori = ct.SpatialOrientation(heading_deg=case["h"], tilt_deg=case["t"], roll_deg=0, elevation_m=case["z"], pos_x_m=1, pos_y_m=-2)
    d = case["d"]
    h, t = np.radians(case["h"] % 360), np.radians(case["t"])
    ahead = ori.spaceFromCamera([0, 0, -d])
    want = np.array([1 + d * np.sin(t) * np.sin(h), -2 + d * np.sin(t) * np.cos(h), case["z"] - d * np.cos(t)])
    close(ahead, want, 1e-11 * (d + abs(case["z"]) + 10), "the point ahead of the camera")
    right = ori.spaceFromCamera([d, 0, 0], direction=True)
    close(right, [d * np.cos(h), -d * np.sin(h), 0], 1e-11 * (d + 1), "the direction to the right of the camera")


@check("C01", st.fixed_dictionaries(dict(given=st.lists(st.sampled_from(["elevation_m", "tilt_deg", "roll_deg", "heading_deg", "pos_x_m", "pos_y_m"]), unique=True),
                                         values=gen.vec(6, gen.angle(-300, 300)), pts=gen.points(3, gen.coord(50), 3))),
       quick=400, shards=1, rule="some but not all parameters are given")
def defaults(case, ctx):
    """parameters that are not given take their documented defaults"""
    names = ["elevation_m", "tilt_deg", "roll_deg", "heading_deg", "pos_x_m", "pos_y_m"]
    base = dict(zip(names, [30, 85, 0, 0, 0, 0]))
    given = {n: v for n, v in zip(names, case["values"]) if n in case["given"]}
    ctx.nontrivial(0 < len(given) < 6)
    full = dict(base, **given)
    ori = ct.SpatialOrientation(**given)
    o = dict(kind="thr", x=full["pos_x_m"], y=full["pos_y_m"], z=full["elevation_m"], heading=full["heading_deg"], tilt=full["tilt_deg"], roll=full["roll_deg"])
    close(ori.cameraFromSpace(arr(case["pts"])), ref.camera_from_space(o, case["pts"]), tol(o, case["pts"]), "camera coordinates with default parameters")
    for n in names:
        close(getattr(ori, n), full[n], 1e-12 * (1 + abs(full[n])), "parameter " + n)
