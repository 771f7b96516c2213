"""C24 correspondences of two images"""
import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import gen, ref, view, pair
from ..core import check, close, require, arr, fail, shape_is
from .c23_stereo import make_group

ASSUMPTIONS = ["the error is compared for rectilinear cameras without a lens, where the image of a ray is a line",
               "the reconstruction of the second camera is limited by the threshold of one pixel of OpenCV: the orientation is compared where OpenCV, called directly with the same pixels, finds it within 4 degrees; at least 12 noise-free points and a baseline of at least a fifth of the distance"]


def epipolar_distance(c1, c2, im1, im2):
    """distance of im2 from the image, in camera 2, of the ray of im1 in camera 1"""
    o1, o2 = ref.o_pos(c1["o"]), ref.o_pos(c2["o"])
    d = view.directions(c1, im1)
    n = np.cross(o1 - o2, d)
    nc = n @ ref.o_rotation(c2["o"]).T
    p = c2["p"]
    # pixel = K X with K = [[-fx, 0, cx], [0, fy, cy], [0, 0, 1]]
    K = np.array([[-p["fx"], 0, p["cx"]], [0, p["fy"], p["cy"]], [0, 0, 1]])
    line = nc @ np.linalg.inv(K)
    with np.errstate(all="ignore"):
        return np.abs(line[:, 0] * im2[:, 0] + line[:, 1] * im2[:, 1] + line[:, 2]) / np.hypot(line[:, 0], line[:, 1])


def epipolar_tol(c1, c2, im1, im2):
    """rounding: the line is drawn through the images of two points of the ray"""
    o1 = ref.o_pos(c1["o"])
    ray = ref.space_from_camera(c1["o"], ref.ray(c1["p"], im1), direction=True)
    q = [ref.camera_from_space(c2["o"], o1 + ray * k) for k in (1, 2)]
    a, b = [ref.image_from_camera(c2["p"], v, hide=False) for v in q]
    with np.errstate(all="ignore"):
        e = np.maximum(view.image_tol(c2, q[0]), view.image_tol(c2, q[1])) + 1e-13 * (np.abs(a).max(axis=1) + np.abs(b).max(axis=1))
        length = np.linalg.norm(a - b, axis=1)
        tol = 10 * e * (1 + (np.linalg.norm(im2 - a, axis=1) + np.linalg.norm(im2 - b, axis=1)) / length)
        ok = (np.abs(q[0][:, 2]) > 1e-4) & (np.abs(q[1][:, 2]) > 1e-4) & np.isfinite(tol) & (tol < 1e-3) & (np.linalg.norm(o1 - ref.o_pos(c2["o"])) > 1e-6) & (length > 1e-3)
    return tol, ok


@st.composite
def cases(draw):
    case = draw(pair.cameras(2, types=("rect",), lenses=("none",)))
    case["noise"] = draw(st.sampled_from([0, 1, 30]))
    return case


@check("C24", cases(), quick=3000, shards=4, rule="a pair of pixels with a well determined distance to the epipolar line")
def error(case, ctx):
    pts, (im1, im2) = pair.seen(case, 20)
    c1, c2 = pair.nth(case, 0), pair.nth(case, 1)
    if case["noise"]:
        im1 = im1 + gen.expand(case["bulk"] + 1, len(im1), -1, 1, 2) * case["noise"]
        im2 = im2 + gen.expand(case["bulk"] + 2, len(im2), -1, 1, 2) * case["noise"]
    ctx.label("noise %d" % case["noise"])
    if not len(pts):
        ctx.nontrivial(False)
        return
    group = make_group(case)
    got = group.pointCorrespondenceError(im1.copy(), im2.copy())
    require(len(got) == 2, "errors in %d images", len(got))
    some = False
    for k, (a, b, x, y) in enumerate(((c1, c2, im1, im2), (c2, c1, im2, im1))):
        want = epipolar_distance(a, b, x, y)
        tol, ok = epipolar_tol(a, b, x, y)
        shape_is(got[k], (len(pts),), "errors in image %d" % (2 - k))
        close(np.asarray(got[k])[ok], want[ok], tol[ok], "distance in image %d from the line of the corresponding pixel" % (2 - k))
        some |= ok.any()
        if ok[0]:
            one = group.pointCorrespondenceError(im1[0].copy(), im2[0].copy())
            close(one[k], want[0], tol[0], "error of one pair in image %d" % (2 - k))
    ctx.nontrivial(some)


@st.composite
def poses(draw):
    """two cameras of the same kind, side by side"""
    p = draw(gen.projection(("rect",), 3000, 300, wide=False))
    p["fx"] = p["fy"] = max(p["w"], p["h"]) * draw(gen.num(0.6, 2))
    p["cx"], p["cy"] = p["w"] * draw(gen.num(0.4, 0.6)), p["h"] * draw(gen.num(0.4, 0.6))
    o1 = dict(kind="thr", x=draw(gen.num(-20, 20)), y=draw(gen.num(-20, 20)), z=draw(gen.num(-20, 20)), heading=draw(gen.num(-360, 360)), tilt=draw(gen.num(-360, 360)), roll=draw(gen.num(-360, 360)))
    return dict(p=p, o=o1, dist=draw(gen.num(3, 30)), side=draw(gen.num(-180, 180)), b=draw(gen.num(0.2, 0.5)), depth=draw(gen.num(-0.2, 0.2)), yaw=draw(gen.num(-5, 5)), pitch=draw(gen.num(-5, 5)),
                roll=draw(gen.num(-40, 40)), n=draw(st.integers(15, 40)), bulk=draw(gen.bulk()), scale=draw(st.sampled_from([1.0, 1.0, 2.0, 0.1])))


def relative(R1, p1, R2, p2):
    """orientation and position of camera 2, in the coordinates of camera 1"""
    return R2 @ R1.T, R1 @ (p2 - p1)


@check("C24", poses(), quick=500, shards=4, rule="a scene with at least 12 corresponding points")
def reconstruction(case, ctx):
    """the second camera is placed such that the corresponding points match, at the given baseline"""
    p = case["p"]
    R1 = ref.o_rotation(case["o"])
    pos1 = ref.o_pos(case["o"])
    # the second camera in the coordinates of the first camera: x right, y up, -z forward
    s = np.radians(case["side"])
    offset = np.array([np.cos(s), np.sin(s), case["depth"]]) * case["b"] * case["dist"]
    # it looks to the same target, slightly rotated
    target = np.array([0, 0, -case["dist"]])
    f = ref.unit((target - offset)[None])[0]
    a = np.radians([case["yaw"], case["pitch"], case["roll"]])
    right = np.cross(f, [0, 1, 0])
    right /= np.linalg.norm(right)
    up = np.cross(right, f)
    f = f + right * np.tan(a[0]) + up * np.tan(a[1])
    f /= np.linalg.norm(f)
    right = np.cross(f, up)
    right /= np.linalg.norm(right)
    up = np.cross(right, f)
    x = np.cos(a[2]) * right + np.sin(a[2]) * up
    y = -np.sin(a[2]) * right + np.cos(a[2]) * up
    Rrel = np.array([x, y, -f])
    pts = target + gen.expand(case["bulk"], 200, -0.35, 0.35, 3) * case["dist"]
    im1 = ref.image_from_camera(p, pts)
    im2 = ref.image_from_camera(p, (pts - offset) @ Rrel.T)
    with np.errstate(all="ignore"):
        ok = np.all((im1 >= 0) & (im1 <= [p["w"], p["h"]]) & (im2 >= 0) & (im2 <= [p["w"], p["h"]]), axis=1)
    pts, im1, im2 = pts[ok][:case["n"]], im1[ok][:case["n"]], im2[ok][:case["n"]]
    ctx.nontrivial(len(pts) >= 12)
    if len(pts) < 12:
        return
    cam1, cam2 = gen.make_orientation(case["o"]), ct.SpatialOrientation()
    group = ct.CameraGroup(gen.make_projection(p), [cam1, cam2])
    baseline = float(np.linalg.norm(offset)) * case["scale"]
    group.setCameraParametersByPointCorrespondence(im1.copy(), im2.copy(), baseline)
    close(group[0].getPos(), pos1, 1e-9, "position of the first camera")
    close(group.getBaseline(), baseline, 1e-6 * (baseline + np.abs(pos1).max()), "baseline of the group")
    # what the algorithms of OpenCV determine from the pixels (in coordinates with y down and z forward)
    import cv2
    K = np.array([[p["fx"], 0, p["cx"]], [0, p["fy"], p["cy"]], [0, 0, 1]])
    mat = cv2.findEssentialMat(im1, im2, p["fx"], (p["cx"], p["cy"]))[0]
    flip = np.diag([1, -1, -1])
    if mat is None or mat.shape != (3, 3):
        return
    rot, move = cv2.recoverPose(mat, im1, im2, K)[1:3]
    known = np.linalg.norm(flip @ rot @ flip - Rrel) / np.sqrt(8) < np.sin(np.radians(2)) and np.dot(flip @ -rot.T @ move[:, 0], offset) / np.linalg.norm(offset) > np.cos(np.radians(15))
    ctx.label("determined" if known else "not determined by the pixels")
    if not known:
        return
    err = group.pointCorrespondenceError(im1.copy(), im2.copy())
    require(np.median(err[0]) < 1.5 and np.median(err[1]) < 1.5, "errors of the corresponding points %s %s px", np.median(err[0]), np.median(err[1]))
    R, t = relative(group[0].orientation.R, group[0].getPos(), group[1].orientation.R, group[1].getPos())
    ang = np.degrees(2 * np.arcsin(min(1, np.linalg.norm(R - Rrel) / np.sqrt(8))))
    require(ang < 8, "the orientation of the second camera relative to the first one is wrong by %.2f degrees", ang)
    dang = np.degrees(np.arccos(np.clip(np.dot(t, offset) / np.linalg.norm(t) / np.linalg.norm(offset), -1, 1)))
    require(dang < 30, "the second camera is in the wrong direction of the first camera, by %.2f degrees", dang)
    ctx.label("angle %s" % ("exact" if ang < 1e-3 else "good" if ang < 1 else "coarse"))
