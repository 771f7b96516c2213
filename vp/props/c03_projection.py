"""C03 camera coordinates -> image: the documented projection formulas, for the three projections"""
import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import gen, ref
from ..core import check, close, layouts, require, arr, fail

ASSUMPTIONS = ["camera points with magnitudes 1e-6 to 1e6, at least 1e-6 away from the camera; rectilinear points that are closer than 1e-9 to the "
               "camera plane are only checked to be invisible or far outside of the image",
               "tolerance 1e-10 px relative to the focal length and the position"]


def direction():
    """directions: generic, and exactly along/perpendicular to axes"""
    c = st.one_of(gen.num(-1, 1, (0, 1, -1)), st.just(0.0), gen.logu(1e-6, 1, signed=True))
    return gen.vec(3, c)


@st.composite
def cases(draw):
    p = draw(gen.projection())
    dirs = draw(st.lists(direction(), min_size=1, max_size=5))
    scale = draw(gen.logu(1e-2, 1e5))
    return dict(p=p, pts=[[v * scale for v in d] for d in dirs], bulk=draw(gen.bulk()), hide=draw(st.booleans()))


def usable(p, pts):
    """far enough from the singularities (camera plane for rectilinear, pole axis for cylindrical, origin)"""
    n = np.linalg.norm(pts, axis=1)
    ok = n > 1e-6
    if p["type"] == "rect":
        return ok & (np.abs(pts[:, 2]) > 1e-7 * n) & (np.abs(pts[:, 2]) > 1e-9)
    hor = np.hypot(pts[:, 0], pts[:, 2])
    ok &= (hor > 1e-7 * n) & (hor > 1e-8)
    # the seam exactly behind the camera belongs to both ends of the panorama; |z| < 1e-10 counts as 0
    ok &= ~((pts[:, 2] > 0) & (np.abs(pts[:, 0]) <= 1e-12 * n))
    return ok


def tolerance(p, pts, im):
    """relative accuracy 1e-13 of the camera point + the rounding of z to zero (1e-10) that the package does"""
    n = np.linalg.norm(pts, axis=1)
    slope = ref.image_slope(p, pts)
    t = slope * (1e-13 * n) + 1e-11 * (np.max(np.abs(np.nan_to_num(im)), axis=1) + p["w"] + p["h"])
    if p["type"] != "rect":
        t = t + np.where(np.abs(pts[:, 2]) < 1.1e-10, slope * 1.1e-10, 0)
    return t


def compare(proj, p, pts, hide, what):
    pts = pts[usable(p, pts)]
    if len(pts) == 0:
        return 0
    want = ref.image_from_camera(p, pts, hide)
    got = proj.imageFromCamera(pts.copy(), hide_backpoints=hide)
    close(got, want, tolerance(p, pts, want)[:, None], what)
    layouts(lambda x: proj.imageFromCamera(x, hide_backpoints=hide), pts, want, tolerance(p, pts, want)[:, None], what)
    if hide:
        close(proj.imageFromCamera(pts.copy()), want, tolerance(p, pts, want)[:, None], what + " (default)")
    return len(pts)


@check("C03", cases(), quick=2500, shards=4, rule="at least one camera point that is not on an axis of the camera and not degenerate")
def formulas(case, ctx):
    p = case["p"]
    pts = arr(case["pts"])
    ctx.nontrivial(np.any((np.sum(np.abs(pts) > 1e-9, axis=1) >= 2) & usable(p, pts)))
    ctx.label(p["type"], "hide=%s" % case["hide"])
    if np.any((np.abs(pts[:, 2]) < 1e-10) & (np.abs(pts[:, 0]) > 1e-3)):
        ctx.label("exactly sideways (%s)" % p["type"])
    proj = gen.make_projection(p)
    compare(proj, p, pts, case["hide"], "image of camera points (%s)" % p["type"])
    for q in pts[usable(p, pts)][:1]:
        want = ref.image_from_camera(p, q[None], case["hide"])
        close(proj.imageFromCamera(list(q), hide_backpoints=case["hide"]), want[0], tolerance(p, q[None], want)[:, None][0], "image of one camera point")
    # many more points
    more = gen.expand(case["bulk"], 60, -1, 1, 3) * 10 ** gen.expand(case["bulk"] ^ 77, 60, -2, 4)
    compare(proj, p, more, case["hide"], "image of camera points (%s)" % p["type"])


@st.composite
def visibility_cases(draw):
    return dict(p=draw(gen.projection()), pts=draw(gen.points(3, gen.coord(100), 6)), s=draw(gen.logu(1e-2, 1e3)))


@check("C03", visibility_cases(), quick=800, shards=2, rule="points in front of and behind the camera")
def visibility(case, ctx):
    """rectilinear: exactly the points behind the camera are hidden; the panoramas show points in every direction;
    the projection depends on the direction only"""
    p = case["p"]
    proj = gen.make_projection(p)
    pts = arr(case["pts"])
    pts = pts[usable(p, pts)]
    ctx.label(p["type"])
    ctx.nontrivial(len(pts) > 0 and (p["type"] != "rect" or (np.any(pts[:, 2] > 0) and np.any(pts[:, 2] < 0))))
    if len(pts) == 0:
        return
    im = proj.imageFromCamera(pts.copy())
    behind = pts[:, 2] > 0
    if p["type"] == "rect":
        require(np.array_equal(np.isnan(im).all(axis=1), behind) and np.array_equal(np.isnan(im).any(axis=1), behind),
                "rectilinear: hidden points %s, but the points behind the camera are %s (%s)", np.isnan(im).tolist(), behind.tolist(), pts.tolist())
        im2 = proj.imageFromCamera(pts.copy(), hide_backpoints=False)
        require(np.isfinite(im2).all(), "points behind the camera shall not be hidden with hide_backpoints=False: %s", im2.tolist())
    else:
        require(np.isfinite(im).all(), "%s: points of a panorama are hidden: %s -> %s", p["type"], pts.tolist(), im.tolist())
        # the full circle is mapped to [-pi f, pi f] around the center
        require((np.abs(im[:, 0] - p["cx"]) <= np.pi * p["fx"] * (1 + 1e-9)).all(), "%s: outside of the full circle: %s", p["type"], im.tolist())
    # scaling the distance does not change the image
    far = pts * case["s"]
    sel = usable(p, far) & (np.abs(far[:, 2]) > 1e-9) & (np.abs(pts[:, 2]) > 1e-9)
    if sel.any():
        close(proj.imageFromCamera(far[sel]), im[sel], 2 * tolerance(p, pts[sel], im[sel])[:, None], "image of the same direction at another distance")


@check("C03", visibility_cases(), quick=600, shards=1, rule="a point in the camera plane, off the optical axis")
def camera_plane(case, ctx):
    """points exactly beside the camera: 90 degrees in a panorama, never inside of a rectilinear image"""
    p = case["p"]
    proj = gen.make_projection(p)
    pts = arr(case["pts"])
    pts[:, 2] = 0
    pts = pts[np.abs(pts[:, 0]) > 1e-3]
    ctx.nontrivial(len(pts) > 0)
    ctx.label(p["type"])
    if len(pts) == 0:
        return
    im = proj.imageFromCamera(pts.copy())
    if p["type"] == "rect":
        inside = np.isfinite(im).all(axis=1)
        require(not inside.any(), "a point in the camera plane has a finite position in the image: %s -> %s", pts.tolist(), im.tolist())
    else:
        want = np.sign(pts[:, 0]) * p["fx"] * np.pi / 2 + p["cx"]
        close(im[:, 0], want, 1e-8 * (p["fx"] + p["w"]), "%s: x position of points 90 degrees sideways" % p["type"])
        ratio = pts[:, 1] / np.abs(pts[:, 0])
        v = ratio if p["type"] == "cyl" else np.arctan(ratio)
        close(im[:, 1], p["cy"] - p["fy"] * v, 1e-8 * (p["fy"] * (1 + np.abs(v)) + p["h"]), "%s: y position of points 90 degrees sideways" % p["type"])
