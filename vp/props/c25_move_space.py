"""C25 rotating and scaling the coordinate system"""
import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import gen, ref, view, pair
from ..core import check, close, require, arr, fail, shape_is
from .c23_stereo import make_group

ASSUMPTIONS = []


@st.composite
def cases(draw):
    return dict(c=draw(gen.camera(max_px=3000, min_px=20, max_pos=100)), fr=draw(gen.pixel_fracs(3)), bulk=draw(gen.bulk()), deltas=draw(st.lists(gen.angle(-720, 720), min_size=1, max_size=4)),
                dist=draw(gen.logu(0.1, 1000)))


def turn(pts, deg):
    """clockwise, seen from above"""
    a = np.radians(deg % 360)
    pts = np.array(pts, float)
    x, y = pts[..., 0].copy(), pts[..., 1].copy()
    pts[..., 0] = np.cos(a) * x + np.sin(a) * y
    pts[..., 1] = np.cos(a) * y - np.sin(a) * x
    return pts


@check("C25", cases(), quick=2500, shards=4, rule="a camera away from the origin that is rotated")
def rotate(case, ctx):
    c = case["c"]
    cam = gen.make_camera(c)
    ctx.label(c["o"]["kind"], c["p"]["type"], c["l"]["kind"])
    im = view.ideal_pixels(c["p"], case["fr"], case["bulk"], 10)
    off = ref.o_pos(c["o"])
    d = view.directions(c, im)
    pts = off + d * case["dist"]
    seen = ref.distort(c["p"], c["l"], im)
    total = 0.0
    ctx.nontrivial(np.any(off[:2]) and any(v % 360 for v in case["deltas"]))
    for delta in case["deltas"]:
        cam.rotateSpace(delta)
        total += delta
        pos = turn(off, total)
        scale = 1 + np.abs(off).max()
        close(cam.getPos(), pos, 1e-11 * scale, "position after a rotation by %s in total" % total)
        origin, got = cam.getRay(seen.copy(), normed=True)
        close(origin, pos, 1e-11 * scale, "origin of the rays after a rotation by %s in total" % total)
        close(got, turn(d, total), 4 * view.ray_tol(c, im)[:, None] + 1e-11, "rays after a rotation by %s in total" % total)
        heading = cam.yaw_deg if c["o"]["kind"] == "ypr" else cam.heading_deg
        diff = (heading - c["o"]["heading"] - total + 180) % 360 - 180
        require(abs(diff) < 1e-8, "heading %s after a rotation by %s of the heading %s", heading, total, c["o"]["heading"])
        moved = turn(pts, total)
        cp = ref.camera_from_space(c["o"], pts)
        t = view.image_tol(c, cp)
        keep = np.isfinite(t) & (np.abs(cp[:, 2]) > 1e-6 * case["dist"])
        # points at the seam of a panorama jump to the other side
        if c["p"]["type"] != "rect":
            keep &= np.abs((im[:, 0] - c["p"]["cx"]) / c["p"]["fx"]) < 3.14
        close(cam.imageFromSpace(moved)[keep], seen[keep], 10 * t[keep][:, None], "image of the rotated points")
    # the other parameters are the same
    close([cam.elevation_m, cam.roll_deg, cam.focallength_x_px], [c["o"]["z"], -c["o"]["roll"] if c["o"]["kind"] == "ypr" else c["o"]["roll"], c["p"]["fx"]], 0, "elevation, roll and focal length")
    cam.rotateSpace(-total)
    close(cam.getPos(), off, 1e-10 * scale, "position after rotating back")
    close(cam.getRay(seen.copy(), normed=True)[1], d, 4 * view.ray_tol(c, im)[:, None] + 1e-10, "rays after rotating back")


@st.composite
def scales(draw):
    case = draw(pair.cameras(n=draw(st.integers(1, 3))))
    case["scales"] = draw(st.lists(st.one_of(gen.logu(0.01, 100), gen.num(0.5, 2)), min_size=1, max_size=3))
    case["one_orientation"] = draw(st.integers(0, 3)) == 0
    return case


@check("C25", scales(), quick=1500, shards=3, rule="a scale other than 1")
def scale(case, ctx):
    """all positions are scaled, so that everything looks the same"""
    n = len(case["O"])
    if case["one_orientation"]:
        # several cameras with one orientation
        P = [gen.make_projection(case["P"][0]), gen.make_projection(case["P"][-1])]
        group = ct.CameraGroup(P, gen.make_orientation(case["O"][0]), gen.make_lens(case["L"][0]))
        of = [dict(p=case["P"][0], l=case["L"][0], o=case["O"][0]), dict(p=case["P"][-1], l=case["L"][0], o=case["O"][0])]
        ctx.label("one orientation")
    else:
        group = make_group(case)
        of = [pair.nth(case, i) for i in range(n)]
    ctx.label("%d cameras" % n)
    s = 1.0
    for f in case["scales"]:
        group.scaleSpace(f)
        s *= f
    ctx.nontrivial(s != 1)
    pts, ims = pair.seen(case, 10)
    for i, c in enumerate(of):
        pos = ref.o_pos(c["o"]) * s
        close(group[i].getPos(), pos, 1e-12 * (1 + np.abs(pos).max()), "position of camera %d, scaled by %s" % (i, s))
        close(group[i].orientation.R, ref.o_rotation(c["o"]), 1e-9, "rotation of camera %d" % i)
        if not case["one_orientation"]:
            t = view.image_tol(c, ref.camera_from_space(c["o"], pts))
            close(group[i].imageFromSpace(pts * s), ref.distort(c["p"], c["l"], ims[i]), 10 * t[:, None], "image of the scaled points in camera %d" % i)
    if len(of) > 1:
        base = np.linalg.norm(ref.o_pos(of[0]["o"]) - ref.o_pos(of[1]["o"])) * s
        close(group.getBaseline(), base, 1e-11 * (base + np.abs(group[0].getPos()).max() + 1), "baseline of the scaled group")
