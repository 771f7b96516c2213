"""C06 field of view <-> focal length <-> image size"""
import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import gen, ref
from ..core import check, close, require, arr, fail

ASSUMPTIONS = ["rectilinear (and vertical cylindrical) angles between 0.5 and 175 degrees, panoramas up to 360 degrees"]


@st.composite
def cases(draw):
    p = draw(gen.projection(wide=True, center_offset=False))
    small = p["type"] == "rect"
    return dict(p=p, vx=draw(gen.num(0.5, 175 if small else 360)), vy=draw(gen.num(0.5, 180 if p["type"] == "equi" else 175)),
                w2=draw(st.integers(1, 5000)), h2=draw(st.integers(1, 5000)), via=draw(st.booleans()))


def lens_x(kind, v):
    return 2 * np.tan(np.radians(v) / 2) if kind == "rect" else np.radians(v)


def lens_y(kind, v):
    return np.radians(v) if kind == "equi" else 2 * np.tan(np.radians(v) / 2)


@check("C06", cases(), quick=2000, shards=3, rule="different image width and height and different focal lengths")
def formulas(case, ctx):
    p = case["p"]
    ctx.label(p["type"])
    ctx.nontrivial(p["w"] != p["h"] and p["fx"] != p["fy"])
    proj = gen.make_projection(p)
    vx, vy, k = case["vx"], case["vy"], p["type"]
    close(proj.getFieldOfView(), ref.fov(p), 1e-9 * 360, "field of view (%s)" % k)
    rel = 1e-10 * (1 + 1 / np.cos(np.radians(min(vx, 175)) / 2) + 1 / np.cos(np.radians(min(vy, 175)) / 2))
    close(proj.focallengthFromFOV(view_x=vx), p["w"] / lens_x(k, vx), rel * p["w"] / lens_x(k, vx), "focal length for a horizontal view (%s)" % k)
    close(proj.focallengthFromFOV(view_y=vy), p["h"] / lens_y(k, vy), rel * p["h"] / lens_y(k, vy), "focal length for a vertical view (%s)" % k)
    close(proj.imageFromFOV(view_x=vx), p["fx"] * lens_x(k, vx), rel * p["fx"] * lens_x(k, vx), "image width for a horizontal view (%s)" % k)
    close(proj.imageFromFOV(view_y=vy), p["fy"] * lens_y(k, vy), rel * p["fy"] * lens_y(k, vy), "image height for a vertical view (%s)" % k)


@check("C06", cases(), quick=1500, shards=3, rule="every case; both directions of the view")
def consistent(case, ctx):
    """a projection that is set up for a view has this view; the view is the angle between the rays of opposite borders"""
    p = case["p"]
    k = p["type"]
    ctx.label(k)
    vx, vy = case["vx"], case["vy"]
    proj = gen.PROJ[k](view_x_deg=vx, view_y_deg=vy, image=(p["w"], p["h"]))
    close(proj.getFieldOfView(), [vx, vy], 1e-8, "field of view of a projection constructed with a field of view (%s)" % k)
    # change the image size: the view has to follow
    proj.image_width_px, proj.image_height_px = case["w2"], case["h2"]
    q = dict(type=k, w=case["w2"], h=case["h2"], fx=p["w"] / lens_x(k, vx), fy=p["h"] / lens_y(k, vy))
    close(proj.getFieldOfView(), ref.fov(q), 1e-8 * 360, "field of view after changing the image size (%s)" % k)
    # set the focal lengths from a view
    proj = gen.make_projection(p)
    obj = ct.Camera(proj) if case["via"] else proj
    obj.focallength_x_px = proj.focallengthFromFOV(view_x=vx)
    obj.focallength_y_px = proj.focallengthFromFOV(view_y=vy)
    close(proj.getFieldOfView(), [vx, vy], 1e-8, "field of view after setting the focal length for it (%s)" % k)
    # set the image size from a view
    proj = gen.make_projection(p)
    obj = ct.Camera(proj) if case["via"] else proj
    obj.image_width_px = proj.imageFromFOV(view_x=vx)
    obj.image_height_px = proj.imageFromFOV(view_y=vy)
    close(proj.getFieldOfView(), [vx, vy], 1e-8, "field of view after setting the image size for it (%s)" % k)
    # what the view means: the angle between the rays of opposite borders
    proj = gen.make_projection(p)
    fx, fy = ref.fov(p)
    w, h = p["w"], p["h"]

    def angle(a, b):
        a, b = proj.getRay([a, b], normed=True)
        return np.degrees(np.arctan2(np.linalg.norm(np.cross(a, b)), np.dot(a, b)))
    got = proj.getFieldOfView()
    if fx < 179:
        close(got[0], angle([0, h / 2], [w, h / 2]), 1e-6, "horizontal field of view and the angle between the rays at the left and right border (%s)" % k)
    if fy < 179:
        close(got[1], angle([w / 2, 0], [w / 2, h]), 1e-6, "vertical field of view and the angle between the rays at the upper and lower border (%s)" % k)
