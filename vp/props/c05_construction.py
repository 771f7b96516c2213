"""C05 every documented way to specify a projection gives the same projection; contradictory or missing information is rejected"""
import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import gen, ref
from ..core import check, close, require, arr, fail, raises

ASSUMPTIONS = ["positive focal lengths, sensor and image sizes; center coordinates different from 0 where they are given as conflicting values",
               "field of view below 170 degrees for rectilinear (and the vertical direction of cylindrical) projections"]


@st.composite
def spec(draw):
    """the kwargs of one way of construction, plus what the result has to be"""
    kind = draw(st.sampled_from(["rect", "cyl", "equi"]))
    w, h = draw(gen.image_size())
    kw = {}
    how_image = draw(st.sampled_from(["tuple", "list", "two", "array2", "array3"]))
    if how_image == "two":
        kw.update(image_width_px=w, image_height_px=h)
    else:
        kw["image"] = [how_image, w, h]
    # the sensor
    sw = draw(gen.num(2, 40))
    how_sensor = draw(st.sampled_from(["none", "tuple", "two", "width", "height"]))
    sh = draw(gen.num(2, 40))
    if how_sensor == "none":
        want_s = [17.3, 13.0]
    elif how_sensor == "tuple":
        kw["sensor"] = [sw, sh]
        want_s = [sw, sh]
    elif how_sensor == "two":
        kw.update(sensor_width_mm=sw, sensor_height_mm=sh)
        want_s = [sw, sh]
    elif how_sensor == "width":
        kw["sensor_width_mm"] = sw
        want_s = [sw, sw * h / w]
    else:
        kw["sensor_height_mm"] = sh
        want_s = [sh * w / h, sh]
    # the focal length
    how_focal = draw(st.sampled_from(["px", "pair", "xy", "mm", "view_x", "view_y", "view_xy", "view_x and y", "x and view_y"] if how_sensor != "none"
                                     else ["px", "pair", "xy", "view_x", "view_y", "view_xy", "view_x and y", "x and view_y"]))
    if how_focal in ("px", "pair", "xy"):
        fx = draw(gen.logu(1, 1e5))
        fy = fx if how_focal == "px" else fx * draw(gen.num(0.5, 2))
        if how_focal == "px":
            kw["focallength_px"] = fx
        elif how_focal == "pair":
            kw["focallength_px"] = [fx, fy]
        else:
            kw.update(focallength_x_px=fx, focallength_y_px=fy)
    elif how_focal == "mm":
        f = draw(gen.num(1, 400))
        kw["focallength_mm"] = f
        fx, fy = f * w / want_s[0], f * h / want_s[1]
    else:
        vx = draw(gen.num(1, 170 if kind == "rect" else 360))
        vy = draw(gen.num(1, 170))
        fx = w / 2 / np.tan(np.radians(vx) / 2) if kind == "rect" else w / np.radians(vx)
        fy = h / 2 / np.tan(np.radians(vy) / 2) if kind in ("rect", "cyl") else h / np.radians(vy)
        if how_focal == "view_x":
            kw["view_x_deg"] = vx
            fy = fx
        elif how_focal == "view_x and y":
            fy = draw(gen.logu(1, 1e5))
            kw.update(view_x_deg=vx, focallength_y_px=fy)
        elif how_focal == "x and view_y":
            fx = draw(gen.logu(1, 1e5))
            kw.update(view_y_deg=vy, focallength_x_px=fx)
        elif how_focal == "view_y":
            kw["view_y_deg"] = vy
            fx = fy
        else:
            kw.update(view_x_deg=vx, view_y_deg=vy)
    # the center
    how_center = draw(st.sampled_from(["none", "tuple", "two", "x", "y"]))
    cx, cy = w / 2, h / 2
    if how_center != "none":
        dx, dy = w * draw(gen.num(-0.3, 1.3, (0, 0, 1))), h * draw(gen.num(-0.3, 1.3, (0, 0, 1)))
        if how_center == "tuple":
            kw["center"] = [dx, dy]
            cx, cy = dx, dy
        if how_center in ("two", "x"):
            kw["center_x_px"] = cx = dx
        if how_center in ("two", "y"):
            kw["center_y_px"] = cy = dy
    return dict(kind=kind, kw=kw, how=[how_image, how_sensor, how_focal, how_center],
                want=dict(w=w, h=h, fx=float(fx), fy=float(fy), cx=cx, cy=cy, sw=want_s[0], sh=want_s[1]))


def kwargs(kw):
    """turn the plain data into arguments"""
    kw = dict(kw)
    if "image" in kw:
        how, w, h = kw["image"]
        kw["image"] = {"tuple": (w, h), "list": [w, h], "array2": np.broadcast_to(np.uint8(0), (h, w)),
                       "array3": np.broadcast_to(np.uint8(0), (h, w, 3))}[how]
    for name in ("focallength_px", "sensor", "center"):
        if isinstance(kw.get(name), list):
            kw[name] = tuple(kw[name])
    return kw


@check("C05", spec(), quick=2000, shards=4, rule="not the plain (width, height, one focal length) form")
def same_projection(case, ctx):
    want = case["want"]
    ctx.nontrivial(case["how"] != ["two", "none", "px", "none"])
    ctx.label(*("%s=%s" % (a, b) for a, b in zip(["image", "sensor", "focal", "center"], case["how"])))
    proj = gen.PROJ[case["kind"]](**kwargs(case["kw"]))
    names = dict(w="image_width_px", h="image_height_px", fx="focallength_x_px", fy="focallength_y_px", cx="center_x_px", cy="center_y_px",
                 sw="sensor_width_mm", sh="sensor_height_mm")
    cam = ct.Camera(proj)
    for key, name in names.items():
        for obj in (proj, cam):
            close(getattr(obj, name), want[key], 1e-9 * abs(want[key]), "%s of a projection constructed by %s" % (name, case["how"]))
    # and it projects like the explicitly constructed projection
    p = dict(want, type=case["kind"])
    px = np.array([[0.3, 0.2], [0.9, 0.6]]) * [want["w"], want["h"]]
    r = ref.ray(p, px)
    n = np.linalg.norm(r, axis=1)[:, None]
    close(proj.getRay(px), r, 1e-9 * n ** 2, "ray of a projection constructed by %s" % case["how"])
    close(proj.getFieldOfView(), ref.fov(p), 1e-9 * 360, "field of view of a projection constructed by %s" % case["how"])


CONFLICTS = [
    ("image twice", dict(image=(100, 50), image_width_px=100, focallength_px=10)),
    ("image twice", dict(image=(100, 50), image_height_px=50, focallength_px=10)),
    ("image twice", dict(image=(100, 50), image_width_px=100, image_height_px=50, focallength_px=10)),
    ("no image", dict(focallength_px=10)),
    ("no image height", dict(focallength_px=10, image_width_px=100)),
    ("no image width", dict(focallength_px=10, image_height_px=100)),
    ("center twice", dict(image=(100, 50), focallength_px=10, center=(3, 4), center_x_px=3)),
    ("center twice", dict(image=(100, 50), focallength_px=10, center=(3, 4), center_y_px=4)),
    ("focal length twice", dict(image=(100, 50), focallength_px=10, focallength_x_px=10)),
    ("focal length twice", dict(image=(100, 50), focallength_px=10, focallength_y_px=10)),
    ("focal length twice", dict(image=(100, 50), focallength_px=10, focallength_mm=10, sensor=(20, 10))),
    ("focal length twice", dict(image=(100, 50), focallength_x_px=10, focallength_y_px=10, focallength_mm=10, sensor=(20, 10))),
    ("focal length and view", dict(image=(100, 50), focallength_px=10, view_x_deg=50)),
    ("focal length and view", dict(image=(100, 50), focallength_px=10, view_y_deg=50)),
    ("focal length and view", dict(image=(100, 50), focallength_x_px=10, view_x_deg=50)),
    ("focal length and view", dict(image=(100, 50), focallength_y_px=10, view_y_deg=50)),
    ("focal length in mm and view", dict(image=(100, 50), focallength_mm=10, sensor=(20, 10), view_x_deg=50)),
    ("focal length in mm and view", dict(image=(100, 50), focallength_mm=10, sensor=(20, 10), view_y_deg=50)),
    ("sensor twice", dict(image=(100, 50), focallength_mm=10, sensor=(20, 10), sensor_width_mm=20)),
    ("sensor twice", dict(image=(100, 50), focallength_mm=10, sensor=(20, 10), sensor_height_mm=10)),
    ("no sensor", dict(image=(100, 50), focallength_mm=10)),
    ("no focal length", dict(image=(100, 50))),
    ("no focal length", dict(image=(100, 50), sensor=(20, 10), center=(3, 4))),
    ("only one focal length", dict(image=(100, 50), focallength_x_px=10)),
    ("only one focal length", dict(image=(100, 50), focallength_y_px=10)),
]


@check("C05", st.fixed_dictionaries(dict(kind=st.sampled_from(["rect", "cyl", "equi"]), i=st.integers(0, len(CONFLICTS) - 1), f=gen.num(0.5, 20))),
       quick=400, shards=1, rule="every case")
def rejected(case, ctx):
    what, kw = CONFLICTS[case["i"]]
    ctx.label(what)
    kw = {k: (tuple(max(1, int(e * case["f"])) for e in v) if k == "image" else tuple(e * case["f"] for e in v) if isinstance(v, tuple)
              else max(1, int(v * case["f"])) if k.startswith("image_") else v if k.startswith("view") else v * case["f"]) for k, v in kw.items()}
    raises(lambda: gen.PROJ[case["kind"]](**kw), "%s: %s" % (what, kw), ValueError)
