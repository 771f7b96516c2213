"""The reference model: the documented formulas, written independently of the code under test.

Everything here works on lists of points (N, k) and plain parameter dicts (see gen.py)."""
import numpy as np

EARTH = 6371e3


def rotation(heading, tilt, roll):
    """space -> camera. First the heading is undone around the z axis, then the tilt around the x axis, then the roll."""
    h, t, r = np.deg2rad([heading % 360, tilt % 360, roll % 360])
    # axes of the camera in space for roll = 0:
    #  right: horizontal, clockwise of the heading; view: heading and tilt; up: perpendicular to both
    right = np.array([np.cos(h), -np.sin(h), 0.0])
    view = np.array([np.sin(t) * np.sin(h), np.sin(t) * np.cos(h), -np.cos(t)])
    up = np.cross(right, view)
    # a positive roll rotates the axes of the camera around the view direction
    x_axis = np.cos(r) * right + np.sin(r) * up
    y_axis = -np.sin(r) * right + np.cos(r) * up
    return np.array([x_axis, y_axis, -view])


def o_rotation(o):
    return rotation(o["heading"], o["tilt"], o["roll"])


def o_pos(o):
    return np.array([o["x"], o["y"], o["z"]], dtype=float)


def camera_from_space(o, pts):
    return (np.asarray(pts, float) - o_pos(o)) @ o_rotation(o).T


def space_from_camera(o, pts, direction=False):
    q = np.asarray(pts, float) @ o_rotation(o)
    return q if direction else q + o_pos(o)


def image_from_camera(p, pts, hide=True):
    """documented projection formulas; returns image points (N,2) and a tolerance scale: d(image)/d(camera), per point"""
    pts = np.asarray(pts, float)
    x, y, z = pts[:, 0], pts[:, 1], pts[:, 2]
    with np.errstate(all="ignore"):
        if p["type"] == "rect":
            im = np.stack([p["cx"] + p["fx"] * x / -z, p["cy"] - p["fy"] * y / -z], axis=1)
            if hide:
                im[z > 0] = np.nan
        else:
            horizontal = np.hypot(x, z)
            azimuth = np.arctan2(x, -z)
            if p["type"] == "cyl":
                vertical = y / horizontal
            else:
                vertical = np.arctan2(y, horizontal)
            im = np.stack([p["cx"] + p["fx"] * azimuth, p["cy"] - p["fy"] * vertical], axis=1)
    return im


def image_slope(p, pts):
    """an upper bound of how much the image position changes per unit of change of the camera point"""
    pts = np.asarray(pts, float)
    x, y, z = np.abs(pts[:, 0]), np.abs(pts[:, 1]), np.abs(pts[:, 2])
    f = max(p["fx"], p["fy"])
    with np.errstate(all="ignore"):
        if p["type"] == "rect":
            return f * (1 / z + (x + y) / z ** 2)
        hor = np.hypot(x, z)
        if p["type"] == "cyl":
            return f * (2 / hor + y / hor ** 2)
        return f * (2 / hor + 2 / np.hypot(hor, y))


def ray(p, im):
    """camera-frame direction of image points"""
    im = np.asarray(im, float)
    u = (im[:, 0] - p["cx"]) / p["fx"]
    v = (im[:, 1] - p["cy"]) / p["fy"]
    if p["type"] == "rect":
        return np.stack([u, -v, -np.ones_like(u)], axis=1)
    if p["type"] == "cyl":
        return np.stack([np.sin(u), -v, -np.cos(u)], axis=1)
    return np.stack([np.sin(u), -np.tan(v), -np.cos(u)], axis=1)


def unit(v):
    v = np.asarray(v, float)
    return v / np.linalg.norm(v, axis=-1)[..., None]


def fov(p):
    w, h, fx, fy = p["w"], p["h"], p["fx"], p["fy"]
    if p["type"] == "rect":
        return 2 * np.degrees(np.arctan(w / 2 / fx)), 2 * np.degrees(np.arctan(h / 2 / fy))
    if p["type"] == "cyl":
        return np.degrees(w / fx), 2 * np.degrees(np.arctan(h / 2 / fy))
    return np.degrees(w / fx), np.degrees(h / fy)


# --------------------------------------------------------------------------------------------- lens distortion

def lens_poly(l, r):
    """distorted radius, in the units of the lens model"""
    if l["kind"] == "brown":
        k1, k2, k3 = l["k"]
        return r + k1 * r ** 3 + k2 * r ** 5 + k3 * r ** 7
    a, b, c = l["k"]
    return (1 - a - b - c) * r + c * r ** 2 + b * r ** 3 + a * r ** 4


def lens_slope(l, r):
    if l["kind"] == "brown":
        k1, k2, k3 = l["k"]
        return 1 + 3 * k1 * r ** 2 + 5 * k2 * r ** 4 + 7 * k3 * r ** 6
    a, b, c = l["k"]
    return (1 - a - b - c) + 2 * c * r + 3 * b * r ** 2 + 4 * a * r ** 3


def lens_scale(p, l):
    if l["kind"] == "brown":
        return np.array([p["fx"], p["fy"]], float)
    s = min(p["w"], p["h"]) / 2
    return np.array([s, s], float)


def lens_radius(p, l, im):
    q = (np.asarray(im, float) - [p["cx"], p["cy"]]) / lens_scale(p, l)
    return np.hypot(q[:, 0], q[:, 1])


def distort(p, l, im):
    """ideal image -> distorted image"""
    im = np.asarray(im, float)
    if l["kind"] == "none":
        return im.copy()
    c = np.array([p["cx"], p["cy"]], float)
    s = lens_scale(p, l)
    q = (im - c) / s
    r = np.hypot(q[:, 0], q[:, 1])
    with np.errstate(all="ignore"):
        factor = np.where(r == 0, 1.0, lens_poly(l, r) / np.where(r == 0, 1.0, r))
    return q * factor[:, None] * s + c


def undistort(p, l, im, r_max):
    """distorted image -> ideal image, by bisection in [0, r_max] where the distortion is increasing"""
    im = np.asarray(im, float)
    if l["kind"] == "none":
        return im.copy()
    c = np.array([p["cx"], p["cy"]], float)
    s = lens_scale(p, l)
    q = (im - c) / s
    rd = np.hypot(q[:, 0], q[:, 1])
    lo, hi = np.zeros_like(rd), np.full_like(rd, float(r_max))
    for _ in range(80):
        mid = (lo + hi) / 2
        big = lens_poly(l, mid) > rd
        hi = np.where(big, mid, hi)
        lo = np.where(big, lo, mid)
    r = (lo + hi) / 2
    with np.errstate(all="ignore"):
        factor = np.where(rd == 0, 1.0, r / np.where(rd == 0, 1.0, rd))
    return q * factor[:, None] * s + c


def image_from_space(c, pts, hide=True):
    return distort(c["p"], c["l"], image_from_camera(c["p"], camera_from_space(c["o"], pts), hide))


# --------------------------------------------------------------------------------------------- the sphere

def sphere(lat, lon):
    la, lo = np.radians(lat), np.radians(lon)
    return np.stack([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)], axis=-1)


def sphere_distance(a, b):
    """great circle distance, by the angle between the vectors"""
    return EARTH * np.arctan2(np.linalg.norm(np.cross(a, b), axis=-1), np.sum(a * b, axis=-1))


def north_east(lat, lon):
    la, lo = np.radians(lat), np.radians(lon)
    north = np.stack([-np.sin(la) * np.cos(lo), -np.sin(la) * np.sin(lo), np.cos(la)], axis=-1)
    east = np.stack([-np.sin(lo), np.cos(lo), np.zeros_like(lo)], axis=-1)
    return north, east
