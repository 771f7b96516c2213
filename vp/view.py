"""Points and pixels in the field of view of a generated camera, with error bounds of the numerics"""
import numpy as np
from hypothesis import strategies as st
from . import gen, ref

LENS_TOL = 1e-6


def in_domain(p, im):
    ok = np.ones(len(im), bool)
    if p["type"] != "rect":
        ok &= np.abs((im[:, 0] - p["cx"]) / p["fx"]) < np.pi * 0.999
    if p["type"] == "equi":
        ok &= np.abs((im[:, 1] - p["cy"]) / p["fy"]) < np.pi / 2 * 0.99
    return ok


def ideal_pixels(p, fr, bulk, n=30):
    im = np.vstack([gen.pixels(fr, p).reshape(-1, 2), gen.expand(bulk, n, 0, 1, 2) * [p["w"], p["h"]]])
    return im[in_domain(p, im)]


def ray_tol(c, im):
    """bound of the error of the direction (unit vector) of the rays of ideal pixels im, per pixel"""
    p, l = c["p"], c["l"]
    tol = np.full(len(im), 1e-10)
    if p["type"] == "rect" and len(im):
        tol = tol * (1 + 1 / np.min(np.abs(ref.unit(ref.ray(p, im))[:, 2])))
    if l["kind"] != "none":
        s = ref.lens_scale(p, l)
        tol = tol + LENS_TOL * gen.corner_radius(p, l["kind"]) * np.max(s) / min(p["fx"], p["fy"]) * 2
    if p["type"] == "equi":
        tol = tol * 3
    return tol


def image_tol(c, cp):
    """bound of the error in pixels from the rounding of the positions, cp: points in camera coordinates"""
    p, o = c["p"], c["o"]
    big = np.linalg.norm(cp, axis=1) + np.linalg.norm(ref.o_pos(o))
    return 1.6e-13 * ref.image_slope(p, cp) * big + 4e-11 * (p["w"] + p["h"] + p["fx"] + p["fy"])


def lens_tol(c):
    """bound in pixels of the error of the inverse of the lens"""
    if c["l"]["kind"] == "none":
        return 0.0
    return LENS_TOL * 2 * gen.corner_radius(c["p"], c["l"]["kind"]) * float(np.max(ref.lens_scale(c["p"], c["l"])))


def directions(c, im):
    """unit directions in space of ideal pixels"""
    return ref.unit(ref.space_from_camera(c["o"], ref.ray(c["p"], im), direction=True))
