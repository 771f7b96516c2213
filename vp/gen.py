"""Generators of plain-data cases, and builders that turn the data into objects of the code under test."""
import math

import numpy as np
from hypothesis import strategies as st

import cameratransform as ct

from . import core


def _no_underflow(x):
    # products of several coordinates must not underflow
    return 0.0 if abs(x) < 1e-30 else x


def num(lo, hi, special=()):
    """floats in [lo, hi]: uniform-ish floats, round numbers, and special values"""
    parts = [st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False).map(_no_underflow)]
    ilo, ihi = math.ceil(lo), math.floor(hi)
    if ihi > ilo:
        parts.append(st.integers(ilo, ihi).map(float))
        parts.append(st.integers(ilo * 8, ihi * 8).map(lambda v: v / 8))
    else:
        parts.append(st.integers(0, 64).map(lambda v: lo + (hi - lo) * v / 64))
    special = [s for s in special if lo <= s <= hi]
    if special:
        parts.append(st.sampled_from([float(s) for s in special]))
    return st.one_of(parts)


def logu(lo, hi, signed=False):
    """numbers spread over the orders of magnitude between lo and hi"""
    s = num(math.log10(lo), math.log10(hi)).map(lambda e: min(max(10.0 ** e, lo), hi))
    if signed:
        return st.tuples(s, st.booleans()).map(lambda t: t[0] if t[1] else -t[0])
    return s


ANGLES = (0, 30, 45, 60, 90, 120, 135, 180, 270, 359, 360, -30, -45, -90, -180, -270, -360, 85, 1e-9)


def angle(lo=-720, hi=720):
    return num(lo, hi, ANGLES)


def coord(r=1000):
    return st.one_of(num(-r, r, (0, 1, -1)), logu(1e-3, r, signed=True), st.just(0.0))


def vec(n, elements):
    return st.lists(elements, min_size=n, max_size=n)


def points(n, elements, max_size=6, min_size=1):
    return st.lists(vec(n, elements), min_size=min_size, max_size=max_size)


# ------------------------------------------------------------------------------------------------ projections

PROJ = {"rect": ct.RectilinearProjection, "cyl": ct.CylindricalProjection, "equi": ct.EquirectangularProjection}


def image_size(max_px=6000, min_px=2):
    side = st.one_of(st.integers(min_px, max_px), st.sampled_from([v for v in (2, 3, 10, 100, 480, 640, 1080, 1920, 2592, 3456, 4608) if min_px <= v <= max_px]))
    return st.tuples(side, side).map(list)


@st.composite
def projection(draw, types=("rect", "cyl", "equi"), max_px=6000, min_px=2, wide=True, center_offset=True):
    """fx, fy relative to the image size, so that the field of view is between narrow and (almost) the full range"""
    kind = draw(st.sampled_from(types))
    w, h = draw(image_size(max_px, min_px))
    # half of the field of view in x
    f = max(w, h) * draw(logu(0.25 if wide else 0.5, 20))
    ratio = draw(st.one_of(st.just(1.0), num(0.6, 1.6)))
    d = dict(type=kind, w=w, h=h, fx=f, fy=f * ratio)
    if center_offset and draw(st.booleans()):
        d["cx"] = w * draw(num(0.1, 0.9))
        d["cy"] = h * draw(num(0.1, 0.9))
    else:
        d["cx"], d["cy"] = w / 2, h / 2
    return d


def make_projection(d):
    return PROJ[d["type"]](focallength_x_px=d["fx"], focallength_y_px=d["fy"], center_x_px=d["cx"], center_y_px=d["cy"],
                           image_width_px=d["w"], image_height_px=d["h"])


# ------------------------------------------------------------------------------------------------ orientations

@st.composite
def orientation(draw, kinds=("thr", "ypr"), max_pos=1000, elevation=None, tilt=None):
    kind = draw(st.sampled_from(kinds))
    d = dict(kind=kind, x=draw(coord(max_pos)), y=draw(coord(max_pos)),
             z=draw(elevation if elevation is not None else coord(max_pos)),
             heading=draw(angle(-720, 720)), tilt=draw(tilt if tilt is not None else angle(-360, 360)), roll=draw(angle(-360, 360)))
    return d


def make_orientation(d):
    """(heading, tilt, roll) is the same rotation in both kinds: yaw = heading, pitch = tilt - 90, roll = -roll"""
    if d["kind"] == "thr":
        return ct.SpatialOrientation(elevation_m=d["z"], tilt_deg=d["tilt"], roll_deg=d["roll"], heading_deg=d["heading"],
                                     pos_x_m=d["x"], pos_y_m=d["y"])
    return ct.SpatialOrientationYawPitchRoll(elevation_m=d["z"], yaw_deg=d["heading"], pitch_deg=d["tilt"] - 90,
                                             roll_deg=-d["roll"], pos_x_m=d["x"], pos_y_m=d["y"])


# ------------------------------------------------------------------------------------------------ lenses

def corner_radius(p, kind):
    """the largest radius (in units of the lens model) of a point of the image"""
    xs = np.array([0 - p["cx"], p["w"] - p["cx"]])
    ys = np.array([0 - p["cy"], p["h"] - p["cy"]])
    if kind == "brown":
        xs, ys = xs / p["fx"], ys / p["fy"]
    else:
        s = min(p["w"], p["h"]) / 2
        xs, ys = xs / s, ys / s
    return float(np.hypot(np.max(np.abs(xs)), np.max(np.abs(ys))))


@st.composite
def lens_for(draw, p, kinds=("none", "brown", "abc"), strength=0.6, reach=1.0):
    """a lens whose distortion is strictly increasing (slope between 1-strength and 1+strength) on reach times the image"""
    kind = draw(st.sampled_from(kinds))
    if kind == "none":
        return dict(kind="none")
    rc = corner_radius(p, kind) * reach
    unit = num(-1, 1, (0, 1, -1))
    parts = [draw(unit), draw(unit), draw(unit)]
    total = sum(abs(v) for v in parts)
    s = draw(num(0, strength))
    parts = [v / total * s if total else 0.0 for v in parts]
    if kind == "brown":
        return dict(kind="brown", k=[parts[i] / ((2 * i + 3) * rc ** (2 * i + 2)) for i in range(3)])
    # slope = 1 + a (4 r^3 - 1) + b (3 r^2 - 1) + c (2 r - 1)
    dev = [max(4 * rc ** 3, 1), max(3 * rc ** 2, 1), max(2 * rc, 1)]
    return dict(kind="abc", k=[parts[i] / dev[i] for i in range(3)])


def make_lens(d):
    if d["kind"] == "none":
        return ct.NoDistortion()
    if d["kind"] == "brown":
        return ct.BrownLensDistortion(*d["k"])
    return ct.ABCDistortion(*d["k"])


# ------------------------------------------------------------------------------------------------ cameras

@st.composite
def camera(draw, types=("rect", "cyl", "equi"), kinds=("thr", "ypr"), lenses=("none", "brown", "abc"), max_px=6000,
           min_px=2, max_pos=1000, wide=True, elevation=None, tilt=None, strength=0.6, reach=1.0):
    p = draw(projection(types, max_px, min_px, wide))
    return dict(p=p, o=draw(orientation(kinds, max_pos, elevation, tilt)), l=draw(lens_for(p, lenses, strength, reach)))


def make_camera(d):
    return ct.Camera(make_projection(d["p"]), make_orientation(d["o"]), make_lens(d["l"]))


def pixel_fracs(max_size=5, margin=0.0):
    """positions in the image as fractions of the image size"""
    f = num(0 - margin, 1 + margin, (0, 0.5, 1, 0.25))
    return points(2, f, max_size)


def pixels(fracs, p):
    return np.array(fracs, dtype=float) * np.array([p["w"], p["h"]])


# ------------------------------------------------------------------------------------------------ bulk

def bulk():
    """a number that expands to many random points (see expand_*): many cheap inputs per generated case"""
    return st.integers(0, 2 ** 32 - 1)


def expand(seed, n, lo, hi, k=1):
    """n x k numbers in [lo, hi]: mixed uniform, rounded and near-limit values; a pure function of the arguments"""
    rs = np.random.RandomState(seed % 2 ** 32)
    u = rs.uniform(0, 1, (n, k))
    kind = rs.randint(0, 8, (n, k))
    u = np.where(kind == 0, np.round(u * 16) / 16, u)
    u = np.where(kind == 1, u ** 6, u)
    u = np.where(kind == 2, 1 - u ** 6, u)
    v = lo + u * (hi - lo)
    v = np.where(kind == 3, np.clip(np.round(v), lo, hi), v)
    return v
