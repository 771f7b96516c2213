"""C17 distances, bearings and movements on the sphere"""
import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import gen, ref
from ..core import check, close, require, arr, fail, shape_is

ASSUMPTIONS = ["the earth is a sphere with a radius of 6371 km (documented)",
               "tolerances follow from the conditioning: bearings of close, antipodal or polar points, distances close to half the circumference"]

R = ref.EARTH


def lat():
    return gen.num(-90, 90, (0, 90, -90, 45, -45, 89.999, 1e-7))


def lon():
    return gen.num(-180, 180, (0, 180, -180, 90, -90, 179.999, 1e-7))


@st.composite
def pair(draw):
    a = [draw(lat()), draw(lon())]
    how = draw(st.sampled_from(["any", "any", "near", "same", "antipode", "meridian", "shifted"]))
    if how == "near":
        b = [max(-90, min(90, a[0] + draw(gen.logu(1e-8, 1, signed=True)))), a[1] + draw(gen.logu(1e-8, 1, signed=True))]
    elif how == "same":
        b = list(a)
    elif how == "antipode":
        b = [-a[0] + draw(st.sampled_from([0, 0, 1e-6])), a[1] + 180]
        b[0] = max(-90, min(90, b[0]))
    elif how == "meridian":
        b = [draw(lat()), a[1]]
    elif how == "shifted":
        b = [a[0], draw(lon()) + 360]
    else:
        b = [draw(lat()), draw(lon())]
    return dict(how=how, a=a, b=b)


@st.composite
def pairs(draw):
    return dict(pairs=draw(st.lists(pair(), min_size=1, max_size=4)), bulk=draw(gen.bulk()), h=draw(gen.vec(2, gen.num(-400, 9000))))


def expand(case):
    a = [p["a"] for p in case["pairs"]]
    b = [p["b"] for p in case["pairs"]]
    r = gen.expand(case["bulk"], 20, -1, 1, 4)
    a = np.vstack([a, r[:, :2] * [90, 180]])
    b = np.vstack([b, r[:, 2:] * [90, 180]])
    return a, b


def vec(x):
    return ref.sphere(x[..., 0], x[..., 1])


@check("C17", pairs(), quick=2500, shards=3, rule="two different points")
def distance(case, ctx):
    a, b = expand(case)
    ctx.label(*[p["how"] for p in case["pairs"]])
    ctx.nontrivial(any(p["a"] != p["b"] for p in case["pairs"]))
    want = ref.sphere_distance(vec(a), vec(b))
    c = np.maximum(np.cos(want / R / 2), 1e-8)
    tol = 1e-8 + 1e-12 * want + 4e-15 * R / c
    got = ct.getDistance(a, b)
    close(got, want, tol, "great circle distance")
    close(ct.getDistance(b, a), want, tol, "distance in the other direction")
    for i in range(min(3, len(a))):
        close(ct.getDistance(list(a[i]), list(b[i])), want[i], tol[i], "distance of two points")
    # one point to many
    close(ct.getDistance(a[0], b), ref.sphere_distance(vec(a[:1]), vec(b)), 1e-8 + 1e-12 * 2e7 + 4e-15 * R / np.maximum(np.cos(ref.sphere_distance(vec(a[:1]), vec(b)) / R / 2), 1e-8), "distance of one point to many")
    # with heights
    h0, h1 = case["h"]
    a3, b3 = np.column_stack([a, np.full(len(a), h0)]), np.column_stack([b, np.full(len(a), h1)])
    close(ct.getDistance(a3, b3), np.hypot(want, h1 - h0), 2 * tol, "distance including the difference of the heights")
    # heights of their own
    hs = h1 + gen.expand(case["bulk"] + 7, len(a), 0, 5000)[:, 0]
    b3 = np.column_stack([b, hs])
    close(ct.getDistance(a3, b3), np.hypot(want, hs - h0), 2 * tol, "distance including the differences of the heights")
    far = ref.sphere_distance(vec(a[:1]), vec(b))
    t = 1e-8 + 1e-12 * 2e7 + 4e-15 * R / np.maximum(np.cos(far / R / 2), 1e-8)
    close(ct.getDistance(a3[0], b3), np.hypot(far, hs - h0), 2 * t, "distance of one point to many including the differences of the heights")
    close(ct.getDistance(b3, list(a3[0])), np.hypot(far, hs - h0), 2 * t, "distance of many points to one including the differences of the heights")
    # positions in whole degrees
    ai, bi = np.round(a).astype(int), np.round(b).astype(int)
    close(ct.getDistance(ai, bi.tolist()), ct.getDistance(ai.astype(float), bi.astype(float)), 1e-6, "distance of positions in whole degrees")
    # the height is only used if both points have one
    close(ct.getDistance(a3, b), want, tol, "distance, height of one point")
    # a triangle
    d = gen.expand(case["bulk"] + 9, len(a), -1, 1, 2) * [90, 180]
    require(np.all(got <= ct.getDistance(a, d) + ct.getDistance(d, b) + 1), "the triangle inequality is violated")
    require(np.all(got <= np.pi * R + 1), "a distance larger than half of the circumference")


def angle_diff(x, y):
    return (np.asarray(x, float) - y + 180) % 360 - 180


@check("C17", pairs(), quick=2500, shards=3, rule="two points whose bearing is defined")
def bearing(case, ctx):
    a, b = expand(case)
    north, east = ref.north_east(a[:, 0], a[:, 1])
    vb = vec(b)
    want = np.degrees(np.arctan2(np.sum(east * vb, axis=1), np.sum(north * vb, axis=1)))
    s = np.linalg.norm(np.cross(vec(a), vb), axis=1)
    keep = s > 1e-9
    tol = 1e-10 + np.degrees(1e-14) / np.maximum(s, 1e-12)
    ctx.label(*[p["how"] for p in case["pairs"]])
    ctx.nontrivial(keep[:len(case["pairs"])].any())
    got = ct.getBearing(a, b)
    shape_is(got, (len(a),), "bearings")
    require(np.all((got >= -180) & (got <= 180)), "bearing out of range: %s", got)
    close(angle_diff(got, want)[keep], np.zeros(keep.sum()), tol[keep], "bearing (difference to the reference)")
    for i in range(min(3, len(a))):
        if keep[i]:
            close(angle_diff(ct.getBearing(list(a[i]), list(b[i])), want[i]), 0, tol[i], "bearing of two points")
            close(angle_diff(ct.getBearing(list(a[i]) + [5], list(b[i]) + [100]), want[i]), 0, tol[i], "bearing of two points with heights")


@st.composite
def moves(draw):
    n = draw(st.integers(1, 4))
    start, d, b = [], [], []
    for _ in range(n):
        start.append([draw(lat()), draw(lon())])
        how = draw(st.sampled_from(["any", "any", "any", "north pole", "south pole"]))
        if how == "any":
            d.append(draw(st.one_of(gen.logu(1e-3, 3e7), gen.num(0, 2e7, (0,)))))
            b.append(draw(gen.angle(-720, 720)))
        else:  # along the meridian exactly onto a pole
            sign = 1 if how == "north pole" else -1
            d.append(float(np.radians(90 - sign * start[-1][0]) * R))
            b.append(draw(st.sampled_from([0, 360, -360])) + (0 if sign > 0 else 180))
    return dict(start=start, d=d, b=b, bulk=draw(gen.bulk()), h=draw(gen.num(-400, 9000)), layout=draw(st.integers(0, 3)))


def move_ref(start, d, b, radius=R):
    north, east = ref.north_east(start[:, 0], start[:, 1])
    br = np.radians(b)[:, None]
    ang = (d / radius)[:, None]
    return vec(start) * np.cos(ang) + (north * np.cos(br) + east * np.sin(br)) * np.sin(ang)


def move_tol(v, start):
    """the latitude is calculated with an arcsin: less precise close to the poles; there, and starting from there, the
    longitude is less precise; starting exactly from a pole the bearing is not defined"""
    c1 = np.abs(np.cos(np.radians(start[..., 0])))
    return 1e-13 + 4e-15 / np.maximum(np.sqrt(np.maximum(1 - v[:, 2] ** 2, 0)), 1e-8) + 4e-15 / np.maximum(c1, 1e-16)


@check("C17", moves(), quick=2500, shards=3, rule="a distance larger than 0")
def move(case, ctx):
    start, d, b = arr(case["start"]), arr(case["d"]), arr(case["b"])
    n = len(start)
    r = gen.expand(case["bulk"], 15, -1, 1, 4)
    start = np.vstack([start, r[:, :2] * [90, 180]])
    d = np.concatenate([d, np.abs(r[:, 2]) ** 3 * 1.9e7])
    b = np.concatenate([b, r[:, 3] * 180])
    ctx.label("layout %d" % case["layout"])
    ctx.nontrivial(np.any(d[:n] > 0))
    want = move_ref(start, d, b)
    tol = move_tol(want, start)[:, None]
    got = ct.moveDistance(start, d, b)
    shape_is(got, (len(start), 2), "moved points")
    close(vec(got), want, tol, "moved points (as vectors on the unit sphere)")
    require(np.all(np.abs(got[:, 0]) <= 90), "latitude out of range: %s", got)
    # other layouts of the arguments
    if case["layout"] == 0:
        one = ct.moveDistance(list(start[0]), d[0], b[0])
        shape_is(one, (2,), "one moved point")
        close(ref.sphere(one[0], one[1]), want[0], tol[0], "one moved point")
    elif case["layout"] == 1:
        w = move_ref(np.repeat(start[:1], len(d), axis=0), d, b)
        close(vec(ct.moveDistance(start[0], d, b)), w, move_tol(w, start[:1])[:, None], "one point moved in many ways")
    elif case["layout"] == 2:
        w = move_ref(start, np.full(len(start), d[0]), np.full(len(start), b[0]))
        close(vec(ct.moveDistance(start, d[0], b[0])), w, move_tol(w, start)[:, None], "many points moved in the same way")
    else:
        # every point has its own height
        h = case["h"] + np.append(0, gen.expand(case["bulk"] + 5, len(start) - 1, 0, 9000)[:, 0] if len(start) > 1 else [])
        s3 = np.column_stack([start, h])
        w = move_ref(start, d, b, R + h)
        g3 = ct.moveDistance(s3, d, b)
        shape_is(g3, (len(start), 3), "moved points with height")
        close(vec(g3), w, move_tol(w, start)[:, None], "moved points with height")
        close(g3[:, 2], s3[:, 2], 0, "the height of moved points")
        one = ct.moveDistance(s3[0], d[0], b[0])
        close(np.append(ref.sphere(one[0], one[1]), one[2]), np.append(w[0], case["h"]), move_tol(w, start)[0], "one moved point with height")


@check("C17", moves(), quick=1500, shards=2, rule="a start away from the poles and a distance between 1 m and half of the circumference")
def move_and_measure(case, ctx):
    """moving and then measuring gives distance and bearing back; moving by the measured distance and bearing leads to the point"""
    r = gen.expand(case["bulk"], 15, -1, 1, 4)
    start = np.vstack([arr(case["start"]), r[:, :2] * [89, 180]])
    d = np.concatenate([arr(case["d"]), 10 ** (4 + 3.2 * r[:, 2])])
    b = np.concatenate([arr(case["b"]), r[:, 3] * 180])
    keep = (np.abs(start[:, 0]) < 89.9) & (d > 1) & (d < 0.999 * np.pi * R)
    ctx.nontrivial(keep[:len(case["d"])].any())
    start, d, b = start[keep], d[keep], b[keep]
    if not len(d):
        return
    target = ct.moveDistance(start, d, b)
    pole = move_tol(vec(target), start) * R
    close(ct.getDistance(start, target), d, 1e-6 + 1e-10 * d + 3 * pole + 4e-15 * R / np.cos(d / R / 2), "distance to the moved point")
    s = np.sin(d / R)
    close(angle_diff(ct.getBearing(start, target), b), 0 * b, np.degrees(1e-12 + 3 * pole / R) / s * 10, "bearing of the moved point")
    other = gen.expand(case["bulk"] + 1, len(d), -1, 1, 2) * [89, 180]
    dist, bear = ct.getDistance(start, other), ct.getBearing(start, other)
    v = vec(other)
    c = np.maximum(np.cos(dist / R / 2), 1e-7)
    close(vec(ct.moveDistance(start, dist, bear)), v, (move_tol(v, start) + 1e-12 / c)[:, None], "moving by measured distance and bearing")
