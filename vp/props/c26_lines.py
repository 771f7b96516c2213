"""C26 geometry of lines"""
import numpy as np
from hypothesis import strategies as st
from cameratransform import ray as ctray
from .. import gen
from ..core import check, close, require, arr, fail, shape_is

ASSUMPTIONS = ["lines that are exactly parallel or at an angle of at least 1e-5"]


@st.composite
def cases(draw):
    how = draw(st.sampled_from(["any", "any", "meet", "parallel", "same direction"]))
    n = draw(st.integers(1, 5))
    v = st.one_of(gen.vec(3, gen.num(-3, 3)), gen.vec(3, st.integers(-3, 3).map(float)))
    case = dict(how=how, p1=draw(gen.vec(3, gen.coord(100))), p2=draw(gen.vec(3, gen.coord(100))), v1=[draw(v) for _ in range(n)], v2=[draw(v) for _ in range(n)],
                s1=draw(gen.logu(1e-3, 1e3, signed=True)), s2=draw(gen.logu(1e-3, 1e3, signed=True)), s=draw(st.sampled_from([1.0, 1.0, 1e-5, 1e-8, 1e6])), which=draw(st.integers(0, n - 1)), q=draw(gen.points(3, gen.coord(100), n, n)))
    if how == "parallel":
        case["v2"][case["which"]] = [a * draw(st.sampled_from([1.0, -1.0, 2.0, 0.5, -4.0])) for a in case["v1"][case["which"]]]
    if how == "same direction":
        case["v2"] = [list(a) for a in case["v1"]]
    return case


def prepare(case):
    p1, p2 = arr(case["p1"]), arr(case["p2"])
    v1, v2 = arr(case["v1"]), arr(case["v2"])
    if case["how"] == "meet":
        # the lines meet at q
        v1, v2 = arr(case["q"]) - p1, arr(case["q"]) - p2
    # directions need a length
    for v in (v1, v2):
        v[np.linalg.norm(v, axis=1) < 1e-3] = [1.0, 0, 0]
    v1, v2 = v1 * (case["s1"] * case["s"]), v2 * (case["s2"] * case["s"])
    n1, n2 = np.linalg.norm(v1, axis=1), np.linalg.norm(v2, axis=1)
    cross = np.cross(v1 / n1[:, None], v2 / n2[:, None])
    sin = np.linalg.norm(cross, axis=1)
    return p1, v1, p2, v2, sin


@check("C26", cases(), quick=4000, shards=4, rule="lines that are not parallel")
def two_lines(case, ctx):
    p1, v1, p2, v2, sin = prepare(case)
    ctx.label(case["how"], "N=%d" % len(v1))
    skew = sin > 1e-5
    parallel = sin < 1e-12
    ctx.nontrivial(skew.any())
    u1, u2 = v1 / np.linalg.norm(v1, axis=1)[:, None], v2 / np.linalg.norm(v2, axis=1)[:, None]
    w = p2 - p1
    size = 1 + np.abs(w).max() + np.abs(p1).max()
    cross = np.cross(u1, u2)
    keep_copies = [a.copy() for a in (p1, v1, p2, v2)]
    d = ctray.distanceOfTwoLines(p1, v1, p2, v2)
    shape_is(d, (len(v1),), "distances of lines")
    with np.errstate(all="ignore"):
        want = np.where(skew, np.abs(np.sum(cross * w, axis=1)) / sin, np.linalg.norm(np.cross(np.broadcast_to(w, u1.shape), u1), axis=1))
        s = np.sum(np.cross(np.broadcast_to(w, u2.shape), u2) * cross, axis=1) / sin ** 2
        t = np.sum(np.cross(np.broadcast_to(w, u1.shape), u1) * cross, axis=1) / sin ** 2
        tol = 1e-13 * size / np.where(skew, sin, 1) * 10
    sure = skew | parallel
    close(d[sure], want[sure], tol[sure], "distances of lines")
    m = ctray.intersectionOfTwoLines(p1, v1, p2, v2)
    shape_is(m, (len(v1), 3), "intersections of lines")
    mid = (p1 + s[:, None] * u1 + p2 + t[:, None] * u2) / 2
    # the equations have the condition number 1 / sin^2, and that of the length of the directions
    ratio = np.linalg.norm(v1, axis=1) / np.linalg.norm(v2, axis=1)
    cond = np.maximum(ratio, 1 / ratio) ** 2
    mtol = 1e-14 * size / np.where(skew, sin, 1) ** 4 * 20 + 1e-15 * cond * size / np.where(skew, sin, 1) ** 4
    good = skew & (mtol < 1e-3 * size)
    close(m[good], mid[good], mtol[good][:, None], "middle between two lines")
    if case["how"] == "meet":
        # (a point too close to an origin does not define a direction, see prepare)
        q = arr(case["q"])
        meet = good & (np.linalg.norm(q - p1, axis=1) >= 1e-3) & (np.linalg.norm(q - p2, axis=1) >= 1e-3)
        close(m[meet], q[meet], mtol[meet][:, None] + 1e-12 * size, "intersection of lines that meet")
    for a, b in zip(keep_copies, (p1, v1, p2, v2)):
        require(np.array_equal(a, b), "the arguments were changed")
    for i in range(len(v1)):
        if sure[i]:
            one = ctray.distanceOfTwoLines(p1, v1[i], p2, v2[i])
            shape_is(one, (), "distance of two lines")
            close(one, want[i], tol[i], "distance of two lines")
            back = ctray.distanceOfTwoLines(p2, v2[i], p1, -v1[i])
            close(back, want[i], tol[i] * 2, "distance of two lines, exchanged")
        if good[i]:
            one = ctray.intersectionOfTwoLines(p1, v1[i], p2, v2[i])
            shape_is(one, (3,), "intersection of two lines")
            close(one, mid[i], mtol[i], "middle between two lines, one pair")
            close(ctray.intersectionOfTwoLines(p2, v2[i], p1, v1[i]), mid[i], mtol[i], "middle between two lines, exchanged")


@check("C26", cases(), quick=2000, shards=2, rule="a point that is not on the line")
def line_and_point(case, ctx):
    p1, v1, p2, v2, sin = prepare(case)
    q = arr(case["q"])
    size = 1 + np.abs(p1).max() + np.abs(q).max()
    u = v1 / np.linalg.norm(v1, axis=1)[:, None]
    foot = p1 + np.sum((q - p1) * u, axis=1)[:, None] * u
    dist = np.linalg.norm(np.cross(u, q - p1), axis=1)
    ctx.nontrivial(dist.max() > 1e-6)
    before = v1.copy(), q.copy()
    got = ctray.getClosestPointFromLine(p1, v1, q)
    close(got, foot, 1e-13 * size * 10, "closest points of lines")
    require(np.array_equal(before[0], v1) and np.array_equal(before[1], q), "the arguments were changed")
    # one origin per line
    P = p1 + np.arange(len(v1))[:, None]
    foot2 = P + np.sum((q - P) * u, axis=1)[:, None] * u
    close(ctray.getClosestPointFromLine(P, v1, q), foot2, 1e-13 * (size + len(v1)) * 10, "closest points of lines with their own origin")
    # one line and several points, several lines and one point
    foot3 = p1 + np.sum((q - p1) * u[0], axis=1)[:, None] * u[0]
    close(ctray.getClosestPointFromLine(p1, v1[0], q), foot3, 1e-13 * size * 10, "closest points of one line")
    foot4 = p1 + np.sum((q[0] - p1) * u, axis=1)[:, None] * u
    close(ctray.getClosestPointFromLine(p1, v1, q[0]), foot4, 1e-13 * size * 10, "closest points of several lines to one point")
    # a line without a direction is only a point
    zero = np.zeros(3)
    close(ctray.distanceOfTwoLines(q[0], zero, p1, v1[0]), dist[0], 1e-13 * size * 10, "distance of a point and a line")
    close(ctray.distanceOfTwoLines(p1, v1[0], q[0], zero), dist[0], 1e-13 * size * 10, "distance of a line and a point")
    close(ctray.distanceOfTwoLines(p1, zero, q[0], zero), np.linalg.norm(q[0] - p1), 1e-13 * size * 10, "distance of two points")
    for i in range(len(v1)):
        one = ctray.getClosestPointFromLine(p1, v1[i], q[i])
        close(one, foot[i], 1e-13 * size * 10, "closest point of a line")
        close(ctray.distanceLinePoint(p1, v1[i], q[i]), dist[i], 1e-13 * size * 10, "distance of a point from a line")
        # in the plane
        a, b, c = p1[:2], v1[i, :2], q[i, :2]
        if np.linalg.norm(b) > 1e-4 * np.linalg.norm(v1[i]):
            f2 = a + np.dot(c - a, b) / np.dot(b, b) * b
            close(ctray.getClosestPointFromLine(a, b, c), f2, 1e-12 * size, "closest point of a line in the plane")
