"""Pairs of cameras that look at the same region"""
import numpy as np
from hypothesis import strategies as st
from . import gen, ref, view


@st.composite
def cameras(draw, n=2, types=("rect", "cyl", "equi"), kinds=("thr", "ypr"), lenses=("none", "brown", "abc"), share=True, square=False, max_px=4000):
    """n cameras within some distance of a target, looking roughly at it"""
    target = np.array([draw(gen.num(-20, 20)) for _ in range(3)])
    same = share and draw(st.booleans())
    P = [draw(gen.projection(types, max_px, 50, wide=False)) for _ in range(1 if same else n)]
    L = [draw(gen.lens_for(p, lenses, 0.3, 1.2)) for p in P]
    O = []
    dist = draw(gen.logu(1, 100))
    for i in range(n):
        az = draw(gen.num(-180, 180))
        up = draw(gen.num(-80, 80))
        r = dist * draw(gen.num(0.6, 1.6))
        d = np.array([np.cos(np.radians(up)) * np.sin(np.radians(az)), np.cos(np.radians(up)) * np.cos(np.radians(az)), np.sin(np.radians(up))])
        if i and draw(st.booleans()):
            # side by side
            pos = ref.o_pos(O[0]) + d * dist * draw(gen.num(0.05, 0.5))
        else:
            pos = target - d * r
        look = target - pos
        heading = float(np.degrees(np.arctan2(look[0], look[1])) + draw(gen.num(-5, 5)))
        tilt = float(90 + np.degrees(np.arctan2(look[2], np.hypot(look[0], look[1]))) + draw(gen.num(-5, 5)))
        O.append(dict(kind=draw(st.sampled_from(kinds)), x=float(pos[0]), y=float(pos[1]), z=float(pos[2]), heading=heading, tilt=tilt, roll=draw(gen.num(-180, 180))))
    if square:
        for p in P:
            p["fy"] = p["fx"]
    return dict(P=P, L=L, O=O, target=[float(v) for v in target], dist=dist, bulk=draw(gen.bulk()))


def nth(case, i):
    return dict(p=case["P"][i % len(case["P"])], l=case["L"][i % len(case["L"])], o=case["O"][i])


def seen(case, n=40, spread=0.3):
    """points around the target that all cameras see: points and, per camera, their ideal pixels"""
    pts = np.array(case["target"]) + gen.expand(case["bulk"], n, -spread, spread, 3) * case["dist"]
    keep = np.ones(len(pts), bool)
    ims = []
    for i in range(len(case["O"])):
        c = nth(case, i)
        p = c["p"]
        cp = ref.camera_from_space(c["o"], pts)
        im = ref.image_from_camera(p, cp)
        with np.errstate(all="ignore"):
            keep &= np.all((im >= 0) & (im <= [p["w"], p["h"]]), axis=1) & (np.linalg.norm(cp, axis=1) > 1e-2 * case["dist"])
        keep &= view.in_domain(p, np.nan_to_num(im, nan=1e9))
        if p["type"] == "rect":
            keep &= cp[:, 2] < -1e-2 * case["dist"]
        ims.append(im)
    return pts[keep], [im[keep] for im in ims]
