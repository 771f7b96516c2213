"""C04 image -> ray inverts the projection"""
import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import gen, ref
from ..core import check, close, layouts, require, arr, fail

ASSUMPTIONS = ["pixels up to one image size outside of the image, within the domain of the projection (panoramas: within the full circle, "
               "equirectangular: less than 90 degrees up or down)"]


@st.composite
def cases(draw):
    p = draw(gen.projection())
    return dict(p=p, fr=draw(gen.pixel_fracs(5, margin=0.5)), depth=draw(gen.logu(1e-3, 1e5)), bulk=draw(gen.bulk()))


def in_domain(p, im):
    ok = np.ones(len(im), bool)
    if p["type"] != "rect":
        ok &= np.abs((im[:, 0] - p["cx"]) / p["fx"]) < np.pi * 0.9999
    if p["type"] == "equi":
        ok &= np.abs((im[:, 1] - p["cy"]) / p["fy"]) < np.pi / 2 * 0.999
    return ok


def go(case):
    p = case["p"]
    im = np.vstack([gen.pixels(case["fr"], p), gen.expand(case["bulk"], 40, -0.5, 1.5, 2) * [p["w"], p["h"]]])
    return p, gen.make_projection(p), im[in_domain(p, im)]


@check("C04", cases(), quick=2000, shards=4, rule="a pixel that differs from the center in x and y")
def formulas(case, ctx):
    p, proj, im = go(case)
    ctx.label(p["type"])
    ctx.nontrivial(np.any((im[:, 0] != p["cx"]) & (im[:, 1] != p["cy"])))
    want = ref.ray(p, im)
    n = np.linalg.norm(want, axis=1)[:, None]
    got = proj.getRay(im.copy())
    close(ref.unit(got), want / n, 1e-11 * (1 + n), "direction of the ray (%s)" % p["type"])
    # for the rectilinear projection the ray has depth 1, for the panoramas horizontal distance 1 (documented formula)
    close(got, want, 1e-11 * n ** 2 + 1e-11, "ray (%s)" % p["type"])
    normed = proj.getRay(im.copy(), normed=True)
    close(normed, want / n, 1e-11 * (1 + n), "normed ray (%s)" % p["type"])
    layouts(proj.getRay, im, want, 1e-11 * n ** 2 + 1e-11, "ray (%s)" % p["type"])
    layouts(lambda x: proj.getRay(x, normed=True), im, want / n, 1e-11 * (1 + n), "normed ray (%s)" % p["type"])
    if len(im):
        close(proj.getRay(list(im[0])), want[0], 1e-11 * n[0] ** 2 + 1e-11, "ray of one pixel")
        close(proj.getRay(list(im[0]), normed=True), (want / n)[0], 1e-11 * (1 + n[0]), "normed ray of one pixel")


@check("C04", cases(), quick=1500, shards=2, rule="a pixel that differs from the center in x and y")
def round_trip(case, ctx):
    """every point on the ray of a pixel is mapped to the pixel, whatever its distance"""
    p, proj, im = go(case)
    ctx.label(p["type"])
    ctx.nontrivial(np.any((im[:, 0] != p["cx"]) & (im[:, 1] != p["cy"])))
    for normed in (False, True):
        r = proj.getRay(im.copy(), normed=normed)
        if normed:
            close(np.linalg.norm(r, axis=-1), np.ones(len(im)), 1e-12, "length of normed rays")
        q = r * case["depth"]
        keep = np.abs(q[:, 2]) > 1e-8
        t = 1e-12 * ref.image_slope(p, q) * np.linalg.norm(q, axis=1) + 1e-10 * (np.abs(im).max(axis=1, initial=1) + p["w"] + p["h"])
        back = proj.imageFromCamera(q.copy())
        close(back[keep], im[keep], t[keep][:, None], "pixel -> ray -> pixel (%s, normed=%s)" % (p["type"], normed))


@check("C04", cases(), quick=1000, shards=2, rule="a camera point in the field of view")
def inverse(case, ctx):
    """the ray of the image of a point leads through the point"""
    p, proj, im = go(case)
    ctx.label(p["type"])
    pts = ref.ray(p, im) * case["depth"]
    pts = pts[np.abs(pts[:, 2]) > 1e-8]
    got = proj.getRay(proj.imageFromCamera(pts.copy()), normed=True)
    n = np.linalg.norm(pts, axis=1)[:, None]
    hor = np.hypot(pts[:, 0], pts[:, 2])[:, None]
    z = np.abs(pts[:, 2:]) if p["type"] == "rect" else hor
    close(got, pts / n, 1e-10 * (1 + n / z), "ray of the image of a point (%s)" % p["type"])
