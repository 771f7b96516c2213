"""C19 cameras and gps coordinates"""
import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from cameratransform import gps as ctgps
from .. import gen, ref, view
from ..core import check, close, require, arr, fail, shape_is

ASSUMPTIONS = ["points within 100 km of the camera, cameras between 85 degrees south and north",
               "gps coordinates from space are calculated at the elevation of the camera, the other direction at sea level: they agree up to elevation / radius of the earth"]
R = ref.EARTH


@st.composite
def cases(draw):
    c = draw(gen.camera(max_px=3000, min_px=50, max_pos=100, elevation=gen.num(1, 300), strength=0.3))
    return dict(c=c, lat=draw(gen.num(-85, 85)), lon=draw(gen.num(-180, 180, (0, 180, -180)) if draw(st.integers(0, 5)) else gen.num(180, 360, (180, 360))), pts=draw(gen.points(3, gen.coord(3e4), 4)),
                how=draw(st.sampled_from(["two", "three", "tuple2", "tuple3", "array2", "array3", "list2", "string", "string_h", "array2_h"])), bulk=draw(gen.bulk()), fr=draw(gen.pixel_fracs(4)),
                new=draw(st.sampled_from([0, 0.0, -3, 12, 1234.5])))


def position(cam, case, new=None):
    """pass the position in one of the documented ways; returns the elevation that has to result"""
    la, lo, z = case["lat"], case["lon"], case["c"]["o"]["z"]
    how = case["how"]
    new = z + 7.5 if new is None else new
    if how == "two":
        cam.setGPSpos(la, lo)
        return z
    if how == "three":
        cam.setGPSpos(la, lo, new)
    elif how == "tuple2":
        cam.setGPSpos((la, lo))
        return z
    elif how == "tuple3":
        cam.setGPSpos((la, lo, new))
    elif how == "array2":
        cam.setGPSpos(np.array([la, lo]))
        return z
    elif how == "array2_h":
        cam.setGPSpos(np.array([la, lo]), elevation=new)
    elif how == "list2":
        cam.setGPSpos([la, lo])
        return z
    elif how == "array3":
        cam.setGPSpos(np.array([la, lo, new]))
    else:
        text = "%.12f° %.12f°" % (la, lo)
        if how == "string":
            cam.setGPSpos(text)
            return z
        cam.setGPSpos(text, elevation=new)
    return new


@check("C19", cases(), quick=1500, shards=2, rule="every case")
def set_position(case, ctx):
    cam = gen.make_camera(case["c"])
    ctx.label(case["how"])
    z = position(cam, case, case["new"])
    close(cam.gps_lat, case["lat"], 1e-11, "latitude of the camera (%s)" % case["how"])
    close(cam.gps_lon, case["lon"], 1e-11, "longitude of the camera (%s)" % case["how"])
    close(cam.elevation_m, z, 0, "elevation of the camera (%s)" % case["how"])
    close(cam.getPos(), [case["c"]["o"]["x"], case["c"]["o"]["y"], z], 0, "position of the camera (%s)" % case["how"])
    close(cam.getRay([[1, 2]])[0], [case["c"]["o"]["x"], case["c"]["o"]["y"], z], 1e-12 * 1e3, "origin of the rays (%s)" % case["how"])


def target(case, pts, radius=R):
    """north is y, east is x"""
    start = np.repeat([[case["lat"], case["lon"]]], len(pts), axis=0)
    north, east = ref.north_east(start[:, 0], start[:, 1])
    d = np.hypot(pts[:, 0], pts[:, 1])
    with np.errstate(all="ignore"):
        direction = np.where(d[:, None] > 0, (north * pts[:, 1:2] + east * pts[:, :1]) / np.where(d > 0, d, 1)[:, None], 0)
    ang = (d / radius)[:, None]
    return ref.sphere(start[:, 0], start[:, 1]) * np.cos(ang) + direction * np.sin(ang), d


@check("C19", cases(), quick=2500, shards=4, rule="a point away from the origin")
def space_and_gps(case, ctx):
    cam = gen.make_camera(case["c"])
    z = position(cam, case)
    pts = np.vstack([arr(case["pts"]), gen.expand(case["bulk"], 10, -1000, 1000, 3)])
    ctx.nontrivial(np.any(np.hypot(*arr(case["pts"])[:, :2].T) > 1e-3))
    want, d = target(case, pts)
    original = pts.copy()
    got = cam.gpsFromSpace(pts)
    close(pts, original, 0, "the points of the caller")
    shape_is(got, pts.shape, "gps coordinates")
    # relative to the distance: the different radius at the elevation of the camera
    tol = (1e-12 + d / R * (abs(z) / R * 1.01 + 1e-10))[:, None]
    close(ref.sphere(got[:, 0], got[:, 1]), want, tol, "gps coordinates (as vectors on the unit sphere)")
    close(got[:, 2], pts[:, 2], 0, "height of the gps coordinates")
    back = cam.spaceFromGPS(got)
    t = (2e-8 + d * (abs(z) / R * 1.01 + 1e-9))[:, None]
    close(back, pts, np.maximum(t, 1e-12), "space -> gps -> space")
    again = cam.gpsFromSpace(back)
    close(ref.sphere(again[:, 0], again[:, 1]), ref.sphere(got[:, 0], got[:, 1]), 2 * tol + 4e-15, "gps -> space -> gps")
    # a single point, points without height
    i = len(pts) - 1
    close(cam.gpsFromSpace(list(pts[i])), got[i], 1e-10, "one point, space -> gps")
    close(cam.spaceFromGPS(list(got[i])), back[i], 1e-7, "one point, gps -> space")
    flat = cam.spaceFromGPS(got[:, :2].copy())
    close(flat, np.column_stack([back[:, :2], 0 * back[:, 0]]), 1e-7, "points without height, gps -> space")
    for n in (1, 2, 3):
        close(cam.spaceFromGPS(got[:n].copy()), back[:n], 1e-7, "%d points, gps -> space" % n)
        close(cam.spaceFromGPS(got[:n, :2].copy()), flat[:n], 1e-7, "%d points without height, gps -> space" % n)


@check("C19", cases(), quick=1500, shards=2, rule="a pixel in the image whose ray reaches the plane or distance")
def image_and_gps(case, ctx):
    c = case["c"]
    cam = gen.make_camera(c)
    position(cam, case)
    im = view.ideal_pixels(c["p"], case["fr"], case["bulk"], 8)
    seen = ref.distort(c["p"], c["l"], im)
    if not len(seen):
        ctx.nontrivial(False)
        return
    for kw in (dict(), dict(Z=1.5), dict(D=50), dict(Y=c["o"]["y"] + 20), dict(X=c["o"]["x"] - 20)):
        space = cam.spaceFromImage(seen.copy(), **kw)
        ok = np.all(np.abs(space) < 1e5, axis=1)
        got = cam.gpsFromImage(seen.copy(), **kw)
        shape_is(got, (len(seen), 3), "gps coordinates of pixels")
        want = cam.gpsFromSpace(space)
        close(got[ok], want[ok], 1e-9, "gps coordinates of pixels (%s)" % kw)
        require(np.all(np.isnan(got[np.isnan(space).any(axis=1)]).any(axis=1)), "gps coordinates of pixels without a position (%s): %s", kw, got)
    ctx.nontrivial(ok.any())
    # points given by gps coordinates are seen where their position in space is seen
    pts = np.vstack([arr(case["pts"]), gen.expand(case["bulk"], 10, -300, 300, 3)])
    coords = cam.gpsFromSpace(pts)
    a, b = cam.imageFromGPS(coords.copy()), cam.imageFromSpace(cam.spaceFromGPS(coords.copy()))
    tame = np.all((np.abs(b) < 1e6) | np.isnan(b), axis=1)
    close(a[tame], b[tame], 1e-6, "image of gps coordinates")
    # directly: at a distance and bearing
    bearing, d = case["bulk"] % 360, 10 + case["bulk"] % 997
    there = ct.moveDistance([case["lat"], case["lon"]], d, bearing)
    xy = [d * np.sin(np.radians(bearing)), d * np.cos(np.radians(bearing)), 3.0]
    close(cam.spaceFromGPS([there[0], there[1], 3.0]), xy, 1e-6, "space position of a point in %g m distance, bearing %g" % (d, bearing))


@st.composite
def relative(draw):
    return dict(lat=draw(gen.num(-85, 85)), lon=draw(gen.num(-180, 180, (0, 180, -180)) if draw(st.integers(0, 5)) else gen.num(180, 360, (180, 360))), h0=draw(st.one_of(st.none(), gen.num(-50, 3000))), pts=draw(gen.points(3, gen.coord(3e4), 3)), bulk=draw(gen.bulk()), n=draw(st.integers(0, 10)),
                columns=draw(st.sampled_from([2, 3])), form=draw(st.sampled_from(["list", "tuple", "array"])), single=draw(st.booleans()))


@check("C19", relative(), quick=1500, shards=2, rule="a point away from the origin, with a height or relative to a position with a height")
def without_a_camera(case, ctx):
    """the same conversions relative to any position: the height of this position or of the points does not move the points horizontally"""
    pts = np.vstack([arr(case["pts"]), gen.expand(case["bulk"], case["n"], -1000, 1000, 3)])
    if case["single"]:
        pts = pts[:1]
    ctx.nontrivial(np.any(np.hypot(*pts[:, :2].T) > 1e-3) and (case["columns"] == 3 or case["h0"] is not None))
    ctx.label("height" if case["h0"] is not None else "no height", "columns %d" % case["columns"])
    h0 = case["h0"] or 0.0
    want, d = target(case, pts, R + h0)
    tol = (1e-12 + d / R * 1e-10)[:, None]
    gps0 = [case["lat"], case["lon"]] + ([case["h0"]] if case["h0"] is not None else [])
    form = {"list": lambda a: np.asarray(a).tolist(), "tuple": lambda a: tuple(np.asarray(a).tolist()), "array": np.array}[case["form"]]
    shape = (lambda a: a[0]) if case["single"] else (lambda a: a)
    got = np.atleast_2d(ct.gpsFromSpace(form(shape(pts[:, :case["columns"]])), form(gps0)))
    require(got.shape[1] >= 2 and len(got) == len(pts), "gps coordinates of the shape %s for %d points", got.shape, len(pts))
    close(ref.sphere(got[:, 0], got[:, 1]), want, tol + 1e-12, "gps coordinates (as vectors on the unit sphere)")
    if case["columns"] == 3:
        close(got[:, 2], pts[:, 2], 0, "height of the gps coordinates")
    # back
    coords = np.column_stack([got[:, :2], pts[:, 2]])[:, :case["columns"]]
    back = np.atleast_2d(ct.spaceFromGPS(form(shape(coords)), form(gps0)))
    expected = pts if case["columns"] == 3 else pts * [1, 1, 0]
    shape_is(back, expected.shape, "positions in space")
    t = (2e-8 + d * (abs(h0) / R * 1.01 + 1e-9))[:, None]
    close(back, expected, np.hstack([t, t, 1e-12 + 0 * t]), "space -> gps -> space")
