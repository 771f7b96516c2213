"""C14 saving and loading"""
import json
import os
import tempfile

import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import gen, ref, view
from ..core import check, close, require, arr, fail, raises
from . import c13_histories as h13

ASSUMPTIONS = ["finite parameters"]

NUMPY = ("plain", "float64", "float32", "int64", "item0d", "int")


@st.composite
def cases(draw):
    c = draw(gen.camera(max_px=5000, min_px=20, strength=0.3))
    return dict(c=c, lat=draw(gen.num(-90, 90)), lon=draw(gen.num(-180, 180)), sensor=draw(gen.vec(2, gen.num(1, 50))),
                gps=draw(st.booleans()), how=draw(st.sampled_from(NUMPY)), bulk=draw(gen.bulk()), over=draw(gen.camera(max_px=5000, min_px=20, strength=0.3)),
                changes=draw(st.lists(st.tuples(st.sampled_from(["elevation_m", "pos_x_m", "pos_y_m", "roll_deg"]), gen.num(-90, 90)).map(list), max_size=3)))


def scratch():
    return tempfile.mkdtemp(dir=os.environ.get("TMPDIR"))


def names_of(cam):
    return [n for n in cam.parameters.parameters]


def convert(v, how):
    """the same number as another type"""
    if how == "float64":
        return np.float64(v)
    if how == "float32":
        return np.float32(v)
    if how == "int64":
        return np.int64(round(v))
    if how == "item0d":
        return np.array([v, 0.0])[0]
    if how == "int":
        return int(round(v))
    return v


def is_float32(obj):
    """calculations with a float32 parameter are done in single precision, after loading in double precision"""
    return any(isinstance(getattr(obj, n), np.float32) for n in obj.parameters.parameters)


def same(a, b, bulk, what, path):
    require(type(a.projection) is type(b.projection), "%s: projection %s became %s", what, type(a.projection).__name__, type(b.projection).__name__)
    require(type(a.orientation) is type(b.orientation), "%s: orientation %s became %s", what, type(a.orientation).__name__, type(b.orientation).__name__)
    require(type(a.lens) is type(b.lens), "%s: lens %s became %s", what, type(a.lens).__name__, type(b.lens).__name__)
    require(set(names_of(a)) == set(names_of(b)), "%s: the parameters %s became %s", what, sorted(names_of(a)), sorted(names_of(b)))
    for n in names_of(a):
        if n == "focallength_px":
            if float(a.focallength_px) == float(a.focallength_x_px) == float(a.focallength_y_px):
                close(b.focallength_px, a.focallength_px, 0, "%s: focal length in both directions" % what)
            continue
        close(getattr(b, n), getattr(a, n), 0, "%s: parameter %s" % (what, n))
        if n.startswith("image_") and isinstance(getattr(a, n), (int, np.integer)):
            require(isinstance(getattr(b, n), (int, np.integer)), "%s: the number of pixels %s became %r", what, n, getattr(b, n))
    if is_float32(a) or is_float32(b):
        return
    w, h = a.image_width_px, a.image_height_px
    im = gen.expand(bulk, 8, 0, 1, 2) * [w, h]
    oa, ra = a.getRay(im)
    ob, rb = b.getRay(im)
    close(ob, oa, 0, "%s: origin of the rays" % what)
    close(rb, ra, 1e-12 * (1 + np.abs(np.nan_to_num(ra))), "%s: rays" % what)
    pts = oa + ra * 7
    close(b.imageFromSpace(pts), a.imageFromSpace(pts), 1e-9 * (w + h), "%s: image" % what)
    close(b.gpsFromSpace(pts), a.gpsFromSpace(pts), 1e-9, "%s: gps" % what)
    path_a, path_b = path + "/cmp_a.json", path + "/cmp_b.json"
    a.save(path_a)
    b.save(path_b)
    with open(path_a) as fa, open(path_b) as fb:
        require(json.load(fa) == json.load(fb), "%s: saving again gives a different file", what)


@check("C14", cases(), quick=1500, shards=4, rule="a camera with a lens, a panorama, or a yaw-pitch-roll orientation; or parameters that are numpy numbers")
def camera(case, ctx):
    import shutil
    d = scratch()
    try:
        c = case["c"]
        cam = gen.make_camera(c)
        cam.sensor_width_mm, cam.sensor_height_mm = case["sensor"]
        if case["gps"]:
            cam.setGPSpos(case["lat"], case["lon"])
        for name, value in case["changes"]:
            setattr(cam, name, convert(value, case["how"]))
        if case["how"] == "int64":  # as numpy calculates them
            cam.image_width_px, cam.image_height_px = np.int64(cam.image_width_px), np.int32(cam.image_height_px)
        elif case["how"] not in ("plain", "int"):
            cam.focallength_x_px = convert(cam.focallength_x_px, case["how"])
        ctx.label(c["p"]["type"], c["o"]["kind"], c["l"]["kind"], case["how"])
        ctx.nontrivial(c["p"]["type"] != "rect" or c["l"]["kind"] != "none" or c["o"]["kind"] == "ypr" or case["how"] != "plain")
        path = os.path.join(d, "cam.json")
        cam.save(path)
        same(cam, ct.load_camera(path), case["bulk"], "load_camera", d)
        # into an existing camera, with other parts
        other = gen.make_camera(case["over"])
        other.setGPSpos(1, 2)
        other.load(path)
        same(cam, other, case["bulk"], "load into another camera", d)
        # the camera itself is not changed by saving, and the loaded one is not connected to it
        before = {n: getattr(cam, n) for n in names_of(cam)}
        other.elevation_m = other.elevation_m + 1
        other.focallength_x_px = other.focallength_x_px * 2
        for n in before:
            close(getattr(cam, n), before[n], 0, "parameter %s of the saved camera" % n)
        same(cam, ct.load_camera(path), case["bulk"], "load_camera, again", d)
        # the loaded camera follows its parameters
        loaded = ct.load_camera(path)
        loaded.elevation_m = 12.5
        loaded.focallength_x_px = loaded.focallength_x_px * 1.5
        cam.elevation_m = 12.5
        cam.focallength_x_px = float(cam.focallength_x_px) * 1.5
        same(cam, loaded, case["bulk"], "the same changes to the saved and to the loaded camera", d)
        # overwrite the file with a camera with fewer characters or more
        third = gen.make_camera(case["over"])
        third.save(path)
        same(third, ct.load_camera(path), case["bulk"], "a file that was overwritten", d)
    finally:
        shutil.rmtree(d)


@check("C14", h13.cases(1), quick=800, shards=2, rule="a history of at least two operations")
def after_histories(case, ctx):
    """whatever happened to the parameters before: the loaded camera is the camera"""
    import shutil
    d = scratch()
    try:
        cam = ct.Camera(*[h13.CLASSES[case[k][0]["kind"]](**case[k][0]["v"]) for k in "POL"])
        ctx.nontrivial(len(case["ops"]) >= 2)
        for (i, op, via, *args) in case["ops"]:
            if op == "set":
                setattr(cam, args[0], args[1])
            elif op == "none":
                setattr(cam, args[0], None)
            elif op == "default":
                setattr(cam.defaults, args[0], args[1])
            elif op == "stats":
                setattr(cam, args[0], (args[1], args[2]))
            elif op == "sample":
                cam.sample()
            elif op == "mean":
                cam.set_to_mean()
            elif op == "fit":
                cam.parameters.set_fit_parameters(args[0])
            ctx.label(op)
        path = os.path.join(d, "cam.json")
        cam.save(path)
        same(cam, ct.load_camera(path), case["bulk"], "load_camera", d)
    finally:
        shutil.rmtree(d)


@st.composite
def part_cases(draw):
    key = draw(st.sampled_from(["rect", "cyl", "equi", "thr", "ypr", "brown", "abc", "none"]))
    return dict(a=draw(h13.part((key,))), b=draw(h13.part((key,))), how=draw(st.sampled_from(NUMPY)), bulk=draw(gen.bulk()))


@check("C14", part_cases(), quick=1000, shards=2, rule="a part with parameters")
def parts(case, ctx):
    """the files of projections, orientations and lenses"""
    import shutil
    d = scratch()
    try:
        kind = case["a"]["kind"]
        a = h13.CLASSES[kind](**case["a"]["v"])
        b = h13.CLASSES[kind](**case["b"]["v"])
        names = [n for n in a.parameters.parameters if n != "focallength_px"]
        ctx.label(kind, case["how"])
        ctx.nontrivial(len(names))
        if names and case["how"] not in ("int", "int64"):
            setattr(a, names[0], convert(getattr(a, names[0]), case["how"]))
        path = os.path.join(d, "part.json")
        a.save(path)
        b.load(path)
        for n in names:
            close(getattr(b, n), getattr(a, n), 0, "%s: parameter %s" % (kind, n))
        if case["how"] == "float32":
            return
        pts = gen.expand(case["bulk"], 8, -1, 1, 3)
        if kind in gen.PROJ:
            close(b.imageFromCamera(pts), a.imageFromCamera(pts), 1e-9, "%s: image" % kind)
            close(b.getRay(pts[:, :2] * 100 + 400), a.getRay(pts[:, :2] * 100 + 400), 1e-12, "%s: rays" % kind)
        elif kind in ("thr", "ypr"):
            close(b.cameraFromSpace(pts), a.cameraFromSpace(pts), 1e-9, "%s: camera points" % kind)
            close(b.spaceFromCamera(pts), a.spaceFromCamera(pts), 1e-9, "%s: space points" % kind)
        else:
            close(b.distortedFromImage(pts[:, :2]), a.distortedFromImage(pts[:, :2]), 1e-12, "%s: distortion" % kind)
            close(b.imageFromDistorted(pts[:, :2]), a.imageFromDistorted(pts[:, :2]), 1e-12, "%s: inverse distortion" % kind)
    finally:
        shutil.rmtree(d)


@check("C14", cases(), quick=300, shards=2, rule="every case")
def failed_save(case, ctx):
    """saving something that can not be saved raises an error, and an existing file stays as it was"""
    import shutil
    d = scratch()
    try:
        cam = gen.make_camera(case["c"])
        path = os.path.join(d, "cam.json")
        cam.save(path)
        with open(path) as fp:
            content = fp.read()
        bad = gen.make_camera(case["over"])
        names = sorted(n for n in bad.parameters.parameters if n not in ("focallength_px",))
        name = names[case["bulk"] % len(names)]
        bad.parameters.parameters[name].value = object()
        for obj in (bad, bad.projection, bad.orientation, bad.lens):
            if name not in obj.parameters.parameters:
                continue
            raises(lambda: obj.save(path), "saving %s with a parameter %s that is not a number" % (type(obj).__name__, name))
            with open(path) as fp:
                require(fp.read() == content, "a failed save of %s changed the file", type(obj).__name__)
        same(cam, ct.load_camera(path), case["bulk"], "after a failed save", d)
    finally:
        shutil.rmtree(d)


@check("C14", cases(), quick=300, shards=2, rule="every case")
def old_files(case, ctx):
    """files without the type of the projection and the lens (of older versions) are rectilinear cameras without distortion"""
    import shutil
    d = scratch()
    try:
        c = dict(case["c"], l=dict(kind="none"), p=dict(case["c"]["p"], type="rect"), o=dict(case["c"]["o"], kind="thr"))
        cam = gen.make_camera(c)
        path = os.path.join(d, "cam.json")
        cam.save(path)
        with open(path) as fp:
            data = json.load(fp)
        data.pop("projection", None)
        data.pop("lens", None)
        with open(path, "w") as fp:
            json.dump(data, fp)
        same(cam, ct.load_camera(path), case["bulk"], "a file without types", d)
    finally:
        shutil.rmtree(d)
