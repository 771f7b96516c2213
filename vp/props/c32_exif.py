"""C32 camera parameters from the information stored with an image"""
import contextlib
import io
import os
import re
import shutil
import tempfile
import numpy as np
from fractions import Fraction
from hypothesis import strategies as st
import cameratransform as ct
from cameratransform import camera as ctcamera
from .. import gen
from ..core import check, close, require, fail, raises

ASSUMPTIONS = ["the download of the sensor database is replaced by a stand-in that returns a generated database or fails"]

MAKES = ["Canon", "Nikon", "Sony", "Olympus"]
WORDS = ["EOS", "50D", "500D", "E-PM2", "D5", "D50", "A7", "X", "50", "Mark II"]


@st.composite
def cases(draw):
    model = st.builds(lambda m, w: m + " " + " ".join(w), st.sampled_from(MAKES), st.lists(st.sampled_from(WORDS), min_size=1, max_size=3))
    rows = draw(st.lists(st.tuples(model, st.integers(10, 400), st.integers(10, 400), st.sampled_from(["", "", "", "Super ", "Digital;"])), max_size=6))
    mine = draw(st.one_of(model, st.sampled_from([r[0] for r in rows])) if rows else model)
    return dict(rows=[[m, a / 10, b / 10, x] for m, a, b, x in rows], model=mine, f=draw(st.tuples(st.integers(1, 6000), st.sampled_from([1, 10, 3, 7]))), size=[draw(st.integers(1, 6000)), draw(st.integers(1, 6000))],
                res=[draw(st.tuples(st.integers(100, 500000), st.integers(1, 20))) for _ in range(2)], use=draw(st.sampled_from([True, False, None])), where=draw(st.sampled_from(["file", "download", "fail"])), verbose=draw(st.booleans()), unit=draw(st.sampled_from([None, 2, 3])), other=draw(st.dictionaries(st.sampled_from(sorted(OTHER)), st.integers(1, 8), max_size=3)))


OTHER = {"orientation": (0x0112, "image"), "width": (0x0100, "image"), "height": (0x0101, "image"), "resolution unit": (0x0128, "image"), "focal length of 35 mm film": (0xA405, "camera"), "iso": (0x8827, "camera")}


def write_image(path, case):
    from PIL import Image
    from PIL.TiffImagePlugin import IFDRational
    im = Image.new("RGB", (4, 4))
    exif = Image.Exif()
    exif[0x0110] = case["model"]
    # tags that have no influence on the result
    for name, value in case["other"].items():
        if OTHER[name][1] == "image":
            exif[OTHER[name][0]] = value
    sub = exif.get_ifd(0x8769)
    for name, value in case["other"].items():
        if OTHER[name][1] == "camera":
            sub[OTHER[name][0]] = value
    sub[0x920A] = IFDRational(*case["f"])
    sub[0xA002], sub[0xA003] = case["size"]
    sub[0xA20E], sub[0xA20F] = [IFDRational(*r) for r in case["res"]]
    if case["unit"] is not None:
        sub[0xA210] = case["unit"]
    im.save(path, exif=exif)


@check("C32", cases(), quick=800, shards=4, rule="an image that is read successfully")
def exif(case, ctx):
    import requests
    folder = tempfile.mkdtemp(dir=os.environ.get("VP_SCRATCH"))
    here = os.getcwd()
    real = requests.get
    calls = []
    # cameras of other makers, whose name contains that of the camera
    text = "".join("%s%s;1/2 inch;%s;%s;more\n" % (x, m.replace(" ", ";", 1), a, b) for m, a, b, x in case["rows"])

    class Answer:
        pass

    def get(url, *args, **kwargs):
        calls.append(url)
        if case["where"] == "fail":
            raise requests.exceptions.ConnectionError("no network")
        answer = Answer()
        answer.text, answer.status_code, answer.ok, answer.content = text, 200, True, text.encode()
        answer.raise_for_status = lambda: None
        return answer

    try:
        os.chdir(folder)
        requests.get = get
        path = os.path.join(folder, "image.jpg")
        write_image(path, case)
        database = os.path.join(folder, "sensor_database_detailed.csv")
        if case["where"] == "file":
            with open(database, "w") as fp:
                fp.write(text)
        f = case["f"][0] / case["f"][1]
        w, h = case["size"]
        mm = 10 if case["unit"] == 3 else 25.4   # pixels per centimeter, or (default) per inch
        own = (w / (case["res"][0][0] / case["res"][0][1]) * mm, h / (case["res"][1][0] / case["res"][1][1]) * mm)
        listed = [(a, b) for m, a, b, x in case["rows"] if m == case["model"] and not x]
        kw = {} if case["use"] is None else dict(sensor_from_database=case["use"])
        use = case["use"] is not False
        ctx.label(case["where"], "listed" if listed else "not listed", "database %s" % case["use"])
        printed = io.StringIO()

        def call():
            with contextlib.redirect_stdout(printed):
                return ct.getCameraParametersFromExif(path, verbose=case["verbose"], **kw)
        if use and case["where"] == "fail":
            ctx.nontrivial(False)
            try:
                result = call()
            except Exception:
                result = None
            require(not os.path.exists(database), "a failed download left a database behind")
            if result is None:
                return
            listed = []
        else:
            result = call()
        want = listed[0] if use and listed else own
        require(len(result) == 3, "result %s", result)
        close(float(result[0]), f, 1e-6 * f, "focal length")
        close(result[1], want, 1e-5 * max(want), "sensor size of %s" % case["model"])
        require(tuple(result[2]) == (w, h), "image size %s, expected %s", result[2], (w, h))
        if case["verbose"]:
            lines = printed.getvalue().split("\n")
            require(any(case["model"] in line for line in lines), "the camera %r is not printed: %s", case["model"], lines)
            for what, values, tol in (("focal length", [f], 0.06), ("sensor size", want, 0.06), ("image size", [w, h], 0)):
                numbers = [re.findall(r"[-+]?[0-9.]+(?:e[-+]?[0-9]+)?", line.split(":", 1)[1]) for line in lines if what in line.split(":")[0]]
                require(len(numbers) == 1 and len(numbers[0]) == len(values), "printed %s: %s", what, lines)
                close([float(v) for v in numbers[0]], values, tol + 1e-5 * max(values), "printed %s" % what)
        else:
            require("focal length" not in printed.getvalue(), "the values are printed although this was not asked for")
        require(use or not calls, "the database was downloaded although it is not used")
        if case["where"] == "file":
            require(not calls, "the database was downloaded although it exists")
        # the second time the database is there
        n = len(calls)
        again = ct.getCameraParametersFromExif(path, **kw)
        close(again[1], want, 1e-5 * max(want), "sensor size the second time")
        if case["where"] == "download":
            require(len(calls) == n, "the database was downloaded again")
        # the documented use
        cam = ct.RectilinearProjection(focallength_mm=result[0], sensor=result[1], image=result[2])
        close([cam.focallength_x_px, cam.focallength_y_px], [f / want[0] * w, f / want[1] * h], 1e-4 * (1 + f / min(want) * max(w, h)), "focal length in pixels")
    finally:
        requests.get = real
        os.chdir(here)
        shutil.rmtree(folder, ignore_errors=True)
