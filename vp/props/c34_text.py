"""C34 printed descriptions"""
import re
import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import gen
from ..core import check, close, require, arr, fail

ASSUMPTIONS = ["the description contains each value with at least the precision it is printed with now; the layout is not compared"]

NUMBER = r"-?\d+(?:\.\d+)?(?:e[+-]?\d+)?"


@st.composite
def cases(draw):
    c = draw(gen.camera(max_px=5000, max_pos=1e4))
    return dict(c=c, change=draw(st.booleans()), f=draw(gen.num(0.5, 2)), direct=draw(st.booleans()))


def value_of(text, label, what):
    """the number after 'label:'"""
    m = re.findall(r"(?m)(?:^|\s)%s:\s*(%s)" % (re.escape(label), NUMBER), text)
    require(len(m) == 1, "%d times %s in the description of %s: %r", len(m), label, what, text)
    return float(m[0])


@check("C34", cases(), quick=1500, shards=3, rule="every case")
def description(case, ctx):
    c = case["c"]
    cam = gen.make_camera(c)
    ctx.label(c["p"]["type"], c["o"]["kind"], c["l"]["kind"])
    if case["change"]:
        cam.elevation_m = float(cam.elevation_m) * case["f"]
        cam.focallength_x_px = float(cam.focallength_x_px) * case["f"]
        cam.roll_deg = float(cam.roll_deg) * case["f"] + 1
    for text, parts in ((str(cam), "olp"), (str(cam.orientation), "o"), (str(cam.projection), "p"), (str(cam.lens), "l")):
        if "o" in parts:
            for label, name in (("x", "pos_x_m"), ("y", "pos_y_m"), ("h", "elevation_m")):
                close(value_of(text, label, "the position"), getattr(cam, name), 1e-6 + 1e-12 * abs(getattr(cam, name)), "printed " + name)
            for name in (("tilt", "roll", "heading") if c["o"]["kind"] == "thr" else ("yaw", "pitch", "roll")):
                close(value_of(text, name, "the orientation"), getattr(cam, name + "_deg"), 1e-6 + 1e-12 * abs(getattr(cam, name + "_deg")), "printed " + name)
        if "p" in parts:
            require(type(cam.projection).__name__ in text, "the kind of the projection is missing: %r", text)
            close(value_of(text, "f", "the projection"), cam.focallength_x_px, 0.051 + 1e-12 * cam.focallength_x_px, "printed focal length")
            m = re.findall(r"image:\s*(\d+)\s*[×x]\s*(\d+)", text)
            require(len(m) == 1 and [int(v) for v in m[0]] == [c["p"]["w"], c["p"]["h"]], "printed size of the image %s: %r", m, text)
            m = re.findall(r"sensor:\s*(%s)\s*[×x]\s*(%s)" % (NUMBER, NUMBER), text)
            require(len(m) == 1, "no size of the sensor: %r", text)
            close(arr(m[0]), [cam.sensor_width_mm, cam.sensor_height_mm], 0.0051 + 1e-12 * max(cam.sensor_width_mm, cam.sensor_height_mm), "printed size of the sensor")
        if "l" in parts:
            require(type(cam.lens).__name__ in text, "the kind of the lens is missing: %r", text)
            for name in cam.lens.parameters.parameters:
                v = getattr(cam, name)
                close(value_of(text, name, "the lens"), v, 0.00051 + 1e-12 * abs(v), "printed " + name)
