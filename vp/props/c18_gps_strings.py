"""C18 coordinates as text"""
import re

import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import gen
from ..core import check, close, require, arr, fail, raises, shape_is

ASSUMPTIONS = ["the documented formats: degrees, degrees and minutes, degrees, minutes and seconds; with letter or sign; only the last number is not an integer"]


def degrees(lim):
    """coordinates, also such that are close to full minutes and seconds, where rounding has to carry"""
    exact = st.tuples(st.integers(0, lim - 1), st.integers(0, 59), st.integers(0, 59), st.sampled_from([0, 1e-9, -1e-9, 4e-4, -4e-4, 6e-4, -6e-4, 0.01, -0.01, 0.4, -0.4, 0.5, 1e-6]), st.booleans()).map(
        lambda t: max(-lim, min(lim, (t[0] + t[1] / 60 + (t[2] + t[3]) / 3600) * (1 if t[4] else -1))))
    return st.one_of(gen.num(-lim, lim, (0, 0.5, -0.5, lim, -lim, -1e-7)), exact, gen.logu(1e-6, 1, signed=True),
                     st.integers(-lim, lim).map(float))


@st.composite
def fmt(draw):
    """(format string, number of numbers, decimals of the last (None: integer), letter)"""
    count = draw(st.integers(1, 3))
    letter = draw(st.booleans())
    decimals = draw(st.sampled_from([None, 1, 2, 3, 5, 6] if count > 1 else [3, 5, 6, 8]))
    pad = draw(st.sampled_from(["", "2", "3"])) 
    last = "%d" if decimals is None else "%%%s.%df" % (pad, decimals)
    nums = ["%" + draw(st.sampled_from(["", "2", "3", "02"])) + "d" for _ in range(count - 1)] + [last]
    sep = draw(st.sampled_from(["", " "]))
    minute = draw(st.sampled_from(["'", "′", "´", "’"]))
    if count == 2 and decimals is not None and letter:
        minute = draw(st.sampled_from([minute, ""]))
    second = draw(st.sampled_from(["''", '"', "´´", "″"]))
    text = nums[0] + "°"
    if count > 1:
        text += sep + nums[1] + minute
    if count > 2:
        text += sep + nums[2] + second
    if letter:
        text += sep + "%s" if not (count == 2 and minute == "") else " %s"
    return dict(f=text, n=count, dec=decimals, letter=letter)


@st.composite
def cases(draw):
    return dict(lat=draw(degrees(90)), lon=draw(degrees(180)), fmt=draw(fmt()), default=draw(st.sampled_from([False, False, True])), h=draw(st.one_of(gen.num(-100, 5000), st.integers(-100, 5000))), latex=draw(st.booleans()),
                np=draw(st.booleans()))


def resolution(f):
    unit = {1: 1, 2: 60, 3: 3600}[f["n"]]
    return 1 / unit if f["dec"] is None else 0.5 * 10 ** -f["dec"] / unit


@check("C18", cases(), quick=5000, shards=4, rule="a coordinate that is not a whole number of degrees")
def round_trip(case, ctx):
    f = dict(f=None, n=3, dec=3, letter=True) if case["default"] else case["fmt"]
    la, lo = case["lat"], case["lon"]
    ctx.label("%d numbers" % f["n"], "letter" if f["letter"] else "sign")
    ctx.nontrivial(la != round(la) or lo != round(lo))
    if case["np"]:
        la, lo = np.float64(la), np.float64(lo)
    s_lat, s_lon = ct.formatGPS(la, lo, format=f["f"], asLatex=case["latex"]) if f["f"] else ct.formatGPS(la, lo)
    tol = resolution(f) * (1 + 1e-9) + 1e-12
    for s, letters, want in ((s_lat, "NS", la), (s_lon, "EW", lo)):
        numbers = [float(x) for x in re.findall(r"[\d.]+", s)]
        require(len(numbers) == f["n"], "formatted coordinate %r has %d numbers instead of %d", s, len(numbers), f["n"])
        require(all(v < 60 for v in numbers[1:]), "minutes or seconds of 60 in %r", s)
        value = sum(v / 60 ** i for i, v in enumerate(numbers))
        close(value, abs(want), tol, "the numbers of %r" % s)
        if f["letter"]:
            require((letters[0] in s) != (letters[1] in s), "no unique letter in %r", s)
            require("-" not in s, "sign and letter in %r", s)
            if want != 0:
                require(letters[int(want < 0)] in s, "wrong letter for %r in %r", want, s)
        else:
            require(not re.search("[NSEW]", s), "a letter that was not asked for in %r", s)
            if value > 0:
                require(("-" in s) == (want < 0), "wrong sign for %r in %r", want, s)
    # reading the text gives the numbers back
    close(ct.gpsFromString(s_lat), la, tol, "reading the latitude %r" % s_lat)
    close(ct.gpsFromString(s_lon), lo, tol, "reading the longitude %r" % s_lon)
    for joined in (s_lat + " " + s_lon, s_lat + ", " + s_lon, [s_lat, s_lon], (s_lat, s_lon)):
        close(ct.gpsFromString(joined), [la, lo], tol, "reading the pair %r" % (joined,))
        close(ct.gpsFromString(joined, case["h"]), [la, lo, case["h"]], tol, "reading the pair %r with a height" % (joined,))


SYM_MIN = ["'", "′", "´", "’"]
SYM_SEC = ["''", '"', "´´", "″"]


@st.composite
def one_coordinate(draw, letters, lim):
    """text of one coordinate and its value"""
    neg = draw(st.booleans())
    how = draw(st.sampled_from(["letter", "sign"]))
    n = draw(st.integers(1, 3))
    deg = draw(st.integers(0, lim - 1))
    pad = draw(st.sampled_from(["%d", "%02d", "%03d"]))
    sp = draw(st.sampled_from(["", " ", "  "]))
    if n == 1:
        frac = draw(st.integers(0, 10 ** 8 - 1))
        text, value = pad % deg + ".%08d°" % frac, deg + frac / 1e8
    elif n == 2:
        m, frac = draw(st.integers(0, 59)), draw(st.integers(0, 99999))
        sym = draw(st.sampled_from(SYM_MIN))
        text, value = pad % deg + "°" + sp + "%d.%05d" % (m, frac) + sym, deg + (m + frac / 1e5) / 60
    else:
        m, s, frac = draw(st.integers(0, 59)), draw(st.integers(0, 59)), draw(st.integers(0, 99999))
        text = pad % deg + "°" + sp + draw(st.sampled_from(["%d", "%02d"])) % m + draw(st.sampled_from(SYM_MIN)) + sp + "%d.%05d" % (s, frac) + draw(st.sampled_from(SYM_SEC))
        value = deg + m / 60 + (s + frac / 1e5) / 3600
    if how == "letter":
        text += sp + letters[int(neg)]
    elif neg:
        text = "-" + text
    elif draw(st.sampled_from([False, False, True])):
        text = "+" + text
    return dict(text=text, value=-value if neg else value, n=n)


@st.composite
def texts(draw):
    pts = []
    for _ in range(draw(st.integers(1, 4))):
        a = draw(one_coordinate("NS", 90))
        b = draw(one_coordinate("EW", 180))
        while b["n"] != a["n"]:
            b = draw(one_coordinate("EW", 180))
        pts.append([a, b])
    return dict(pts=pts, sep=draw(st.sampled_from([" ", ", ", "  ", ","])), h=draw(st.one_of(gen.num(-100, 5000), st.integers(-100, 5000))), lead=draw(st.sampled_from(["", " "])))


@check("C18", texts(), quick=3000, shards=2, rule="coordinates with minutes")
def reading(case, ctx):
    """text in the documented formats, with all symbols for minutes and seconds; alone, as pair, as list of pairs, with heights"""
    strings, values = [], []
    for a, b in case["pts"]:
        strings.append(case["lead"] + a["text"] + case["sep"] + b["text"])
        values.append([a["value"], b["value"]])
        close(ct.gpsFromString(a["text"]), a["value"], 1e-9, "reading %r" % a["text"])
        close(ct.gpsFromString(b["text"]), b["value"], 1e-9, "reading %r" % b["text"])
        close(ct.gpsFromString([a["text"], b["text"]]), values[-1], 1e-9, "reading the tuple %r" % [a["text"], b["text"]])
        close(ct.gpsFromString([a["text"], b["text"]], case["h"]), values[-1] + [case["h"]], 1e-9, "reading the tuple %r with a height" % [a["text"], b["text"]])
    ctx.nontrivial(any(a["n"] > 1 for a, b in case["pts"]))
    for s, v in zip(strings, values):
        close(ct.gpsFromString(s), v, 1e-9, "reading %r" % s)
        close(ct.gpsFromString(s, case["h"]), v + [case["h"]], 1e-9, "reading %r with a height" % s)
        close(ct.gpsFromString([s, case["h"]]), v + [case["h"]], 1e-9, "reading [%r, height]" % s)
    if len(strings) > 1:
        close(ct.gpsFromString(strings), values, 1e-9, "reading a list of coordinates")
        with_h = [[s, case["h"] + i] for i, s in enumerate(strings)]
        close(ct.gpsFromString(with_h), [v + [case["h"] + i] for i, v in enumerate(values)], 1e-9, "reading a list of coordinates with heights")
        heights = [case["h"] + i for i in range(len(strings))]
        close(ct.gpsFromString(strings, heights), [v + [h] for v, h in zip(values, heights)], 1e-9, "reading a list of coordinates and a list of heights")
        close(ct.gpsFromString(strings, case["h"]), [v + [case["h"]] for v in values], 1e-9, "reading a list of coordinates with a height for all")


@check("C18", cases(), quick=300, shards=1, rule="every case")
def invalid_formats(case, ctx):
    raises(lambda: ct.formatGPS(case["lat"], case["lon"], format="no number"), "a format without a place holder")
    raises(lambda: ct.formatGPS(case["lat"], case["lon"], format="%d %d %d %d"), "a format with four numbers")
