"""C33 summaries and plots of sampled parameters"""
import contextlib
import io
import re
import numpy as np
import pandas as pd
from hypothesis import strategies as st
import cameratransform as ct
from cameratransform import statistic
from .. import gen
from ..core import check, close, require, arr, fail

ASSUMPTIONS = ["the drawn data is read from the axes of matplotlib, colors distinguish the most probable value (red) and the mean (black) as documented in the code",
               "traces of at least two samples with finite values below 1e8"]

NAMES = ["elevation_m", "tilt_deg", "heading_deg", "roll_deg", "pos_x_m", "variation"]


@st.composite
def traces(draw):
    n = draw(st.integers(2, 40))
    cols = []
    for _ in range(draw(st.integers(1, 4))):
        cols.append([draw(st.sampled_from(["normal", "normal", "constant", "two"])), draw(gen.logu(1e-3, 1e5, signed=True)), draw(gen.logu(1e-6, 1e4))])
    return dict(n=n, cols=cols, bulk=draw(gen.bulk()), ties=draw(st.booleans()), skip=draw(st.sampled_from([1, 1, 2, 3])), just=draw(st.booleans()), mean=draw(st.booleans()),
                N=draw(st.sampled_from([None, None, 1, 2])), camera=draw(st.booleans()), given=draw(st.integers(0, 3)) == 0, again=draw(st.integers(0, 3)) == 0, log=draw(st.sampled_from([None, None, 0, 1, 2, 3, 5, 10, 15])), index=draw(st.sampled_from(["default", "default", "thinned", "sorted", "two chains"])))


def make(case):
    n = case["n"]
    r = gen.expand(case["bulk"], n, -1, 1, len(case["cols"]) + 1)
    data = {}
    for i, (kind, mean, spread) in enumerate(case["cols"]):
        if kind == "constant":
            v = np.full(n, mean)
        elif kind == "two":
            v = mean + spread * np.sign(r[:, i])
        else:
            v = mean + spread * r[:, i]
        data[NAMES[i]] = v
    prob = r[:, -1] * 30 - 100
    if case["ties"]:
        prob = np.round(prob / 20) * 20
    data["probability"] = prob
    trace = pd.DataFrame(data)
    # a trace can be a part of a longer one, sorted, or consist of several
    trace.index = {"default": range(n), "thinned": range(100, 100 + 10 * n, 10), "sorted": range(n)[::-1], "two chains": [i % ((n + 1) // 2) for i in range(n)]}[case["index"]]
    return trace


def make_camera():
    return ct.Camera(ct.RectilinearProjection(focallength_px=500, image=(640, 480)), ct.SpatialOrientation(elevation_m=10, tilt_deg=45))


@check("C33", traces(), quick=1500, shards=3, rule="a parameter that varies")
def summary(case, ctx):
    """one line per parameter: mean and standard deviation, rounded to the precision of the standard deviation"""
    trace = make(case)
    keep = trace.copy()
    ctx.label(case["index"])
    ctx.nontrivial(any(c[0] != "constant" for c in case["cols"]))
    ctx.label(*{c[0] for c in case["cols"]})
    out = io.StringIO()
    logs = [False] * (len(trace.columns) - 1)
    with contextlib.redirect_stdout(out):
        if case["camera"]:
            cam = make_camera()
            cam.set_trace(trace)
            cam.printTraceSummary()
        elif case["log"] is None:
            statistic.printTraceSummary(trace)
        else:
            # parameters that are sampled as logarithms
            logs = [bool(case["log"] >> i & 1) and float(np.abs(trace[name]).max()) < 50 for i, name in enumerate(trace.columns[:-1])]
            ctx.label("logarithmic" if any(logs) else "none is logarithmic")
            statistic.printTraceSummary(trace, logarithmic=logs)
    text = out.getvalue()
    lines = [l for l in text.split("\n") if l.strip()]
    for name in trace.columns[:-1]:
        found = [l for l in lines if l.split()[0] == name]
        require(len(found) == 1, "%d lines for %s: %s", len(found), name, text)
        m = re.search(r"(-?[\d.]+(?:e[+-]?\d+)?)\s*(?:±|\+-|\+/-)\s*([\d.]+(?:e[+-]?\d+)?)", found[0])
        require(m is not None, "no mean and standard deviation: %s", found[0])
        mean, std = float(m.group(1)), float(m.group(2))
        d = np.asarray(trace[name])
        if logs[list(trace.columns).index(name)]:
            d = np.exp(d)
        want, s = np.mean(d), np.std(d)
        unit = 10 ** np.floor(np.log10(s)) if s > 0 else 0
        close(std, s, 0.0501 * unit + 1e-12 * abs(want), "standard deviation of %s in %r" % (name, found[0]))
        close(mean, want, 0.501 * unit + 1e-9 * abs(want), "mean of %s in %r" % (name, found[0]))
    require(str(case["n"]) in lines[0], "the number of samples is not printed: %s", lines[0])
    require(trace.equals(keep), "the trace is changed")


@check("C33", traces(), quick=300, shards=8, rule="a parameter that varies")
def plot(case, ctx):
    import matplotlib
    import matplotlib.pyplot as plt
    trace = make(case)
    keep = trace.copy()
    ctx.label(case["index"])
    ctx.nontrivial(any(c[0] != "constant" for c in case["cols"]))
    names = list(trace.columns[:-1])[:case["N"]]
    kw = dict(just_distributions=case["just"], show_mean_median=case["mean"], skip=case["skip"])
    if case["N"] is not None:
        kw["N"] = case["N"]
    fig = plt.figure()
    try:
        if case["given"]:
            # into axes of the caller: two for each parameter
            kw["axes"] = [fig.add_subplot(len(names), 2, i + 1) for i in range(2 * len(names))]
        for _ in range(2 if case["again"] else 1):
            # a second plot into the same figure is drawn over the first one
            if case["camera"]:
                cam = make_camera()
                cam.set_trace(trace)
                cam.plotTrace(**kw)
            else:
                statistic.plotTrace(trace, **kw)
        if case["given"] and case["just"]:
            require(not any(ax.get_lines() for ax in kw["axes"][1::2]), "something is drawn in the axes of the samples")
            for ax in kw["axes"][1::2]:
                ax.remove()
        best = int(np.argmax(trace["probability"]))
        axes = fig.axes
        require(len(axes) == len(names) * (1 if case["just"] else 2), "%d axes for %s", len(axes), names)
        for name in names:
            d = np.asarray(trace[name])
            dist = [ax for ax in axes if ax.get_xlabel() == name]
            require(len(dist) == 1, "%d distributions of %s", len(dist), name)
            require(not case["given"] or dist[0] is kw["axes"][2 * names.index(name)], "the distribution of %s is drawn into the wrong axes", name)
            parts = [(dist[0], 0)]
            if not case["just"]:
                chain = [ax for ax in axes if ax.get_title() == name]
                require(len(chain) == 1, "%d traces of %s", len(chain), name)
                parts.append((chain[0], 1))
            for ax, which in parts:
                curves = [l for l in ax.get_lines() if len(l.get_xdata()) > 2 or (which and len(l.get_xdata()) == len(d[::case["skip"]]) and l.get_color() not in ("r", "k"))]
                marks = {matplotlib.colors.to_hex(l.get_color()): l.get_xydata()[0, which] for l in ax.get_lines() if l not in curves}
                if case["mean"]:
                    close(marks.get("#ff0000", np.nan), d[best], 1e-12 * abs(d[best]), "marked most probable value of %s" % name)
                    close(marks.get("#000000", np.nan), np.mean(d), 1e-9 * np.abs(d).max(), "marked mean of %s" % name)
                else:
                    require(not marks, "marks are drawn: %s", marks)
                if which:
                    require(len(curves) == (2 if case["again"] else 1), "%d curves of the samples of %s", len(curves), name)
                    close(curves[0].get_ydata(), d[::case["skip"]], 0, "drawn samples of %s" % name)
                elif len(curves):
                    x, y = curves[0].get_xdata(), curves[0].get_ydata()
                    close([x[0], x[-1]], [d.min(), d.max()], 1e-12 * np.abs(d).max(), "range of the distribution of %s" % name)
                    require(np.all(y >= 0), "a negative frequency of %s", name)
                elif np.std(d) > 1e-3 * np.abs(d).max() and len(d[::case["skip"]]) > 3 and np.std(d[::case["skip"]]) > 1e-3 * np.abs(d).max():
                    fail("the distribution of %s is not drawn" % name)
    finally:
        plt.close("all")
    require(trace.equals(keep), "the trace is changed")
