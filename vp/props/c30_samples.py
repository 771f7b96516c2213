"""C30 uncertain parameters: samples, traces, defaults, distributions"""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
import cameratransform as ct
from cameratransform import parameter_set as ps
from cameratransform.statistic import Model
from .. import gen, ref, view
from ..core import check, close, require, arr, fail, shape_is, raises
from .c13_histories import SPECS, CLASSES, ModelPart, part, as_camera, compare

ASSUMPTIONS = []


@st.composite
def traces(draw):
    P, O, L = draw(part(("rect", "cyl", "equi"))), draw(part(("thr", "ypr"))), draw(part(("brown", "abc")))
    specs = {}
    for d in (P, O, L):
        specs.update({n: v[0] for n, v in SPECS[d["kind"]].items() if not n.startswith("image") and n != "focallength_px"})
    names = draw(st.lists(st.sampled_from(sorted(specs)), min_size=1, max_size=4, unique=True))
    rows = draw(st.integers(1, 5))
    data = [[draw(gen.num(*specs[n])) for n in names] for _ in range(rows)]
    probs = draw(st.lists(gen.num(-1000, 10), min_size=rows, max_size=rows, unique=True))
    return dict(P=P, O=O, L=L, names=names, data=data, probs=probs, extra=draw(st.booleans()), bulk=draw(gen.bulk()), group=draw(st.booleans()), index=draw(st.sampled_from(["default", "default", "thinned", "sorted", "two chains"])), ops=draw(st.lists(st.sampled_from(["sample", "sample", "mean"]), min_size=1, max_size=5)))


@check("C30", traces(), quick=1500, shards=4, rule="a trace with at least two rows")
def trace(case, ctx):
    """a camera with a trace takes the values of its rows"""
    parts = [CLASSES[case[k]["kind"]](**case[k]["v"]) for k in "POL"]
    model = [ModelPart(case[k]) for k in "POL"]
    names = list(case["names"])
    columns = {n: [row[i] for row in case["data"]] for i, n in enumerate(names)}
    if case["group"]:
        group = ct.CameraGroup(parts[0], [CLASSES[case["O"]["kind"]](**case["O"]["v"]), parts[1]], parts[2])
        obj, cam = group, group[1]
        columns = {("C1_" + n if n in model[1].spec else n): v for n, v in columns.items()}
    else:
        obj = cam = ct.Camera(*parts)
    if case["extra"]:
        # a column of a parameter which is not one of the camera
        columns["variation"] = [1.0] * len(case["data"])
    columns["probability"] = case["probs"]
    df = pd.DataFrame(columns)
    n = len(df)
    # a trace can be a part of a longer one, sorted, or consist of several
    df.index = dict(default=range(n), thinned=range(100, 100 + 10 * n, 10), sorted=range(n)[::-1])[case["index"]] if case["index"] != "two chains" else [i % 2 for i in range(n)]
    obj.set_trace(df)
    ctx.label(case["index"], "group" if case["group"] else "camera", "%d rows" % len(case["data"]))
    ctx.nontrivial(len(case["data"]) > 1)
    np.random.seed(case["bulk"])
    best = int(np.argmax(case["probs"]))
    for op in case["ops"]:
        if op == "sample":
            p = obj.sample()
            require(p in case["probs"], "the sample has the probability %s, which is not in the trace", p)
            row = case["probs"].index(p)
        else:
            obj.set_to_mean()
            row = best
        for n, v in zip(names, case["data"][row]):
            for m in model:
                if n in m.spec:
                    m.set(n, v)
            close(getattr(cam, n), v, 0, "%s after %s, row %d of the trace" % (n, op, row))
        compare(cam, as_camera(*model), case["bulk"], "after %s of the trace" % op)


@check("C30", st.builds(dict, rows=st.integers(1, 6), thin=st.sampled_from([1, 1, 2, 7]), bulk=gen.bulk()), quick=60, shards=2, rule="a trace with at least two rows")
def all_rows(case, ctx):
    """every row of the trace is sampled, about equally often"""
    cam = ct.Camera(ct.RectilinearProjection(focallength_px=100, image=(10, 10)), ct.SpatialOrientation())
    n = case["rows"]
    trace = pd.DataFrame(dict(elevation_m=np.arange(n * case["thin"]) / case["thin"] + 1.0, probability=-np.arange(n * case["thin"], dtype=float)))
    cam.set_trace(trace[::case["thin"]])
    np.random.seed(case["bulk"])
    count = np.zeros(n)
    N = 200 * n
    for _ in range(N):
        cam.sample()
        count[int(cam.elevation_m) - 1] += 1
    ctx.nontrivial(n > 1)
    # expected 200 each, standard deviation below 14.2
    require((np.abs(count - 200) < 100).all(), "%d samples of a trace with %d rows: %s", N, n, count)


@st.composite
def stat_cases(draw):
    name = draw(st.sampled_from(["elevation_m", "tilt_deg", "heading_deg", "pos_x_m", "focallength_x_px", "k1"]))
    mean = gen.num(1, 80) if name in ("focallength_x_px", "elevation_m") else st.one_of(st.just(0.0), gen.num(-80, 80), gen.num(1, 80))
    other = draw(st.sampled_from([None, "roll_deg", "pos_y_m", "k2", "center_x_px"]))
    return dict(name=name, other=other, mean=draw(mean), std=draw(gen.logu(1e-3, 10)), bulk=draw(gen.bulk()), via=draw(st.sampled_from(["camera", "init", "parameters"])), plain=draw(st.sampled_from(["other", "mean", "current"])))


@check("C30", stat_cases(), quick=150, shards=3, rule="every case")
def normal_samples(case, ctx):
    """a parameter (mean, std) is sampled from the normal distribution"""
    name, mean, std = case["name"], case["mean"], case["std"]
    cam = ct.Camera(ct.RectilinearProjection(focallength_px=100, image=(10, 10)), ct.SpatialOrientation(elevation_m=7, tilt_deg=20), ct.BrownLensDistortion())
    if name == "k1":
        mean, std = mean * 1e-5, std * 1e-5
    setattr(cam if case["via"] == "camera" else cam.parameters, name, (mean, std))
    close(getattr(cam, name), mean, 0, "%s with an uncertainty, before sampling" % name)
    others = {n: getattr(cam, n) for n in cam.parameters.parameters if n not in (name, "focallength_px", case["other"])}
    other = case["other"]
    if other:
        setattr(cam, other, (0.25, 1e-3))
        close(getattr(cam, other), 0.25, 0, "%s with an uncertainty, before sampling" % other)
    np.random.seed(case["bulk"])
    values, second = [], []
    for i in range(400):
        cam.sample()
        values.append(float(getattr(cam, name)))
        if other:
            second.append(float(getattr(cam, other)))
        if i % 100 == 0:
            # what is derived from the parameters
            fresh = ct.Camera(ct.RectilinearProjection(focallength_px=100, image=(10, 10)), ct.SpatialOrientation(elevation_m=7, tilt_deg=20), ct.BrownLensDistortion())
            for n in cam.parameters.parameters:
                if n != "focallength_px":
                    setattr(fresh, n, getattr(cam, n))
            im = gen.expand(case["bulk"] + i, 6, 0, 10, 2)
            for a, b, what in zip(cam.getRay(im), fresh.getRay(im), ("origins", "directions")):
                close(a, b, 1e-9 * (1 + np.abs(b)), what + " of the rays of the sampled camera and of one with its parameters")
    values = arr(values)
    ctx.label(name)
    require(abs(values.mean() - mean) < 6.5 * std / 20, "mean %s of 400 samples of %s (%s, %s)", values.mean(), name, mean, std)
    require(0.75 * std < values.std() < 1.27 * std, "standard deviation %s of 400 samples of %s (%s, %s)", values.std(), name, mean, std)
    require(len(np.unique(values)) > 390, "equal samples")
    for n, v in others.items():
        close(getattr(cam, n), v, 0, "%s, which has no uncertainty" % n)
    if other:
        require(abs(np.mean(second) - 0.25) < 6.5e-3 / 20 and 0.75e-3 < np.std(second) < 1.27e-3, "samples of %s: %s +- %s", other, np.mean(second), np.std(second))
        r = np.corrcoef(values, second)[0, 1]
        require(abs(r) < 0.33, "the samples of %s and %s are correlated (%s)", name, other, r)
    cam.set_to_mean()
    if other:
        close(getattr(cam, other), 0.25, 0, "%s after returning to the mean" % other)
        setattr(cam, other, 0.25)
    close(getattr(cam, name), mean, 0, "%s after returning to the mean" % name)
    # a plain value removes the uncertainty, also if it is the mean or the current value
    if case["plain"] == "current":
        cam.sample()
    plain = {"other": mean + std, "mean": mean, "current": getattr(cam, name)}[case["plain"]]
    setattr({"camera": cam, "parameters": cam.parameters}.get(case["via"], cam), name, plain)
    for _ in range(2):
        cam.sample()
        close(getattr(cam, name), plain, 0, "%s with a plain value (%s), after sampling" % (name, case["plain"]))
    cam.set_to_mean()
    close(getattr(cam, name), plain, 0, "%s with a plain value (%s), after returning to the mean" % (name, case["plain"]))


@st.composite
def fit_names(draw):
    P, O, L = draw(part(("rect", "cyl", "equi"))), draw(part(("thr", "ypr"))), draw(part(("brown", "abc")))
    ops = []
    specs = {}
    for d in (P, O, L):
        specs.update(SPECS[d["kind"]])
    for _ in range(draw(st.integers(0, 4))):
        name = draw(st.sampled_from(sorted(n for n in specs if not n.startswith("image") and n != "focallength_px")))
        ops.append([draw(st.sampled_from(["set", "fit", "default"] + (["none"] if specs[name][1] is not None else []))), name, draw(gen.num(*specs[name][0]))])
    return dict(P=P, O=O, L=L, ops=ops, type=draw(st.sampled_from([None, "intrinsic", "extrinsic1", "extrinsic2", "extrinsic", "distortion"])))


TYPES = {"focallength_x_px": "intrinsic", "focallength_y_px": "intrinsic", "center_x_px": "intrinsic", "center_y_px": "intrinsic", "elevation_m": "extrinsic1", "tilt_deg": "extrinsic1", "roll_deg": "extrinsic1",
         "heading_deg": "extrinsic2", "pos_x_m": "extrinsic2", "pos_y_m": "extrinsic2", "k1": "distortion", "k2": "distortion", "k3": "distortion", "a": "distortion", "b": "distortion", "c": "distortion"}
FLAGS = dict(intrinsic=ps.TYPE_INTRINSIC, extrinsic1=ps.TYPE_EXTRINSIC1, extrinsic2=ps.TYPE_EXTRINSIC2, extrinsic=ps.TYPE_EXTRINSIC, distortion=ps.TYPE_DISTORTION)


@check("C30", fit_names(), quick=1500, shards=2, rule="at least one change of a parameter")
def free_parameters(case, ctx):
    """the free parameters are those that the user did not set; defaults and ranges belong to their names"""
    parts = [CLASSES[case[k]["kind"]](**case[k]["v"]) for k in "POL"]
    cam = ct.Camera(*parts)
    model = [ModelPart(case[k]) for k in "POL"]
    free = {n: m.value[n] is None for m in model for n in m.spec if n != "focallength_px"}
    default = {n: m.default[n] for m in model for n in m.spec}
    for op, name, value in case["ops"]:
        ctx.label(op)
        if op == "set":
            setattr(cam, name, value)
            free[name] = False
        elif op == "none":
            setattr(cam, name, None)
            free[name] = True
        elif op == "fit":
            cam.parameters.set_fit_parameters([name], [value])
            free[name] = True
        else:
            setattr(cam.defaults, name, value)
            default[name] = value
            close(getattr(cam.defaults, name), value, 0, "default of %s" % name)
    ctx.nontrivial(case["ops"])
    t = case["type"]
    got = set(cam.parameters.get_fit_parameters() if t is None else cam.parameters.get_fit_parameters(FLAGS[t])) - {"focallength_px", "sensor_width_mm", "sensor_height_mm", "gps_lat", "gps_lon"}
    if case["O"]["kind"] == "thr" or t is None:
        want = {n for n in free if free[n] and (t is None or TYPES.get(n, "").startswith(t))}
        require(got == want, "free parameters of the type %s: %s, expected %s", t, sorted(got), sorted(want))
    names = sorted(n for n in free)
    known = [n for n in names if default[n] is not None]
    close(arr(cam.parameters.get_parameter_defaults(known)), arr([default[n] for n in known]), 0, "defaults of %s" % known)
    for n in known:
        close(getattr(cam.defaults, n), default[n], 0, "default of %s" % n)


@st.composite
def fit_parameters(draw):
    return dict(kind=draw(st.sampled_from(["uniform", "normal", "custom", "none", "half"])), a=draw(gen.num(-100, 100)), b=draw(gen.logu(1e-3, 100)), x=draw(gen.num(-1, 2)), bulk=draw(gen.bulk()))


@check("C30", fit_parameters(), quick=800, shards=2, rule="every case")
def distributions(case, ctx):
    """the distribution of a parameter of a fit"""
    from scipy import stats
    a, b = case["a"], case["b"]
    ctx.label(case["kind"])
    if case["kind"] == "none":
        raises(lambda: ct.FitParameter("p", value=1), "a parameter without a distribution", ValueError)
        return
    if case["kind"] == "half":
        raises(lambda: ct.FitParameter("p", lower=a, value=1), "a parameter with a lower limit only", ValueError)
        raises(lambda: ct.FitParameter("p", mean=a, value=1), "a parameter with a mean only", ValueError)
        return
    np.random.seed(case["bulk"])
    if case["kind"] == "uniform":
        q = ct.FitParameter("p", lower=a, upper=a + b, value=a)
        r = arr([q.random() for _ in range(60)])
        require((r >= a).all() and (r <= a + b).all(), "random values outside of the limits")
        require(r.min() < a + 0.3 * b and r.max() > a + 0.7 * b, "random values %s to %s for the limits %s to %s", r.min(), r.max(), a, a + b)
        logp = lambda x: -np.log(b) if a <= x <= a + b else -np.inf
    elif case["kind"] == "normal":
        q = ct.FitParameter("p", mean=a, std=b, value=a)
        r = arr([q.random() for _ in range(60)])
        require(abs(r.mean() - a) < 6.5 * b / np.sqrt(60) and 0.4 * b < r.std() < 1.8 * b, "random values %s +- %s of a normal distribution %s +- %s", r.mean(), r.std(), a, b)
        logp = lambda x: -0.5 * ((x - a) / b) ** 2 - np.log(b) - 0.5 * np.log(2 * np.pi)
    else:
        q = ct.FitParameter("p", distribution=stats.expon(loc=a, scale=b), value=a)
        require(all(q.random() >= a for _ in range(20)), "random values of the given distribution")
        logp = lambda x: -(x - a) / b - np.log(b) if x >= a else -np.inf
    x = a + b * case["x"]
    if min(abs(case["x"]), abs(case["x"] - 1)) > 1e-6:
        q.set_value(x)
        close(q.value, x, 0, "value")
        close(q.logp(), logp(x), 1e-6 * (1 + abs(np.nan_to_num(logp(x), neginf=0))), "log probability of %s" % x)
    require(str(q) == "p", "name %s", q)
    model = Model([q], lambda: -3.5)
    model.draw_from_prior()
    if case["kind"] == "uniform":
        require(a <= q.value <= a + b, "value drawn from the prior: %s", q.value)
    require(q.value != x or b < 1e-9, "no value was drawn")
    require(model.logp == -3.5, "probability of the model: %s", model.logp)
