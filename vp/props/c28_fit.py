"""C28 fitting"""
import numpy as np
from hypothesis import strategies as st
from scipy import stats
import cameratransform as ct
from .. import gen, ref, view
from ..core import check, close, require, arr, fail, shape_is, raises

ASSUMPTIONS = ["the optimum of well conditioned quadratic log probabilities, found by the default method of fit"]

NAMES = {"elevation_m": 20.0, "tilt_deg": 70.0, "roll_deg": 3.0, "heading_deg": 10.0, "pos_x_m": 5.0, "pos_y_m": -4.0, "focallength_x_px": 500.0, "focallength_y_px": 520.0, "k1": 0.01}
SCALE = {"focallength_x_px": 30.0, "focallength_y_px": 30.0, "k1": 0.005}


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(sorted(NAMES)), min_size=1, max_size=3, unique=True))
    pars = []
    for n in names:
        s = SCALE.get(n, 4.0)
        # in units of the scale, around the normal value
        opt = draw(gen.num(-2, 2))
        kind = draw(st.sampled_from(["bounds", "bounds", "bounds", "normal", "custom"]))
        lo, hi = sorted([draw(gen.num(-4, 4)), draw(gen.num(-4, 4))])
        hi = max(hi, lo + 0.25)
        start = lo + (hi - lo) * draw(gen.num(0, 1)) if kind == "bounds" else draw(gen.num(-3, 3))
        pars.append(dict(name=n, s=s, opt=opt, kind=kind, lo=lo, hi=hi, start=start, weight=draw(gen.num(0.3, 3))))
    return dict(pars=pars, group=draw(st.booleans()), coupling=draw(st.sampled_from([0, 0, 0.4, -0.4])), bulk=draw(gen.bulk()), cliff=draw(st.sampled_from(["none", "none", "start", "nan", "always"])))


def make(case):
    proj = ct.RectilinearProjection(focallength_x_px=NAMES["focallength_x_px"], focallength_y_px=NAMES["focallength_y_px"], image=(640, 480))
    def orientation():
        return ct.SpatialOrientation(**{n: NAMES[n] for n in ("elevation_m", "tilt_deg", "roll_deg", "heading_deg", "pos_x_m", "pos_y_m")})
    lens = ct.BrownLensDistortion(k1=NAMES["k1"])
    if case["group"]:
        return ct.CameraGroup(proj, [orientation(), orientation()], lens)
    return ct.Camera(proj, orientation(), lens)


def full_name(case, n):
    if case["group"] and n.split("_")[0] in ("elevation", "tilt", "roll", "heading", "pos"):
        return "C1_" + n
    return n


def clamp_solution(H, opt, lo, hi):
    """maximum of the quadratic in the box, by projected coordinate ascent (H is positive definite)"""
    x = np.clip(opt, lo, hi)
    for _ in range(400):
        for i in range(len(x)):
            g = H[i] @ (x - opt) - H[i, i] * (x[i] - opt[i])
            x[i] = np.clip(opt[i] - g / H[i, i], lo[i], hi[i])
    return x


@check("C28", cases(), quick=1200, shards=6, rule="a fit of at least one parameter whose start is not the optimum")
def quadratic(case, ctx):
    obj = make(case)
    cam = obj[1] if case["group"] else obj
    pars = case["pars"]
    names = [full_name(case, q["name"]) for q in pars]
    n = len(pars)
    opt = np.array([q["opt"] for q in pars])
    s = np.array([q["s"] for q in pars])
    mid = np.array([NAMES[q["name"]] for q in pars])
    H = np.diag([q["weight"] for q in pars])
    for i in range(n):
        for j in range(n):
            if i != j:
                H[i, j] = case["coupling"] * np.sqrt(H[i, i] * H[j, j])
    lo = np.array([q["lo"] if q["kind"] == "bounds" else -np.inf for q in pars])
    hi = np.array([q["hi"] if q["kind"] == "bounds" else np.inf for q in pars])
    start = np.array([q["start"] for q in pars])
    cliff = case["cliff"] if all(q["kind"] == "bounds" for q in pars) else "none"
    seen = []
    first = []

    def logp():
        v = np.array([getattr(obj, name) for name in names], float)
        x = (v - mid) / s
        seen.append(x)
        if cliff == "always":
            return -np.inf
        value = -0.5 * (x - opt) @ H @ (x - opt)
        if cliff in ("start", "nan") and np.allclose(x, start, atol=1e-12):
            # no probability at the start
            return -np.inf if cliff == "start" else np.nan
        return value

    obj.addCustomoLogProbability(logp)
    parameters = []
    for q, name in zip(pars, names):
        m, u = NAMES[q["name"]], q["s"]
        if q["kind"] == "bounds":
            parameters.append(ct.FitParameter(name, lower=m + q["lo"] * u, upper=m + q["hi"] * u, value=m + q["start"] * u))
        elif q["kind"] == "custom":
            parameters.append(ct.FitParameter(name, distribution=stats.norm(m, u), value=m + q["start"] * u))
        else:
            parameters.append(ct.FitParameter(name, mean=m, std=u, value=m + q["start"] * u))
    np.random.seed(case["bulk"])
    ctx.label("group" if case["group"] else "camera", cliff, "%d parameters" % n)
    if cliff == "always":
        raises(lambda: obj.fit(parameters), "fit without a position of non-zero probability", ValueError)
        return
    result = obj.fit(parameters)
    want = clamp_solution(H, opt, lo, hi)
    ctx.nontrivial(np.abs(want - start).max() > 1e-3)
    got = np.array([getattr(obj, name) for name in names], float)
    require(all(np.all((x >= lo - 1e-9) & (x <= hi + 1e-9)) for x in seen), "the probability was evaluated outside of the bounds %s %s: %s", lo, hi, [x.tolist() for x in seen if not np.all((x >= lo - 1e-9) & (x <= hi + 1e-9))][:2])
    tol = 1e-2
    if np.abs(s).min() < 0.01:
        tol = 3e-2
    x = (got - mid) / s
    close(np.asarray(result["x"]), got, 1e-12 * (1 + np.abs(got)), "the parameters after the fit and the result")
    value = lambda x: -0.5 * (x - opt) @ H @ (x - opt)
    require(np.all((x >= lo - 1e-9) & (x <= hi + 1e-9)), "result %s outside of the bounds %s %s", x, lo, hi)
    if cliff == "none":
        require(value(x) >= value(start) - 1e-9, "the fit made the log probability worse: %s at %s, %s at the start %s", value(x), x, value(start), start)
    if cliff != "none":
        # the search can run into the cliff
        require(np.isfinite(obj.getLogProbability()), "no probability at the result %s", x)
        return
    # parameters of very different sizes: the optimizer might stop early
    mixed = s.max() / s.min() > 50
    require(mixed or value(x) >= value(want) - 1e-2 * (1 + abs(value(want))), "log probability %s at the result %s, but %s at %s", value(x), x, value(want), want)
    if n == 1:
        close(x, want, tol * 4, "position of the optimum")
    # the camera follows the result
    final = {}
    for q, v in zip(pars, got):
        final[q["name"]] = float(v)
    val = dict(NAMES, **final)
    c = dict(p=dict(type="rect", w=640, h=480, fx=val["focallength_x_px"], fy=val["focallength_y_px"], cx=320.0, cy=240.0), l=dict(kind="brown", k=[val["k1"], 0, 0]),
             o=dict(kind="thr", x=val["pos_x_m"], y=val["pos_y_m"], z=val["elevation_m"], heading=val["heading_deg"], tilt=val["tilt_deg"], roll=val["roll_deg"]))
    pts = arr([[0, 0, 0], [3, 10, 1], [-2, 20, 0]]) + ref.space_from_camera(c["o"], arr([[0, 0, -5], [1, 1, -8], [-1, 0.5, -9]]))
    close(cam.imageFromSpace(pts), ref.image_from_space(c, pts), 1e-7, "image of the camera after the fit")


@st.composite
def measured(draw):
    return dict(z=draw(gen.num(5, 40)), tilt=draw(gen.num(60, 85)), dz=draw(gen.num(-0.3, 0.3)), dt=draw(gen.num(-8, 8)), f=draw(gen.num(400, 1500)), bulk=draw(gen.bulk()), h=draw(gen.num(0.5, 2)), kind=draw(st.sampled_from(["height", "horizon+height", "length", "landmark"])),
                iterations=draw(st.sampled_from([None, None, 1, 5])))


@check("C28", measured(), quick=250, shards=8, rule="a start that is not the truth")
def information(case, ctx):
    """a camera fitted to simulated observations explains them at least as well as at the start"""
    true = ct.Camera(ct.RectilinearProjection(focallength_px=case["f"], image=(640, 480)), ct.SpatialOrientation(elevation_m=case["z"], tilt_deg=case["tilt"]))
    px = gen.expand(case["bulk"], 40, 0.05, 0.95, 2) * [640, 480]
    feet = true.spaceFromImage(px, Z=0)
    feet = feet[~np.isnan(feet).any(axis=1)]
    feet = feet[np.linalg.norm(feet, axis=1) < 40 * case["z"]][:15]
    ctx.label(case["kind"])
    if len(feet) < 5:
        ctx.nontrivial(False)
        return
    cam = ct.Camera(ct.RectilinearProjection(focallength_px=case["f"], image=(640, 480)), ct.SpatialOrientation())
    lo = [case["z"] * 0.5, max(case["tilt"] - 15, 30)]
    hi = [case["z"] * 2, case["tilt"] + 15]
    start = [case["z"] * (1 + case["dz"]), np.clip(case["tilt"] + case["dt"], lo[1], hi[1])]
    if case["kind"] in ("height", "horizon+height"):
        cam.addObjectHeightInformation(true.imageFromSpace(feet), true.imageFromSpace(feet + [0, 0, case["h"]]), case["h"], 0.1 * case["h"])
    if case["kind"] == "length":
        cam.addObjectLengthInformation(true.imageFromSpace(feet), true.imageFromSpace(feet + [case["h"], 0, 0]), case["h"], 0.1 * case["h"])
    if case["kind"] == "horizon+height":
        cam.addHorizonInformation(true.getImageHorizon([0, 320, 600]), 5)
    if case["kind"] == "landmark":
        cam.addLandmarkInformation(true.imageFromSpace(feet), feet, np.array([1.0, 1, 1]))
    cam.elevation_m, cam.tilt_deg = start
    before = cam.getLogProbability()
    parameters = [ct.FitParameter("elevation_m", lower=lo[0], upper=hi[0], value=start[0]), ct.FitParameter("tilt_deg", lower=lo[1], upper=hi[1], value=start[1])]
    kw = {} if case["iterations"] is None else dict(iterations=case["iterations"])
    result = cam.fit(parameters, **kw)
    if case["iterations"]:
        require(result["nit"] <= case["iterations"], "%d iterations instead of at most %d", result["nit"], case["iterations"])
    x = np.array([cam.elevation_m, cam.tilt_deg])
    close(result["x"], x, 1e-12 * np.abs(x), "parameters after the fit")
    require(np.all(x >= np.array(lo) - 1e-9) and np.all(x <= np.array(hi) + 1e-9), "result %s outside of the bounds %s %s", x, lo, hi)
    after = cam.getLogProbability()
    # the probability of the horizon jumps with the row of the image, the optimizer reports a neighbouring position
    jumps = "horizon" in case["kind"]
    require(after >= before - (1e-6 if not jumps else 1e-2) * (1 + abs(before)) - 5 * jumps or np.isinf(before), "log probability %s after the fit, %s before", after, before)
    if not jumps:
        close(-result["fun"], after, 1e-9 * (1 + abs(after)), "log probability of the result")
