"""C29 sampling of the posterior with the Metropolis algorithm"""
import numpy as np
from hypothesis import strategies as st
from scipy import stats
import cameratransform as ct
from cameratransform.statistic import metropolis
from .. import gen, ref, view
from ..core import check, close, require, arr, fail, shape_is, raises
from .c28_fit import NAMES, make, full_name

ASSUMPTIONS = ["the statistical checks compare with the exact distribution, with thresholds of about six standard errors"]


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(sorted(n for n in NAMES if n != "k1")), min_size=1, max_size=2, unique=True))
    pars = []
    for n in names:
        lo = draw(gen.num(-3, 1))
        hi = lo + draw(gen.num(0.2, 4))
        kind = draw(st.sampled_from(["bounds", "bounds", "bounds", "normal", "custom"]))
        pars.append(dict(name=n, lo=lo, hi=hi, start=lo + (hi - lo) * draw(gen.num(0, 1)), kind=kind, opt=draw(gen.num(-2, 2)), width=draw(gen.num(0.1, 2)), step=draw(gen.num(0.05, 3))))
    extra = draw(st.lists(st.one_of(st.tuples(gen.num(0.1, 1), gen.num(1.2, 3), gen.num(0.1, 1)),
                                    st.tuples(st.sampled_from([0, 0.0, -1]), gen.num(0.5, 3), gen.num(0, 1)),
                                    st.tuples(gen.num(-3, -0.2), st.sampled_from([0, 0.0, 2]), gen.num(0, 1))), max_size=2))
    return dict(pars=pars, extra=[list(e) for e in extra], group=draw(st.booleans()), step=draw(st.sampled_from([1, 1, 0.5, 2.0])), iterations=draw(st.sampled_from([30, 60, 120, 250])), burn=draw(st.sampled_from([0, 0, 0.1, 0.5, 20])),
                cliff=draw(st.sampled_from(["none", "none", "left", "nan", "always"])), bulk=draw(gen.bulk()), cleared=draw(st.booleans()))


@check("C29", cases(), quick=240, shards=8, rule="a chain that moves")
def chain(case, ctx):
    obj = make(case)
    cam = obj[1] if case["group"] else obj
    pars = case["pars"]
    names = [full_name(case, q["name"]) for q in pars]
    cliff = case["cliff"]
    extra = [ct.FitParameter("extra%d" % i, lower=e[0], upper=e[1], value=e[0] + (e[1] - e[0]) * e[2], step=0.3) for i, e in enumerate(case["extra"])]
    mid = np.array([NAMES[q["name"]] for q in pars])
    n = len(pars)
    lo = np.array([q["lo"] if q["kind"] == "bounds" else -np.inf for q in pars] + [e[0] for e in case["extra"]])
    hi = np.array([q["hi"] if q["kind"] == "bounds" else np.inf for q in pars] + [e[1] for e in case["extra"]])
    evaluated = []

    def value(x):
        """log probability, x: parameters relative to their normal value, and the additional parameters"""
        if cliff == "always":
            return -np.inf
        q = pars[0]
        border = q["lo"] + 0.3 * (q["hi"] - q["lo"])
        if cliff in ("left", "nan") and x[0] < border:
            return -np.inf if cliff == "left" else np.nan
        v = sum(-0.5 * ((x[i] - pars[i]["opt"]) / pars[i]["width"]) ** 2 for i in range(n))
        return v - sum((x[n + i] - 1) ** 2 for i in range(len(extra)))

    def current():
        return np.array([float(getattr(obj, name)) for name in names] + [float(e.value) for e in extra]) - np.concatenate([mid, np.zeros(len(extra))])

    def logp():
        x = current()
        evaluated.append(x)
        return value(x)

    if case["cleared"]:
        # information that has been removed has no influence
        obj.addCustomoLogProbability(lambda: -np.inf, additional_parameters=[ct.FitParameter("old", lower=0, upper=1, value=0.5)])
        obj.clearLogProbability()
    obj.addCustomoLogProbability(logp, additional_parameters=extra)
    parameters = []
    for q, name, m in zip(pars, names, mid):
        kw = dict(lower=m + q["lo"], upper=m + q["hi"]) if q["kind"] == "bounds" else dict(distribution=stats.norm(m + q["lo"], q["hi"] - q["lo"])) if q["kind"] == "custom" else dict(mean=m + q["lo"], std=q["hi"] - q["lo"])
        parameters.append(ct.FitParameter(name, value=m + q["start"], step=q["step"], **kw))
    np.random.seed(case["bulk"])
    ctx.label("group" if case["group"] else "camera", cliff, "%d extra" % len(extra))
    run = lambda: obj.metropolis(parameters, step=case["step"], iterations=case["iterations"], burn=case["burn"], disable_bar=True, print_trace=False)
    if cliff == "always":
        raises(run, "metropolis without a position of non-zero probability", ValueError)
        return
    trace = run()
    require(list(trace.columns) == names + ["extra%d" % i for i in range(len(extra))] + ["probability"], "columns %s", list(trace.columns))
    burn = int(case["iterations"] * case["burn"]) if case["burn"] < 1 else case["burn"]
    require(abs(len(trace) - (case["iterations"] - burn)) <= 1, "%d samples for %d iterations and %d for the start", len(trace), case["iterations"], burn)
    v = np.asarray(trace, float)
    x = v[:, :-1] - np.concatenate([mid, np.zeros(len(extra))])
    ctx.nontrivial(len(np.unique(x, axis=0)) > 2)
    inside = lambda a: np.all((a >= lo - 1e-9) & (a <= hi + 1e-9))
    require(inside(x), "samples outside of the limits: %s", x[~((x >= lo - 1e-9) & (x <= hi + 1e-9)).all(axis=1)][:3])
    require(all(inside(a) for a in evaluated), "the probability was evaluated outside of the limits: %s", [a.tolist() for a in evaluated if not inside(a)][:3])
    want = np.array([value(a) for a in x])
    require(np.isfinite(v[:, -1]).all(), "samples of zero probability: %s", v[~np.isfinite(v[:, -1])][:3])
    # the position is rounded when the normal value is added
    slope = max(10 / q["width"] ** 2 for q in pars)
    near = np.array([cliff in ("left", "nan") and abs(a[0] - pars[0]["lo"] - 0.3 * (pars[0]["hi"] - pars[0]["lo"])) < 1e-9 for a in x])
    close(v[~near, -1], want[~near], 1e-9 * (1 + slope + np.abs(v[~near, -1])), "probabilities of the samples")
    best = int(np.argmax(v[:, -1]))
    close([getattr(obj, name) for name in names], v[best, :n], 1e-12 * (1 + np.abs(v[best, :n])), "parameters after sampling, the most probable sample")
    final = dict(NAMES, **{q["name"]: float(a) for q, a in zip(pars, v[best, :n])})
    o = dict(kind="thr", x=final["pos_x_m"], y=final["pos_y_m"], z=final["elevation_m"], heading=final["heading_deg"], tilt=final["tilt_deg"], roll=final["roll_deg"])
    close(cam.orientation.cameraFromSpace([[1.0, 2, 3]]), ref.camera_from_space(o, arr([[1.0, 2, 3]])), 1e-9, "orientation after sampling")
    if burn == 0:
        # no adaption of the step size
        steps = np.array([q["step"] for q in pars] + [0.3] * len(extra)) * case["step"]
        require((np.abs(np.diff(x, axis=0)) <= 9 * steps).all(), "steps of %s for step sizes of %s", np.abs(np.diff(x, axis=0)).max(axis=0), steps)


@st.composite
def targets(draw):
    return dict(mu=draw(gen.num(-5, 5)), sigma=draw(gen.num(0.1, 10)), step=draw(gen.num(1.5, 3)), bulk=draw(gen.bulk()))


@check("C29", targets(), quick=24, thorough=200, shards=8, rule="every case")
def distribution(case, ctx):
    """the samples follow the distribution"""
    np.random.seed(case["bulk"])
    mu, s = case["mu"], case["sigma"]
    kind = ["normal", "half", "uniform"][case["bulk"] % 3]
    ctx.label(kind)
    N = 5000
    if kind == "uniform":
        trace = metropolis(lambda p: 0.0, np.array([mu + 0.5 * s]), step=np.array([0.3 * s]), iterations=N, burn=10, disable_bar=True, ranges=[[mu, mu + s]])
        u = (arr(trace)[:, 0] - mu) / s
        outer = np.mean((u < 0.1) | (u > 0.9))
        require(abs(outer - 0.2) < 0.047, "a fraction of %.3f of the samples of a uniform distribution in the outer 20 %%", outer)
        require(abs(u.mean() - 0.5) < 0.06, "mean %s of samples of a uniform distribution in 0 to 1", u.mean())
        return
    ranges = [[mu, None]] if kind == "half" else None
    trace = metropolis(lambda p: -0.5 * ((p[0] - mu) / s) ** 2, np.array([mu + s]), step=np.array([case["step"] * s]), iterations=N, burn=500, disable_bar=True, ranges=ranges)
    u = (arr(trace)[:, 0] - mu) / s
    mean, std = (np.sqrt(2 / np.pi), np.sqrt(1 - 2 / np.pi)) if kind == "half" else (0.0, 1.0)
    require(abs(u.mean() - mean) < 0.235 * std, "mean %.3f instead of %.3f of samples of a %s distribution", u.mean(), mean, kind)
    require(0.83 * std < u.std() < 1.19 * std, "standard deviation %.3f instead of %.3f of samples of a %s distribution", u.std(), std, kind)


@st.composite
def bad_steps(draw):
    n = draw(st.integers(1, 2))
    return dict(mu=[draw(gen.num(-5, 5)) for _ in range(n)], sigma=[draw(gen.num(0.1, 10)) for _ in range(n)], exponent=draw(st.sampled_from([-3, 3, -4, 4, -2, 2, -1, 0])), bulk=draw(gen.bulk()))


@check("C29", bad_steps(), quick=12, thorough=80, shards=3, rule="a step size that is wrong by a factor of more than 10")
def adaption(case, ctx):
    """the step size is adapted during the burn-in: with a far too small or large step the samples still explore the distribution"""
    np.random.seed(case["bulk"])
    mu, s = arr(case["mu"]), arr(case["sigma"])
    ctx.nontrivial(abs(case["exponent"]) > 1)
    trace = metropolis(lambda p: -0.5 * np.sum(((arr(p) - mu) / s) ** 2), mu + s * 0.5, step=s * 10.0 ** case["exponent"], iterations=4000, burn=3000, disable_bar=True)
    u = (arr(trace)[:, :-1] - mu) / s
    moved = np.mean(np.any(np.diff(u, axis=0) != 0, axis=1))
    require(0.08 < moved < 0.75, "a fraction of %.3f of the steps is accepted after the burn-in", moved)
    require(np.all((u.std(axis=0) > 0.45) & (u.std(axis=0) < 1.8)), "standard deviation %s of samples of a normal distribution (1)", u.std(axis=0))
