"""C27 the log probability of the information added for fitting"""
import numpy as np
from hypothesis import strategies as st
from scipy import stats
import cameratransform as ct
from .. import gen, ref, view, pair
from ..core import check, close, require, arr, fail, shape_is
from .c23_stereo import make_group
from .c24_correspondences import epipolar_distance, epipolar_tol

ASSUMPTIONS = ["measurements of the camera (heights, lengths, horizon, rays) are those of a fresh camera with the same parameters, which are decided by C09, C19, C20 and C22",
               "landmarks in front of the camera"]


def normal_logpdf(x, mean, std):
    x, mean, std = np.broadcast_arrays(np.asarray(x, float), np.asarray(mean, float), np.asarray(std, float))
    return -0.5 * ((x - mean) / std) ** 2 - np.log(std) - 0.5 * np.log(2 * np.pi)


@st.composite
def infos(draw):
    kind = draw(st.sampled_from(["height", "length", "landmark", "gps", "horizon", "custom"]))
    d = dict(kind=kind, n=draw(st.integers(1, 4)), single=draw(st.integers(0, 3)) == 0, bulk=draw(gen.bulk()), only_plot=draw(st.integers(0, 4)) == 0,
             mean=draw(gen.num(0.1, 5)), std=draw(gen.num(0.05, 3)), how=draw(st.sampled_from(["number", "array", "parameter"])), Z=draw(st.one_of(st.none(), gen.num(-2, 2))),
             meanarray=draw(st.booleans()))
    return d


@st.composite
def cases(draw):
    c = draw(gen.camera(max_px=400, min_px=40, max_pos=50, elevation=gen.num(3, 100), tilt=gen.num(20, 95), strength=0.2, reach=1.4))
    c["o"]["roll"] = draw(gen.num(-10, 10))
    changes = draw(st.lists(st.tuples(st.sampled_from(["elevation_m", "roll_deg", "pos_x_m", "focallength_x_px", "gps_lat", "gps_lon"]), gen.num(0.8, 1.2), st.booleans()), max_size=2))
    return dict(c=c, infos=draw(st.lists(infos(), min_size=1, max_size=4)), changes=[list(v) for v in changes], gps=[draw(gen.num(-60, 60)), draw(gen.num(-170, 170))], value=draw(gen.num(0.05, 3)))


def variation(d, k):
    """standard deviation(s) as given, and as numbers"""
    if d["how"] == "parameter":
        return ct.FitParameter("std%d" % k, lower=0.01, upper=10, value=d["std"]), d["std"]
    if d["how"] == "array" and not d["single"]:
        v = d["std"] * (1 + np.arange(d["n"]))
        return v.copy(), v
    return d["std"], d["std"]


@check("C27", cases(), quick=2500, shards=6, rule="a finite log probability of at least one term")
def camera_terms(case, ctx):
    c = case["c"]
    p = c["p"]
    cam = gen.make_camera(c)
    cam.setGPSpos(case["gps"][0], case["gps"][1], c["o"]["z"])
    terms = []  # (function of a fresh camera -> log probabilities)
    parameters = []
    off = ref.o_pos(c["o"])
    size = np.array([p["w"], p["h"]], float)
    for k, d in enumerate(case["infos"]):
        n = 1 if d["single"] else d["n"]
        kind = d["kind"]
        px = gen.expand(d["bulk"], n, 0.05, 0.95, 2) * size
        # below the horizon: use pixels of the ground if there are any
        many = gen.expand(d["bulk"] + 9, 60, 0.02, 0.98, 2) * size
        with np.errstate(all="ignore"):
            good = many[~np.isnan(cam.spaceFromImage(many)).any(axis=1)]
        if len(good) >= n:
            px = good[:n]
        mean = d["mean"] * (1 + 0.1 * np.arange(n)) if d["meanarray"] and not d["single"] else d["mean"]
        std, std_v = variation(d, k)
        # (by default the information counts)
        plot_only = dict(only_plot=d["only_plot"]) if d["only_plot"] or k % 2 else {}
        if kind in ("height", "length"):
            px2 = np.clip(px + gen.expand(d["bulk"] + 1, n, -0.2, 0.2, 2) * size, 0, size)
            if kind == "height":
                px2[:, 0] = px[:, 0]
            a, b = (px[0], px2[0]) if d["single"] else (px, px2)
            if kind == "height":
                cam.addObjectHeightInformation(a.copy(), b.copy(), mean, std, **plot_only)
                fn = lambda f, std_v, a=a, b=b, mean=mean: normal_logpdf(f.getObjectHeight(a.copy(), b.copy()), mean, std_v)
            else:
                kw = {} if d["Z"] is None else dict(Z=d["Z"])
                cam.addObjectLengthInformation(a.copy(), b.copy(), mean, std, **plot_only, **kw)
                fn = lambda f, std_v, a=a, b=b, mean=mean, kw=kw: normal_logpdf(f.getObjectLength(a.copy(), b.copy(), **kw), mean, std_v)
            if d["how"] == "parameter" and not d["only_plot"]:
                parameters.append(std)
        elif kind in ("landmark", "gps"):
            dist = gen.expand(d["bulk"] + 2, n, 5, 200)
            im = view.ideal_pixels(p, [[0.5, 0.5]], d["bulk"] + 3, 3 * n)[:n]
            im = np.vstack([im, np.repeat(np.array([[p["cx"], p["cy"]]]), n - len(im), axis=0)]) if len(im) < n else im
            pts = off + view.directions(c, im) * dist + gen.expand(d["bulk"] + 4, n, -2, 2, 3)
            form = d["how"]
            unc = d["std"] if form == "number" else np.array([1, 1.5, 2.5]) * d["std"]
            if form == "parameter":
                unc = unc * (1 + np.arange(n))[:, None]
            pxs = ref.distort(p, c["l"], im)
            geo = cam.gpsFromSpace(pts)
            if d["single"] and n == 1:
                pxs, pts, geo = pxs[0], pts[0], geo[0]
            unc_arg = unc if form == "number" else unc.copy() if not (d["single"] and form == "parameter") else unc
            if kind == "landmark":
                cam.addLandmarkInformation(pxs.copy(), pts.copy(), unc_arg, **plot_only)
            else:
                cam.addLandmarkInformationGPS(pxs.copy(), geo.copy(), unc_arg, **plot_only)

            def fn(f, std_v, pxs=pxs, pts=pts, geo=geo, unc=unc, kind=kind):
                target = np.atleast_2d(pts if kind == "landmark" else f.spaceFromGPS(geo))
                origin, d_ = f.getRay(np.atleast_2d(pxs), normed=True)
                u = np.broadcast_to(np.asarray(unc, float), target.shape)
                reach = np.max(unc)
                t = np.sum((target - origin) * d_, axis=1)
                if (t < 0).any():
                    return np.array([np.inf])   # not compared
                total = 0.0
                for s in np.linspace(-2 * reach, 2 * reach, 1000):
                    total += np.sum(normal_logpdf(origin + d_ * (t + s)[:, None], target, u))
                return np.array([total])
        elif kind == "horizon":
            px = gen.expand(d["bulk"], n, 0, 1, 2) * size
            unc = d["std"] * (1 + np.arange(n)) if d["how"] == "array" and not d["single"] else d["std"]
            h = px[0] if d["single"] else px
            cam.addHorizonInformation(h.copy() if d["meanarray"] else h.tolist(), unc, **plot_only)
            fn = lambda f, std_v, h=h, unc=unc: normal_logpdf(h[..., 1] - f.getImageHorizon(h[..., 0])[..., 1], 0, unc)
        else:
            # also impossible or undefined
            add = {0: -np.inf, 1: np.nan}.get(d["bulk"] % 8, 0.0)
            cam.addCustomoLogProbability(lambda d=d, add=add: -d["mean"] * (cam.elevation_m - 5) ** 2 + add)
            fn = lambda f, std_v, d=d, add=add: np.array([-d["mean"] * (f.elevation_m - 5) ** 2 + add])
        ctx.label(kind)
        if kind == "custom" or not d["only_plot"]:
            terms.append((fn, d, std if d["how"] == "parameter" and kind in ("height", "length") else None, std_v))
    require([a is b for a, b in zip(cam.additional_parameters, parameters)] == [True] * len(parameters) and len(cam.additional_parameters) == len(parameters),
            "additional parameters %s, expected %s", [str(a) for a in cam.additional_parameters], [str(a) for a in parameters])

    def compare(what):
        fresh = gen.make_camera(c)
        for name in cam.parameters.parameters:
            if name != "focallength_px":
                setattr(fresh.parameters, name, getattr(cam, name))
        fresh.gps_lat, fresh.gps_lon = cam.gps_lat, cam.gps_lon
        values = [np.sum(fn(fresh, par.value if par is not None else std_v)) for fn, d, par, std_v in terms]
        if np.isposinf(values).any():
            return False
        total = np.sum(values)
        want = -np.inf if np.isnan(total) else total
        got = cam.getLogProbability()
        shape_is(got, (), "log probability")
        if np.isneginf(want):
            require(np.isneginf(got), "log probability %s %s of impossible information", got, what)
            return False
        close(got, want, 1e-7 * (1 + np.sum(np.abs(values))), "log probability %s of %s" % (what, [i["kind"] for i in case["infos"]]))
        return np.isfinite(want)

    finite = compare("initially")
    for name, f, via in case["changes"]:
        # a change of the gps position by up to about 20 m
        value = float(getattr(cam, name)) + (f - 1) * 1e-3 if name.startswith("gps") else float(getattr(cam, name)) * f
        if via:
            setattr(cam, name, value)
        else:
            cam.parameters.set_fit_parameters([name], [value])
        finite |= compare("after changing %s" % name)
    for q in parameters:
        q.set_value(case["value"])
    finite |= compare("after changing the variation")
    ctx.nontrivial(finite and terms)
    cam.clearLogProbability()
    close(cam.getLogProbability(), 0.0, 0, "log probability after removing all information")
    require(len(cam.additional_parameters) == 0, "additional parameters after removing all information")


@st.composite
def groups(draw):
    n = draw(st.sampled_from([2, 2, 3]))
    case = draw(pair.cameras(n, types=("rect",), lenses=("none",)))
    case.update(noise=draw(st.sampled_from([0, 1, 10])), base=draw(gen.num(0.1, 50)), unc=draw(gen.num(0.1, 10)), unc2=draw(gen.num(0.3, 10)), default=draw(st.booleans()), which=draw(st.lists(st.sampled_from(["base", "base", "corr", "corr", "custom", "impossible", "undefined"] + ["cam%d" % i for i in range(n)] * 2), min_size=1, max_size=4)),
                move=draw(gen.num(-1, 1)))
    return case


@check("C27", groups(), quick=1500, shards=2, rule="a term of the group")
def group_terms(case, ctx):
    pts, (im1, im2, *_) = pair.seen(case, 12)
    if case["noise"]:
        im1 = im1 + gen.expand(case["bulk"] + 1, len(im1), -1, 1, 2) * case["noise"]
        im2 = im2 + gen.expand(case["bulk"] + 2, len(im2), -1, 1, 2) * case["noise"]
    c1, c2 = pair.nth(case, 0), pair.nth(case, 1)
    _, ok1 = epipolar_tol(c1, c2, im1, im2)
    _, ok2 = epipolar_tol(c2, c1, im2, im1)
    ok = ok1 & ok2
    im1, im2 = im1[ok], im2[ok]
    group = make_group(case)
    ctx.label(*case["which"])
    for w in case["which"]:
        kw = {} if case["default"] else dict(uncertainty=case["unc"])
        if w == "base":
            group.addBaselineInformation(case["base"], **kw)
        elif w == "corr" and len(im1):
            kw = {} if case["default"] else dict(uncertainty=case["unc2"])
            group.addPointCorrespondenceInformation(im1.copy(), im2.copy(), **kw)
        elif w == "custom":
            group.addCustomoLogProbability(lambda: -abs(group[0].elevation_m))
        elif w in ("impossible", "undefined"):
            (group if case["default"] else group[1]).addCustomoLogProbability(lambda w=w: -np.inf if w == "impossible" else np.nan)
        elif w.startswith("cam"):
            i = int(w[3])
            group[i].addCustomoLogProbability(lambda i=i: -3 * abs(group[i].pos_x_m))
    ctx.label("%d cameras" % len(case["O"]))
    ctx.nontrivial(any(w in ("base", "corr") for w in case["which"]))
    for step in range(2):
        a, b = group[0], group[1]
        base = np.linalg.norm(a.getPos() - b.getPos())
        want, tol = 0.0, 1e-9
        for w in case["which"]:
            if w == "base":
                want += normal_logpdf(base, case["base"], 6 if case["default"] else case["unc"])
                tol += 1e-9 * abs(want)
            elif w == "corr" and len(im1):
                std = 1 if case["default"] else case["unc2"]
                for x, y, u, v in ((c1, c2, im1, im2), (c2, c1, im2, im1)):
                    t, ok = epipolar_tol(x, y, u, v)
                    if not ok.all():
                        return
                    e = epipolar_distance(x, y, u, v)
                    want += np.sum(normal_logpdf(e, 0, std))
                    tol += np.sum((e + t) * t / std ** 2) * 2 + 1e-9 * np.sum(np.abs(normal_logpdf(e, 0, std)))
            elif w == "custom":
                want += -abs(a.elevation_m)
            elif w.startswith("cam"):
                want += -3 * abs(group[int(w[3])].pos_x_m)
        if "impossible" in case["which"] or "undefined" in case["which"]:
            require(np.isneginf(group.getLogProbability()), "log probability %s of the group with %s", group.getLogProbability(), case["which"])
            return
        close(group.getLogProbability(), want, tol + 1e-9 * abs(want), "log probability of the group with %s" % case["which"])
        # move the second camera
        b.pos_x_m = float(b.pos_x_m + case["move"])
        c2 = dict(c2, o=dict(c2["o"], x=float(b.pos_x_m)))
