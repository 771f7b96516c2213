"""C38 copies: a copied camera (or group of cameras) is equal to the original one and independent of it"""
import copy

import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import gen
from ..core import check, close, require
from . import c13_histories as c13

ASSUMPTIONS = ["copies are made with copy.deepcopy, of cameras without information for a fit", *c13.ASSUMPTIONS]


@st.composite
def cases(draw):
    case = draw(c13.cases(2))
    before = case["ops"][:draw(st.integers(0, 2))]
    kinds = [[case["P"][a]["kind"], case["O"][b]["kind"], case["L"][c]["kind"]] for a, b, c in case["cams"]]
    n = len(kinds)
    ops = before + [[0, draw(st.sampled_from(["copy", "copy", "parts"])), "cam"]]
    count = 2 * n
    for k in range(draw(st.integers(1, 6))):
        if k and count < 6 and draw(st.integers(0, 5)) == 0:
            ops.append([0, "copy", "cam"])
            count *= 2
        i = draw(st.integers(0, count - 1))
        ops.append([i] + draw(c13.operation(kinds[i % n])))
    return dict(case, ops=ops)


@check("C38", cases(), quick=1500, shards=4, rule="an operation after the copy")
def cameras(case, ctx):
    """cameras (that may share parts) are copied and changed, each one is like a fresh camera with its own values"""
    ctx.nontrivial(True)
    c13.run(case, ctx)


@st.composite
def group_cases(draw):
    case = draw(c13.group_cases())
    ops = [op for op in case["ops"] if op[0] != "many"]
    # (original or copy, operation)
    return dict(case, first=ops[:1] if draw(st.booleans()) else [], ops=[[draw(st.integers(0, 1)), op] for op in ops], gps=[draw(st.integers(-60, 60)), draw(st.integers(-170, 170))])


@check("C38", group_cases(), quick=600, shards=2, rule="an operation through the parameters of the group or of the copy")
def groups(case, ctx):
    parts, model = {}, {}
    for key in "POL":
        parts[key] = [c13.CLASSES[d["kind"]](**d["v"]) for d in case[key]]
        model[key] = [c13.ModelPart(d) for d in case[key]]
    group = ct.CameraGroup(*[parts[key] if len(parts[key]) > 1 else parts[key][0] for key in "POL"])
    group[0].setGPSpos(*case["gps"])
    n = case["n"]
    groups, models = [group], [model]

    def apply(which, op):
        via, key, i, name, value = op
        g, m = groups[which], models[which]
        lst = dict(P=g.projection_list, O=g.orientation_list, L=g.lens_list)[key]
        require(len(lst) == len(m[key]), "%d parts instead of %d", len(lst), len(m[key]))
        full = name if len(lst) == 1 else "C%d_%s" % (i, name)
        if via == "group":
            setattr(g, full, value)
        elif via == "fit":
            g.parameters.set_fit_parameters([full], [value])
        elif via == "camera":
            setattr(g[i], name, value)
        else:
            setattr(lst[i], name, value)
        m[key][i].set(name, value)
        ctx.label(via)

    def all_ok(what):
        for which, (g, m) in enumerate(zip(groups, models)):
            for j in range(n):
                c = c13.as_camera(*[m[key][j % len(m[key])] for key in "POL"])
                c13.compare(g[j], c, case["bulk"], "%s: camera %d of the %s" % (what, j, "copy" if which else "group"))

    for op in case["first"]:
        apply(0, op)
    groups.append(copy.deepcopy(group))
    models.append(copy.deepcopy(model))
    require(len(groups[1]) == n, "the copy has %d cameras instead of %d", len(groups[1]), n)
    all_ok("after copying")
    close([groups[1][0].gps_lat, groups[1][0].gps_lon], case["gps"], 0, "GPS position of the copied camera")
    for which, op in case["ops"]:
        apply(which, op)
        all_ok("after %s of the %s" % (op, "copy" if which else "group"))
    groups[1][0].setGPSpos(case["gps"][1] / 4, case["gps"][0])
    close([group[0].gps_lat, group[0].gps_lon], case["gps"], 0, "GPS position of the camera that was copied")
    ctx.nontrivial(any(op[0] in ("group", "fit") for which, op in case["ops"]))
