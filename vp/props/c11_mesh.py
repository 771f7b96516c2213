"""C11 image -> space on a mesh of triangles"""
import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from cameratransform import ray as ctray
from .. import gen, ref, view
from ..core import check, close, require, arr, fail

ASSUMPTIONS = ["rays that do not pass within a relative 1e-7 of the edges of a triangle, and are not (almost) parallel to it"]


def intersect(o, d, tri):
    """Moeller-Trumbore for one ray and one triangle -> (t or nan, safe): safe if the decision is not within rounding"""
    a, b, c = tri
    e1, e2 = b - a, c - a
    n = np.cross(e1, e2)
    area = np.linalg.norm(n)
    size = max(np.linalg.norm(e1), np.linalg.norm(e2), np.linalg.norm(c - b))
    dn = np.linalg.norm(d)
    if area < 1e-4 * size ** 2 or size == 0:
        return np.nan, False
    det = np.dot(n, d)
    far = max(np.linalg.norm(a - o), size)
    if abs(det) < 1e-5 * area * dn:
        # almost parallel: it misses if the ray stays clear of the triangle
        return np.nan, False
    t = np.dot(n, a - o) / det
    eps = 1e-7 * far / size / (abs(det) / area / dn)
    q = o + t * d - a
    # barycentric coordinates from areas
    u = np.dot(np.cross(q, e2), n) / area ** 2
    v = np.dot(np.cross(e1, q), n) / area ** 2
    w = 1 - u - v
    inside = min(u, v, w)
    reach = abs(t) * dn
    if t < 0:
        return np.nan, reach > 1e-7 * far
    if inside < 0:
        return np.nan, (inside < -eps)
    return t, inside > eps and reach > 1e-7 * far


def reference(origin, d, tris):
    best, safe = np.nan, True
    for tri in tris:
        t, s = intersect(origin, d, tri)
        if not s:
            safe = False
        if not np.isnan(t) and not (t >= best):
            best = t
    return best, safe


@st.composite
def triangle_data(draw, r=20):
    if draw(st.booleans()):
        return draw(gen.vec(3, gen.vec(3, gen.coord(r))))
    return gen.expand(draw(gen.bulk()), 3, -r, r, 3).tolist()


@st.composite
def cases(draw):
    n_tri = draw(st.integers(1, 4))
    return dict(origin=draw(gen.vec(3, gen.coord(30))), tris=[draw(triangle_data()) for _ in range(n_tri)],
                aim=draw(st.lists(st.tuples(st.integers(0, 3), gen.num(-0.3, 1.3), gen.num(-0.3, 1.3), gen.logu(0.01, 10, signed=True)).map(list), min_size=1, max_size=5)),
                free=draw(st.lists(gen.vec(3, gen.coord(1)), max_size=2)), bulk=draw(gen.bulk()), more=draw(st.booleans()))


def directions(case, origin, tris):
    d = []
    for i, u, v, s in case["aim"]:
        a, b, c = tris[i % len(tris)]
        d.append((a + u * (b - a) + v * (c - a) - origin) * s)
    d.extend(arr(f) for f in case["free"])
    return [v for v in d if np.linalg.norm(v) > 1e-3]


@check("C11", cases(), quick=3000, shards=4, rule="a ray that hits a triangle of the mesh")
def rays(case, ctx):
    """several rays, several triangles: the nearest hit in front of the origin, nan if nothing is hit"""
    origin, tris = arr(case["origin"]), arr(case["tris"])
    if case["more"]:
        tris = np.vstack([tris, gen.expand(case["bulk"], 12, -20, 20, 3).reshape(4, 3, 3)])
    d = directions(case, origin, tris)
    if case["more"]:
        d.extend(tris[i % len(tris)].T @ w / w.sum() - origin for i, w in enumerate(gen.expand(case["bulk"] + 1, 6, 0.01, 1, 3)))
    d = [v for v in d if np.linalg.norm(v) > 1e-3]
    if not d:
        ctx.nontrivial(False)
        return
    results = [reference(origin, v, tris) for v in d]
    hit = 0
    got = ctray.ray_intersect_triangle(origin.copy(), np.array(d), tris.copy())
    require(got.shape == (len(d), 3), "intersections have shape %s for %d rays", got.shape, len(d))
    for i, (v, (t, safe)) in enumerate(zip(d, results)):
        if not safe:
            continue
        want = origin + t * v if not np.isnan(t) else np.full(3, np.nan)
        tol = 1e-8 * (1 + np.abs(origin).max() + 40 + (0 if np.isnan(t) else abs(t) * np.linalg.norm(v))) * 10
        close(got[i], want, tol, "intersection of ray %d" % i)
        single = ctray.ray_intersect_triangle(origin.copy(), v.copy(), tris.copy())
        close(single, want, tol, "intersection of ray %d alone" % i)
        if len(tris) == 1:
            close(ctray.ray_intersect_triangle(origin.copy(), v.copy(), tris[0].copy()), want, tol, "intersection with a single triangle")
        hit += not np.isnan(t)
        ctx.label("hit" if not np.isnan(t) else "miss")
    ctx.nontrivial(hit)


def plane_reference(o, d, tris):
    """nearest intersection with the infinite planes of the triangles"""
    best, safe = np.nan, True
    for a, b, c in tris:
        n = np.cross(b - a, c - a)
        size = max(np.linalg.norm(b - a), np.linalg.norm(c - a), np.linalg.norm(c - b))
        det, num = np.dot(n, d), np.dot(n, a - o)
        far = max(np.linalg.norm(a - o), size)
        if np.linalg.norm(n) < 1e-4 * size ** 2 or size == 0 or abs(det) < 1e-4 * np.linalg.norm(n) * np.linalg.norm(d) or abs(num) < 1e-7 * np.linalg.norm(n) * far:
            safe = False
            continue
        t = num / det
        if t > 0 and not t >= best:
            best = t
    return best, safe


@check("C11", cases(), quick=800, shards=2, rule="a ray that hits a plane")
def planes(case, ctx):
    """triangles as infinite planes: the nearest plane in front of the origin; also with an own origin for each ray"""
    origin, tris = arr(case["origin"]), arr(case["tris"])
    if case["more"]:
        tris = np.vstack([tris, gen.expand(case["bulk"], 6, -20, 20, 3).reshape(2, 3, 3)])
    d = np.array(directions(case, origin, tris) + list(gen.expand(case["bulk"] + 1, 3, -1, 1, 3)))
    origins = np.vstack([origin[None], origin + gen.expand(case["bulk"] + 2, len(d) - 1, -10, 10, 3)])
    hit = 0
    for use, refer in ((True, plane_reference), (False, reference)):
        for o in (origin, origins, None):
            if o is None:
                # parallel rays
                o, vs = origins, np.tile(d[:1], (len(d), 1))
                got = ctray.ray_intersect_triangle(o.copy(), d[0].copy(), tris.copy(), use_planes=use)
            else:
                vs = d
                got = ctray.ray_intersect_triangle(o.copy(), d.copy(), tris.copy(), use_planes=use)
            require(got.shape == d.shape, "intersections have shape %s for %d rays", got.shape, len(d))
            for i, v in enumerate(vs):
                oi = o if o.ndim == 1 else o[i]
                t, safe = refer(oi, v, tris)
                if not safe:
                    continue
                want = oi + t * v if not np.isnan(t) else np.full(3, np.nan)
                tol = 1e-7 * (41 + np.abs(oi).max() + (0 if np.isnan(t) else abs(t) * np.linalg.norm(v) * 100))
                what = "%s %d (%s)" % ("planes, ray" if use else "triangles, ray", i, "common origin" if o.ndim == 1 else "own origins")
                close(got[i], want, tol, "intersection with " + what)
                if o.ndim == 1:
                    close(ctray.ray_intersect_triangle(oi.copy(), v.copy(), tris.copy(), use_planes=use), want, tol, "intersection with " + what + " alone")
                hit += use and not np.isnan(t)
                ctx.label(("plane " if use else "triangle ") + ("miss" if np.isnan(t) else "hit"))
    ctx.nontrivial(hit)


@check("C11", cases(), quick=800, shards=2, rule="a ray that hits a triangle of the mesh")
def symmetries(case, ctx):
    """the order of triangles and of their corners does not matter; scaling the direction does not matter"""
    origin, tris = arr(case["origin"]), arr(case["tris"])
    d = directions(case, origin, tris)
    d = [v for v in d if reference(origin, v, tris)[1]]
    if not d:
        ctx.nontrivial(False)
        return
    ctx.nontrivial(any(not np.isnan(reference(origin, v, tris)[0]) for v in d))
    base = ctray.ray_intersect_triangle(origin, np.array(d), tris)
    tol = 1e-6 * (1 + np.abs(base[~np.isnan(base)]).max(initial=0) + np.abs(origin).max())
    rs = np.random.RandomState(case["bulk"])
    order = rs.permutation(len(tris))
    corners = rs.permutation(3)
    close(ctray.ray_intersect_triangle(origin, np.array(d), tris[order][:, corners]), base, tol, "intersections after reordering triangles and corners")
    scale = 10 ** rs.uniform(-2, 2, len(d))
    close(ctray.ray_intersect_triangle(origin, np.array(d) * scale[:, None], tris), base, tol, "intersections after scaling the directions")
    rev = ctray.ray_intersect_triangle(origin, np.array(d)[::-1], tris)
    close(rev[::-1], base, tol, "intersections after reordering the rays")


@st.composite
def cam_cases(draw):
    c = draw(gen.camera(max_pos=50, strength=0.4))
    return dict(c=c, fr=draw(gen.pixel_fracs(6)), dist=draw(gen.vec(3, gen.logu(0.5, 100))), corner=draw(gen.vec(6, gen.num(0, 1))), bulk=draw(gen.bulk()))


@check("C11", cam_cases(), quick=1200, shards=2, rule="a pixel whose ray hits the mesh")
def camera(case, ctx):
    """a camera looking at triangles: the result is on the mesh, on the ray of the pixel, and is seen at the pixel"""
    c = case["c"]
    cam = gen.make_camera(c)
    off = ref.o_pos(c["o"])
    # triangles with corners in the field of view, at different distances
    fr = np.vstack([np.array(case["corner"]).reshape(3, 2), gen.expand(case["bulk"], 6, 0, 1, 2)])
    corners = gen.pixels(fr, c["p"])
    if not view.in_domain(c["p"], corners).all():
        ctx.nontrivial(False)
        return
    dc = view.directions(c, corners)
    dist = np.concatenate([case["dist"], 10 ** gen.expand(case["bulk"] + 1, 6, 0, 2, 1)[:, 0]])
    tris = (off + dc * dist[:, None]).reshape(3, 3, 3)
    im = view.ideal_pixels(c["p"], case["fr"], case["bulk"] + 2, 12)
    d = view.directions(c, im)
    seen = ref.distort(c["p"], c["l"], im)
    got = cam.spaceFromImage(seen.copy(), mesh=tris.copy())
    require(np.shape(got) == (len(im), 3), "shape %s for %d pixels", np.shape(got), len(im))
    ang = view.ray_tol(c, im)
    hits = 0
    for i in range(len(im)):
        t, safe = reference(off, d[i], tris)
        # the ray is only known up to the numerics of the lens: the neighbouring rays have to agree
        for delta in np.vstack([np.eye(3), -np.eye(3)]) * 30 * ang[i]:
            t2, s2 = reference(off, d[i] + delta, tris)
            safe &= s2 and (np.isnan(t2) == np.isnan(t))
            if safe and not np.isnan(t):
                safe &= abs(t2 - t) < 1e-3 * t
        if not safe:
            continue
        if np.isnan(t):
            close(got[i], np.full(3, np.nan), 0, "pixel %d does not hit the mesh" % i)
            ctx.label("miss")
            continue
        hits += 1
        want = off + d[i] * t
        slack = np.linalg.norm([np.nan_to_num(reference(off, d[i] + e, tris)[0] - t) for e in np.vstack([np.eye(3), -np.eye(3)]) * 30 * ang[i]])
        close(got[i], want, slack + t * ang[i] * 30 + 1e-9 * (1 + np.abs(off).max() + t), "position on the mesh of pixel %d" % i)
        close(cam.spaceFromImage(seen[i].copy(), mesh=tris.copy()), want, slack + t * ang[i] * 30 + 1e-9 * (1 + np.abs(off).max() + t), "position on the mesh of a single pixel")
        ctx.label("hit")
    ctx.nontrivial(hits)


@st.composite
def wall_cases(draw):
    line = draw(st.lists(gen.vec(2, gen.coord(50)), min_size=2, max_size=5))
    z0 = draw(gen.num(-10, 10))
    return dict(line=line, z0=z0, z1=z0 + draw(gen.num(0.5, 20)), s=draw(gen.num(0.05, 0.95)), h=draw(gen.num(0.02, 0.98)), i=draw(st.integers(0, 3)),
                origin=draw(gen.vec(3, gen.coord(60))))


@check("C11", wall_cases(), quick=800, shards=2, rule="a wall segment longer than 1 and seen not edge-on")
def walls(case, ctx):
    """the mesh of a line extruded in z is a closed wall: every point of the wall is hit by the ray towards it"""
    line = arr(case["line"])
    mesh = ctray.extrudeLine(case["line"], case["z0"], case["z1"])
    require(mesh.ndim == 3 and mesh.shape[1:] == (3, 3), "the mesh has shape %s", mesh.shape)
    # all corners are corners of the wall
    flat = mesh.reshape(-1, 3)
    require(set(flat[:, 2]) <= {case["z0"], case["z1"]}, "corners at other heights than z0 and z1: %s", flat)
    require(set(map(tuple, flat[:, :2])) <= set(map(tuple, line)), "corners at other positions than the points of the line: %s", flat)
    area = sum(np.linalg.norm(np.cross(t[1] - t[0], t[2] - t[0])) / 2 for t in mesh)
    want = np.sum(np.linalg.norm(np.diff(line, axis=0), axis=1)) * (case["z1"] - case["z0"])
    close(area, want, 1e-9 * (1 + want), "area of the wall")
    i = case["i"] % (len(line) - 1)
    a, b = line[i], line[i + 1]
    q = np.append(a + case["s"] * (b - a), case["z0"] + case["h"] * (case["z1"] - case["z0"]))
    o = arr(case["origin"])
    n = np.array([b[1] - a[1], a[0] - b[0], 0])
    length = np.linalg.norm(n)
    distance = np.linalg.norm(q - o)
    ok = length > 1 and distance > 1e-3 and abs(np.dot(n, q - o)) > 0.01 * length * distance and abs(case["s"] - case["h"]) > 1e-3 and abs(case["s"] + case["h"] - 1) > 1e-3
    ctx.nontrivial(ok)
    if ok:
        got = ctray.ray_intersect_triangle(o, q - o, mesh)
        t = np.dot(got - o, q - o) / distance ** 2
        require(t <= 1 + 1e-7, "the ray towards the point %s of the wall passes through it, got %s", q, got)
        close(got, o + t * (q - o), 1e-7 * (1 + distance), "the hit is on the ray")


@st.composite
def on_mesh(draw):
    return dict(axis=draw(st.integers(0, 2)), level=draw(st.integers(-5, 5)), u=draw(st.integers(1, 6)), v=draw(st.integers(1, 6)), corner=draw(st.tuples(st.integers(-4, 4), st.integers(-4, 4)).map(list)),
                d=draw(gen.vec(3, st.integers(-8, 8))), above=draw(st.integers(-3, 3)), camera=draw(st.booleans()), flip=draw(st.booleans()))


@check("C11", on_mesh(), quick=500, shards=1, rule="a ray that is not parallel to the triangle")
def starts_on_the_mesh(case, ctx):
    """a ray that starts on the mesh meets it there, also if another triangle follows (coordinates without rounding)"""
    a = case["axis"]
    tri = np.zeros((3, 3))
    tri[:, a] = case["level"]
    b, c = [i for i in range(3) if i != a]
    x, y = case["corner"]
    tri[:, b] = [x, x + 8, x]
    tri[:, c] = [y, y, y + 8]
    if case["flip"]:
        tri = tri[::-1]
    start = np.zeros(3)
    start[[a, b, c]] = case["level"], x + case["u"] * 0.5, y + case["v"] * 0.5
    d = arr(case["d"])
    ctx.nontrivial(d[a] != 0)
    if d[a] == 0:
        return
    mesh = tri[None]
    if case["above"]:
        mesh = np.array([tri, tri + np.eye(3)[a] * case["above"]])
    got = ctray.ray_intersect_triangle(start.copy(), d.copy(), mesh.copy())
    close(got, start, 1e-9, "the position on the mesh where the ray starts")
    got = ctray.ray_intersect_triangle(start.copy(), np.array([d, -d]), mesh[::-1].copy())
    close(got, [start, start], 1e-9, "the position on the mesh where two rays start")


@st.composite
def terrains(draw):
    return dict(n=draw(st.sampled_from([2, 3, 5, 9, 17, 33])), m=draw(st.sampled_from([2, 3, 6, 20])), cell=draw(st.sampled_from([1, 2, 4])), seed=draw(gen.bulk()), rays=draw(st.sampled_from([1, 2, 3, 5, 50, 300])),
                offset=draw(st.tuples(st.integers(-1000, 1000), st.integers(-1000, 1000)).map(list)), caves=draw(st.booleans()), order=draw(st.booleans()))


@check("C11", terrains(), quick=500, shards=2, rule="at least one ray that hits the terrain")
def terrain(case, ctx):
    """a terrain of many triangles: rays from above meet it everywhere, also at the edges of the triangles, and in no hole"""
    rs = np.random.RandomState(case["seed"])
    n, m, cell = case["n"], case["m"], case["cell"]
    z = rs.randint(-4, 5, (n, m))
    x0, y0 = case["offset"]

    def corner(i, j):
        return np.array([x0 + i * cell, y0 + j * cell, z[i, j]], float)
    tris, hole = [], np.zeros((n - 1, m - 1), bool)
    for i in range(n - 1):
        for j in range(m - 1):
            if rs.randint(8) == 0:
                hole[i, j] = True
                continue
            tris.append([corner(i, j), corner(i + 1, j), corner(i, j + 1)])
            tris.append([corner(i + 1, j + 1), corner(i, j + 1), corner(i + 1, j)])
    if not tris:
        ctx.nontrivial(False)
        return
    tris = np.array(tris)
    if case["caves"]:
        # another terrain far below does not matter unless there is a hole
        tris = np.concatenate([tris, tris - [0, 0, 64]])
    if case["order"]:
        tris = tris[rs.permutation(len(tris))]
    # rays from above: the numbers are multiples of an eighth of a cell, nothing is rounded
    k = case["rays"]
    p = rs.randint(0, [(n - 1) * 8 + 1, (m - 1) * 8 + 1], (k, 2)) / 8
    start = np.column_stack([x0 + p[:, 0] * cell, y0 + p[:, 1] * cell, np.full(k, 16)])
    want = np.full((k, 3), np.nan)
    edge = 0
    for r, (u, v) in enumerate(p):
        cells = [(a, b) for a in {int(np.floor(u)), int(np.ceil(u)) - 1} for b in {int(np.floor(v)), int(np.ceil(v)) - 1} if 0 <= a < n - 1 and 0 <= b < m - 1 and not hole[a, b]]
        if not cells:
            continue
        a, b = cells[0]
        s, t = u - a, v - b
        if s + t <= 1:
            h = z[a, b] + s * (z[a + 1, b] - z[a, b]) + t * (z[a, b + 1] - z[a, b])
        else:
            h = z[a + 1, b + 1] + (1 - s) * (z[a, b + 1] - z[a + 1, b + 1]) + (1 - t) * (z[a + 1, b] - z[a + 1, b + 1])
        want[r] = start[r, 0], start[r, 1], h
        edge += s * t == 0 or s + t == 1
    d = np.tile([0., 0, -1], (k, 1)) * 2. ** rs.randint(-2, 3, (k, 1))
    ctx.nontrivial(not np.isnan(want).all())
    ctx.label(*["ray at an edge"] * edge)
    ctx.label("%d triangles" % 10 ** int(np.log10(len(tris))))
    close(ctray.ray_intersect_triangle(start.copy(), d.copy(), tris.copy()), want, 1e-9, "rays from above, each with its own origin, on %d triangles" % len(tris))
    close(ctray.ray_intersect_triangle(start.copy(), d[0].copy(), tris.copy()), want, 1e-9, "rays from above with the same direction, each with its own origin, on %d triangles" % len(tris))
    got = ctray.ray_intersect_triangle(start[0].copy(), d.copy(), tris.copy())
    close(got, np.tile(want[:1], (k, 1)), 1e-9, "parallel rays from above with the same origin")
    # oblique rays from one point towards points above the terrain
    o = np.array([x0 + rs.uniform(-10, 40), y0 + rs.uniform(-10, 40), rs.uniform(6, 60)])
    d = np.column_stack([x0 + rs.uniform(0, (n - 1) * cell, k), y0 + rs.uniform(0, (m - 1) * cell, k), rs.uniform(-4, 4, k)]) - o
    got = ctray.ray_intersect_triangle(o.copy(), d.copy(), tris.copy())
    a, e1, e2 = tris[:, 0], tris[:, 1] - tris[:, 0], tris[:, 2] - tris[:, 0]
    normal = np.cross(e1, e2)
    for i in range(min(k, 20)):
        det = normal @ d[i]
        steep = np.abs(det) > 1e-4 * np.linalg.norm(normal, axis=1) * np.linalg.norm(d[i])
        with np.errstate(all="ignore"):
            t = np.sum(normal * (a - o), axis=1) / det
            q = o + t[:, None] * d[i] - a
            nn = np.sum(normal ** 2, axis=1)
            u, v = np.sum(np.cross(q, e2) * normal, axis=1) / nn, np.sum(np.cross(e1, q) * normal, axis=1) / nn
        inside = np.min([u, v, 1 - u - v], axis=0)
        if not steep.all() or (np.abs(inside) < 1e-6).any():
            continue
        hit = (inside > 0) & (t > 0)
        w = o + t[hit].min() * d[i] if hit.any() else np.full(3, np.nan)
        close(got[i], w, 1e-6 * (1 + np.abs(o).max() + np.linalg.norm(w - o) if hit.any() else 1), "oblique ray %d on %d triangles" % (i, len(tris)))
        ctx.label("oblique hit" if hit.any() else "oblique miss")
