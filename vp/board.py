"""Reference for images of a chess board: a camera in the convention of OpenCV (x right, y down, z forward), without any code of /repo"""
import numpy as np

COLS, ROWS = 9, 6
POINTS = np.zeros((COLS * ROWS, 3))
POINTS[:, :2] = np.indices((COLS, ROWS)).T.reshape(-1, 2)


def axis_rotation(v):
    """rotation matrix of the axis v with the angle |v|"""
    a = np.linalg.norm(v)
    if a == 0:
        return np.eye(3)
    x, y, z = np.asarray(v) / a
    k = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    return np.eye(3) + np.sin(a) * k + (1 - np.cos(a)) * k @ k


def distort(xy, k):
    """ideal to distorted coordinates, both relative to the centre and divided by the focal length"""
    r2 = np.sum(np.asarray(xy) ** 2, axis=-1)[..., None]
    return xy * (1 + k[0] * r2 + k[1] * r2 ** 2 + k[2] * r2 ** 3)


def project(points, cam, pose):
    R, t = pose
    X = np.asarray(points) @ R.T + t
    return distort(X[..., :2] / X[..., 2:], cam["k"]) * cam["f"] + cam["c"]


def pose(cam, tilt, direction, spin, distance, shift):
    """a pose of the board: tilted by tilt (radians) around the horizontal direction, turned by spin; the board appears about 'size' pixels wide"""
    R = axis_rotation(tilt * np.array([np.cos(direction), np.sin(direction), 0])) @ axis_rotation([0, 0, spin])
    centre = np.array([shift[0], shift[1], 1]) * distance
    return R, centre - R @ [(COLS - 1) / 2, (ROWS - 1) / 2, 0]


def inside(corners, w, h, margin):
    return corners.min() >= margin and corners[:, 0].max() <= w - 1 - margin and corners[:, 1].max() <= h - 1 - margin


def monotonic(cam, w, h):
    """the distortion can be inverted in the whole image (and a bit further)"""
    far = np.max(np.linalg.norm((np.array([[0, 0], [w, 0], [0, h], [w, h]]) - cam["c"]) / cam["f"], axis=1)) * 1.5
    r = np.linspace(0, far, 500)
    d = 1 + 3 * cam["k"][0] * r ** 2 + 5 * cam["k"][1] * r ** 4 + 7 * cam["k"][2] * r ** 6
    return d.min() > 0.3


def render(cam, pose_, w, h, ss=2):
    """image of the board (squares of side 1 around the corner points, white border), supersampled"""
    R, t = pose_
    s = (np.arange(ss) + .5) / ss - .5
    gx, gy = np.meshgrid((np.arange(w)[:, None] + s).ravel(), (np.arange(h)[:, None] + s).ravel())
    d = (np.stack([gx, gy], -1) - cam["c"]) / cam["f"]
    rd = np.linalg.norm(d, axis=-1)
    rr = np.linspace(0, rd.max() * 2, 4000)
    k = cam["k"]
    u = d * (np.interp(rd, rr * (1 + k[0] * rr ** 2 + k[1] * rr ** 4 + k[2] * rr ** 6), rr) / np.maximum(rd, 1e-12))[..., None]
    ray = np.concatenate([u, np.ones(u.shape[:2] + (1,))], -1) @ R
    t = t @ R
    lam = t[2] / ray[..., 2]
    p = ray * lam[..., None] - t
    x, y = p[..., 0], p[..., 1]
    board = (x > -1) & (x < COLS) & (y > -1) & (y < ROWS) & (lam > 0)
    img = np.where(board & ((np.floor(x) + np.floor(y)) % 2 == 0), 20.0, 230.0)
    return np.round(img.reshape(h, ss, w, ss).mean((1, 3))).astype(np.uint8)
