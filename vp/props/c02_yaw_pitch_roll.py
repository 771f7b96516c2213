"""C02 the yaw-pitch-roll orientation is the same rotation in other angles"""
import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import gen, ref
from ..core import check, close, require, arr

ASSUMPTIONS = ["|angles| <= 720 degrees, positions up to 1e5 m; tolerance 1e-11 of the magnitudes"]


@st.composite
def cases(draw):
    return dict(yaw=draw(gen.angle()), pitch=draw(gen.angle(-500, 500)), roll=draw(gen.angle()), pos=draw(gen.vec(3, gen.coord(1000))),
                pts=draw(gen.points(3, gen.coord(1000), 4)), px=draw(gen.pixel_fracs(3)))


@check("C02", cases(), quick=3000, shards=4, rule="at least two of the angles are no multiples of 90 degrees")
def equals_tilt_heading_roll(case, ctx):
    x, y, z = case["pos"]
    ctx.nontrivial(sum(case[k] % 90 != 0 for k in ("yaw", "pitch", "roll")) >= 2)
    a = ct.SpatialOrientationYawPitchRoll(elevation_m=z, yaw_deg=case["yaw"], pitch_deg=case["pitch"], roll_deg=case["roll"], pos_x_m=x, pos_y_m=y)
    b = ct.SpatialOrientation(elevation_m=z, heading_deg=case["yaw"], tilt_deg=case["pitch"] + 90, roll_deg=-case["roll"], pos_x_m=x, pos_y_m=y)
    p = arr(case["pts"])
    o = dict(kind="ypr", x=x, y=y, z=z, heading=case["yaw"], tilt=case["pitch"] + 90, roll=-case["roll"])
    t = 1e-11 * (1 + np.max(np.abs(p)) + np.max(np.abs(arr(case["pos"]))))
    for what, f, want in [("camera from space", lambda q: q.cameraFromSpace(p), ref.camera_from_space(o, p)),
                          ("space from camera", lambda q: q.spaceFromCamera(p), ref.space_from_camera(o, p)),
                          ("direction", lambda q: q.spaceFromCamera(p, direction=True), ref.space_from_camera(o, p, True)),
                          ("single", lambda q: q.cameraFromSpace(p[0]), ref.camera_from_space(o, p)[0])]:
        close(f(a), want, t, what + " (yaw, pitch, roll)")
        close(f(b), want, t, what + " (heading, tilt, roll)")
    # within a camera both give the same images and rays
    proj = dict(type="rect", w=640, h=480, fx=500.0, fy=510.0, cx=320, cy=240)
    ca, cb = ct.Camera(gen.make_projection(proj), a), ct.Camera(gen.make_projection(proj), b)
    px = gen.pixels(case["px"], proj)
    (oa, da), (ob, db) = ca.getRay(px), cb.getRay(px)
    close(oa, ob, t, "origin of rays")
    close(da, db, 1e-11, "direction of rays")


@check("C02", cases(), quick=1000, shards=2, rule="angles that are no multiples of 90 degrees, changed after the construction")
def follows_changes(case, ctx):
    """the rotation follows changes of yaw, pitch, roll and position"""
    x, y, z = case["pos"]
    a = ct.SpatialOrientationYawPitchRoll(elevation_m=1, yaw_deg=2, pitch_deg=3, roll_deg=4, pos_x_m=5, pos_y_m=6)
    cam = ct.Camera(ct.RectilinearProjection(focallength_px=100, image=(100, 50)), a)
    ctx.nontrivial(case["yaw"] % 90 != 0 or case["pitch"] % 90 != 0)
    for i, (name, v) in enumerate(zip(["elevation_m", "yaw_deg", "pitch_deg", "roll_deg", "pos_x_m", "pos_y_m"], [z, case["yaw"], case["pitch"], case["roll"], x, y])):
        setattr(cam if i % 2 else a, name, v)
    p = arr(case["pts"])
    o = dict(kind="ypr", x=x, y=y, z=z, heading=case["yaw"], tilt=case["pitch"] + 90, roll=-case["roll"])
    t = 1e-11 * (1 + np.max(np.abs(p)) + np.max(np.abs(arr(case["pos"]))))
    close(a.cameraFromSpace(p), ref.camera_from_space(o, p), t, "camera coordinates after changing the parameters")
    close(a.spaceFromCamera(p), ref.space_from_camera(o, p), t, "space coordinates after changing the parameters")
    close(cam.getPos(), [x, y, z], t, "position of the camera")
