"""C32 correcting the frames of a video."""
from .common import *
from .c02 import padded, PM


class Camera:
    def __init__(self, frames, h, w, log):
        self.frames, self.h, self.w, self.log = list(frames), h, w, log
        self.n = 0

    def get(self, prop):
        return {3: self.w, 4: self.h}[int(prop)] * 1.0

    def read(self):
        self.n += 1
        if self.n > len(self.frames) + 3:
            raise RuntimeError("reading on after the end of the video")
        self.log.append(("read",))
        if self.n > len(self.frames):
            return False, None
        return True, self.frames[self.n - 1]

    def release(self):
        self.log.append(("release",))

    def isOpened(self):
        return True


def window(E, log, keys):
    """a screen that records, a keyboard with given keys"""
    keys = iter(keys)

    def show(name, m):
        log.append(("show", m if E.sym else m.copy()))

    def wait(t=0):
        log.append(("wait",))
        return next(keys, -1)

    def close(*a):
        log.append(("close",))
    if E.sym:
        E.state["cv2"] = {"imshow": show, "waitKey": wait,
                          "destroyAllWindows": close, "destroyWindow": close}
    else:
        import cv2
        for n, f in (("imshow", show), ("waitKey", wait),
                     ("destroyAllWindows", close),
                     ("destroyWindow", close)):
            E.patch(cv2, n, f)


def video(E):
    nfr, (h, w), ch, pads, n = E.cfg
    util = E.load("util")
    frames = [E.image("m%d" % k, (h, w) if ch is None else (h, w, ch), "f4")
              for k in range(nfr)]
    keep = [E.snap(f) for f in frames]
    xc, yc = E.real("xc", -5, 8), E.real("yc", -5, 8)
    cs = coefs(E, n)
    keys = [E.int("key%d" % k, -1, 255) for k in range(nfr)]
    log = []
    window(E, log, keys)
    cam = Camera(frames, h, w, log)
    pm = E.choice("padmode", PM[:2])
    r = E.call(util.unwarp_video_cv2, cam, xc, yc, cs, pad=pads, pad_mode=pm)
    E.check(r.ok, "ends with the video or with ESC")
    shown = [e[1] for e in log if e[0] == "show"]
    want = nfr
    for k in range(nfr):
        if keys[k] == 27:
            want = k + 1
            break
    E.check(len(shown) == want, "every frame is shown, until ESC")
    t, b, l, rr = pads if isinstance(pads, tuple) else (int(pads),) * 4
    at = [(i, j) for i in range(h + t + b) for j in range(w + l + rr)]
    for k, out in enumerate(shown):
        padded(E, out, frames[k], h, w, ch, (t, b, l, rr), pm, xc, yc, cs, 1,
               0, "cv", at)
    E.check(log.count(("release",)) == 1 and log.count(("close",)) >= 1,
            "camera and windows are closed")
    for f, q in zip(frames, keep):
        E.unchanged(f, q, "frames untouched")


def auto(E):
    """pad=True, options: as for single images"""
    (h, w), ch, n = E.cfg
    proc = E.load("proc")
    f0 = E.real("f0", E.q("1/2"), E.q("5/2"))
    E.patch(proc, "transform_coef_backward_and_forward",
            lambda *a, **k: E.arr([f0]))
    util = E.load("util")
    frame = E.image("m", (h, w) if ch is None else (h, w, ch), "f4")
    xc, yc = E.q("1.3"), E.q("0.8")
    cs = coefs(E, n)
    meth, bor = E.choice("method", [0, 1, 2]), E.choice("border", [0, 1])
    log = []
    window(E, log, [-1])
    for v in ((f0 - 1) * xc, (f0 - 1) * yc, xc + f0 * (w - 1 - xc) - w,
              yc + f0 * (h - 1 - yc) - h):
        E.assume(E.abs(v - E.floor(v + E.q("1/2"))) > E.q("1e-4"))
    util.unwarp_video_cv2(Camera([frame], h, w, log), xc, yc, cs, method=meth,
                          border=bor)
    shown = [e[1] for e in log if e[0] == "show"]
    E.check(len(shown) == 1, "one frame is shown")

    def whole(v):
        return next((k for k in range(9) if E.And(v >= k, v < k + 1)), 0)
    t, l = whole((f0 - 1) * yc), whole((f0 - 1) * xc)
    b = whole(yc + f0 * (h - 1 - yc) - h)
    r = whole(xc + f0 * (w - 1 - xc) - w)
    at = [(p, q) for p in range(h + t + b) for q in range(w + l + r)]
    padded(E, shown[0], frame, h, w, ch, (t, b, l, r), "constant", xc, yc,
           cs, meth, bor, "cv", at)


HARNESSES = [
    H("auto", auto, quick=[((2, 3), None, 2), ((3, 2), 2, 2)],
      budget=120, bounds="2 x 3 pixels, any uniform magnification from 1/2 to 5/2"),
    H("video", video,
      quick=[(2, (3, 4), None, False, 3), (2, (2, 3), 3, 0, 2),
             (2, (2, 3), None, (1, 0, 2, 1), 2), (3, (2, 3), None, 1, 2),
             (1, (3, 3), 3, (0, 1, 1, 0), 2),
             (1, (2, 3), None, (1, 1, 0, 1), 2), (0, (2, 2), None, 1, 2),
             (0, (2, 2), None, False, 2)],
      thorough=[(4, (3, 4), None, False, 4), (3, (3, 3), 3, (1, 2, 0, 1), 3)],
      bounds="videos of 0-3 frames (thorough 4) of up to 3 x 4 pixels, any "
             "keys, centre and coefficients"),
]
