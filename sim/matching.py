"""Worlds and reference model for the keypoint and match pipeline."""
import datetime
import os

import cv2
import numpy as np

from . import worlds
from .core import digest

KP_KW = [{"nfeatures": 14}, {"nfeatures": 30}, {"nfeatures": 20, "root": True}]
MASKS = [None, "one", "list"]
MATCH_KW = [
    {},
    {"max_ratio": 0.85},
    {"cross_check": True},
    {"max_distance": 12.0},
    {"cross_check": True, "max_ratio": 0.9, "max_distance": 30.0},
    {"max_ratio": 0.05},
]


def gen_images(r, n=None, small=False):
    n = n or r.choice([2, 3, 3, 4, 5])
    hours = [0]
    for _ in range(n - 1):
        hours.append(hours[-1] + r.choice([0, 1, 1, 2, 5]))
    names = r.choice([
        ["a", "b", "c", "d", "e"],
        ["img-1", "img-2", "img-10", "img-3", "x"],
        ["10", "9", "8", "7", "6"],
        ["a", "b10", "b1", "b", "b100"],
        ["im[1]", "im1", "im*", "im", "im?"],
    ] + ([] if small else [["a", "a-b", "b-c", "c", "d"]]))
    return {
        "hours": hours,
        "names": names[:n],
        "kinds": [r.choice(["texture"] * 8 + ["periodic", "flat", "copy"]) for _ in range(n)],
        "bands": r.choice([1, 1, 3]),
        "seed": r.randrange(10**6),
        "shift": [r.uniform(-3, 3), r.uniform(-2, 2)],
        "size": [44, 34] if small else [60, 46],
        "clahe": r.random() < 0.2,
    }


def arrays(im):
    w, h = im["size"]
    out = []
    for k, kind in enumerate(im["kinds"]):
        if kind == "flat":
            a = np.full((h, w) if im["bands"] == 1 else (h, w, 3), 90 + k, np.uint8)
        elif kind == "periodic":
            t = worlds.texture(im["seed"] + 7, w // 2, h // 2, bands=im["bands"])
            a = np.tile(t, (2, 2) + (1,) * (t.ndim - 2))
        else:
            j = 0 if kind == "copy" else k
            a = worlds.texture(im["seed"], w, h, bands=im["bands"], dx=im["shift"][0] * j, dy=im["shift"][1] * j)
        out.append(np.ascontiguousarray(a))
    return out


def write_images(im, root):
    paths = []
    for name, a in zip(im["names"], arrays(im)):
        p = os.path.join(root, name + ".png")
        worlds.write_image(p, a)
        paths.append(p)
    return paths


def cam_args(im, i):
    return dict(imgsz=im["size"], f=(90, 90), xyz=(1, 2, 3), viewdir=(1.5 * i, -2.0 + 0.3 * i, 0.2 * i))


def build_images(im, paths):
    from glimpse.image import Image

    return [
        Image(p, cam=cam_args(im, i), datetime=worlds.T0 + datetime.timedelta(hours=im["hours"][i]))
        for i, p in enumerate(paths)
    ]


def mask_arg(im, which):
    w, h = im["size"]
    m = np.ones((h, w), np.uint8)
    m[:, : w // 3] = 0
    if which is None:
        return None
    if which == "one":
        return m
    return [m if i % 2 else np.ones_like(m) for i in range(len(im["names"]))]


def kp_key(k):
    """Comparable value of (keypoints, descriptors)."""
    if k is None:
        return None
    pts = [(p.pt, p.size, p.angle, p.response, p.octave, p.class_id) for p in k[0]]
    return digest(pts, k[1])


class Ref:
    """What keypoints and matches must be, computed without the code under test (but with OpenCV)."""

    def __init__(self, im):
        self.im = im
        self.arrays = arrays(im)
        self.kps = {}
        self.pairs = {}

    def keypoints(self, i, kw, mask):
        key = (i, kw, mask)
        if key not in self.kps:
            args = dict(KP_KW[kw])
            root = args.pop("root", False)
            a = self.arrays[i]
            if a.ndim > 2:
                a = a.mean(axis=2).astype(np.uint8)
            if self.im["clahe"]:
                a = cv2.createCLAHE().apply(a)
            m = mask_arg(self.im, MASKS[mask])
            if isinstance(m, list):
                m = m[i]
            k, d = cv2.SIFT.create(**args).detectAndCompute(a, m)
            if root and d is not None:
                d = np.sqrt(d / (d.sum(axis=1, keepdims=True) + 1e-7))
            self.kps[key] = (k, d)
        return self.kps[key]

    def match(self, i, ki, j, kj, mkw, weights):
        """Points and weights of a pair; ``ki`` and ``kj`` are (kw, mask)."""
        key = (i, ki, j, kj, mkw, weights)
        if key not in self.pairs:
            o = MATCH_KW[mkw]
            a, b = self.keypoints(i, *ki), self.keypoints(j, *kj)
            n = 2 if o.get("max_ratio") or weights else 1
            uva, uvb, w = [], [], []
            if len(a[0]) >= n and len(b[0]) >= n:
                bf = cv2.BFMatcher()
                ab = bf.knnMatch(a[1], b[1], k=n)
                back = [m[0].trainIdx for m in bf.knnMatch(b[1], a[1], k=n)]
                for m in ab:
                    q, t = m[0].queryIdx, m[0].trainIdx
                    if o.get("cross_check") and back[t] != q:
                        continue
                    ratio = None
                    if n == 2:
                        ratio = m[0].distance / m[1].distance if m[1].distance else 1.0
                        if o.get("max_ratio") and not ratio < o["max_ratio"]:
                            continue
                    pa, pb = a[0][q].pt, b[0][t].pt
                    if o.get("max_distance") and not np.hypot(pa[0] - pb[0], pa[1] - pb[1]) < o["max_distance"]:
                        continue
                    uva.append(pa)
                    uvb.append(pb)
                    w.append(ratio)
            uva, uvb = np.array(uva, float).reshape(-1, 2), np.array(uvb, float).reshape(-1, 2)
            with np.errstate(divide="ignore"):
                w = 1 / np.array(w, float) if weights else None
            self.pairs[key] = (uva, uvb, w)
        return self.pairs[key]


def selected_pairs(hours, maxdt, seq, imgs):
    n = len(hours)
    out = set()
    for i in range(n):
        for j in range(i + 1, n):
            ok = maxdt is None and seq is None
            ok |= maxdt is not None and hours[j] - hours[i] <= maxdt
            ok |= seq is not None and (j - i) in seq
            if ok and (imgs is None or i in imgs or j in imgs):
                out.add((i, j))
    return out


def match_key(m):
    """Comparable value of the points and weights of a match object."""
    return digest(
        [np.asarray(x) for x in m.uvs] if m.uvs is not None else None,
        [np.asarray(x) for x in m.xys] if getattr(m, "xys", None) is not None else None,
        None if m.weights is None else np.asarray(m.weights),
    )
