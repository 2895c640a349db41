"""An independent reference of what a described wing is: airfoil outlines and mean camber
lines, deflected control surfaces, panel corners, flags, and reference dimensions."""

import os

import numpy as np
from scipy.interpolate import PchipInterpolator

from . import boot


def cosine(n):
    return 0.5 - 0.5 * np.cos(np.pi * np.arange(n) / (n - 1))


def spaced(kind, n):
    return np.arange(n) / (n - 1) if kind == "uniform" else cosine(n)


# ------------------------------------------------------------------ airfoils


def naca4(digits, n=100):
    m, p, t = int(digits[0]) / 100, int(digits[1]) / 10, int(digits[2:]) / 100
    if p == 0:
        p = 0.5
    x = cosine(n)
    yt = 5 * t * (0.2969 * np.sqrt(x) - 0.126 * x - 0.3516 * x**2 + 0.2843 * x**3 - 0.1015 * x**4)
    fore = x <= p
    yc = np.where(fore, m / p**2 * (2 * p * x - x**2), m / (1 - p) ** 2 * (1 - 2 * p + 2 * p * x - x**2))
    slope = np.where(fore, 2 * m / p**2 * (p - x), 2 * m / (1 - p) ** 2 * (p - x))
    th = np.arctan(slope)
    up = np.stack([x - yt * np.sin(th), yc + yt * np.cos(th)], axis=1)
    lo = np.stack([x + yt * np.sin(th), yc - yt * np.cos(th)], axis=1)
    return np.concatenate([up[::-1], lo[1:]])


def dat(name):
    """The coordinates a database file lists."""
    with open(os.path.join(boot.PKG, "airfoils", name + ".dat"), encoding="utf-8") as f:
        rows = f.read().split("\n")[1:]
    out = []
    for r in rows:
        if r.strip()[:1].isalpha():
            break
        out += [float(t) for t in r.split()]
    return np.array(out).reshape(-1, 2)


def raw(spec):
    if spec["kind"] == "user":
        return np.array(user(spec))
    n = spec["name"].lower().strip()
    if n.startswith("naca") and n[4:].isdigit() and len(n) == 8:
        return naca4(n[4:])
    return dat(n)


def user(spec):
    """Coordinates of a simple cambered shape, given by the caller."""
    x = spaced("cosine", spec["points"])
    c = spec["camber"] * 4 * x * (1 - x)
    t = spec["thick"] * (np.sqrt(x) - x)
    return np.concatenate([np.stack([x, c + t], axis=1)[::-1], np.stack([x, c - t], axis=1)[1:]])


class Foil:
    """Outline, camber line and half thickness of an airfoil specification."""

    def __init__(self, spec):
        c = raw(spec)
        if spec["repanel"]:
            le = int(np.argmin(c[:, 0]))
            up, lo = c[: le + 1], c[le:]
            x = cosine(spec["n"])
            yu = PchipInterpolator(up[::-1, 0], up[::-1, 1])(x)
            yl = PchipInterpolator(lo[:, 0], lo[:, 1])(x)
            c = np.concatenate([np.stack([x, yu], axis=1)[::-1], np.stack([x, yl], axis=1)[1:]])
        self.set(c)

    def set(self, c):
        self.coordinates = c
        le = int(np.argmin(c[:, 0]))
        up, lo = c[: le + 1][::-1], c[le:]
        self.mcl = (up + lo) / 2
        self.half = up - self.mcl
        self.thickness = np.stack([self.mcl[:, 0], 2 * np.sqrt((self.half**2).sum(axis=1))], axis=1)

    def flapped(self, deflection, hinge):
        a = np.radians(-deflection)
        r = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
        h = np.array([hinge, self.camber(hinge)])
        aft = np.arange(len(self.mcl)) >= np.nonzero(self.mcl[:, 0] > hinge)[0][0]
        mcl, half = self.mcl.copy(), self.half.copy()
        mcl[aft] = (mcl[aft] - h) @ r.T + h
        half[aft] = half[aft] @ r.T
        f = Foil.__new__(Foil)
        f.set(np.concatenate([(mcl + half)[::-1], (mcl - half)[1:]]))
        return f

    def camber(self, x):
        m = self.mcl
        i = int(np.clip(np.searchsorted(m[:, 0], x), 1, len(m) - 1))
        (x0, y0), (x1, y1) = m[i - 1], m[i]
        return y0 + (y1 - y0) * (x - x0) / (x1 - x0)

    def sample(self, fractions):
        d = np.concatenate([[0.0], np.cumsum(np.sqrt((np.diff(self.mcl, axis=0) ** 2).sum(axis=1)))])
        d = d / d[-1]
        return np.stack([np.interp(fractions, d, self.mcl[:, k]) for k in (0, 1)], axis=1)


# ------------------------------------------------------------------ wings


def rotate(v, axis, degrees):
    k = np.asarray(axis, float) / np.linalg.norm(axis)
    t = np.radians(degrees)
    return v * np.cos(t) + np.cross(k, v) * np.sin(t) + k * np.dot(k, v) * (1 - np.cos(t))


def chordwise_vector(section, chordwise):
    return rotate(np.asarray(chordwise, float), section["normal"], section["twist"])


def section_grid(wing, inner, outer, foils, sign):
    """Points of one wing section: (chordwise, spanwise, 3)."""
    fr = spaced(wing["cspace"], wing["nchord"] + 1)
    edge = []
    for s in (inner, outer):
        m = foils[s["airfoil"]].flapped(sign * inner["cs_defl"], inner["cs_hinge"]).sample(fr)
        back = chordwise_vector(s, wing["chordwise"])
        up = np.cross(back, s["normal"])
        le = np.array([wing["x"], wing["y"], wing["z"]]) + np.array([s["x"], s["y"], s["z"]])
        edge.append(le + s["chord"] * (m[:, :1] * back + m[:, 1:] * up))
    t = spaced(inner["sspace"], inner["nspan"] + 1)[None, :, None]
    return edge[0][:, None, :] * (1 - t) + edge[1][:, None, :] * t


def wing_panels(wing, sections, foils):
    """Corners (front left, front right, back left, back right): (chordwise, spanwise, 4, 3)."""
    right, left = [], []
    n = np.asarray(wing["normal"], float)
    o = np.array([wing["x"], wing["y"], wing["z"]])
    for inner, outer in zip(sections[:-1], sections[1:]):
        g = section_grid(wing, inner, outer, foils, 1)
        right.append(cells(g))
        if wing["sym"]:
            g = section_grid(wing, inner, outer, foils, 1 if inner["cs_type"] == "symmetric" else -1)
            g = g - 2 * ((g - o) @ n)[..., None] * n / np.dot(n, n)
            left.insert(0, cells(g[:, ::-1]))
    return np.concatenate(left + right, axis=1)


def cells(g):
    return np.stack([g[:-1, :-1], g[:-1, 1:], g[1:, :-1], g[1:, 1:]], axis=2)


def projected_area(corners, up):
    fl, fr, bl, br = (corners[:, :, k] for k in range(4))
    d1, d2 = fr - bl, fl - br
    p = lambda d: d - (d @ up)[..., None] * up
    return 0.5 * np.linalg.norm(np.cross(p(d1), p(d2)), axis=-1).sum()


def wetted_area(corners):
    fl, fr, bl, br = (corners[:, :, k] for k in range(4))
    return 0.5 * np.linalg.norm(np.cross(fr - bl, fl - br), axis=-1).sum()


def span(wing, sections):
    n = np.asarray(wing["normal"], float)
    d = np.array([sections[-1][k] - sections[0][k] for k in "xyz"])
    return abs(d @ n) * (2 if wing["sym"] else 1)


def mean_chord(wing, sections, corners):
    n = np.asarray(wing["normal"], float)
    t = 0.0
    for a, b in zip(sections[:-1], sections[1:]):
        w = abs(np.array([b[k] - a[k] for k in "xyz"]) @ n)
        t += w * (a["chord"] ** 2 + a["chord"] * b["chord"] + b["chord"] ** 2) / 3
    return t * (2 if wing["sym"] else 1) / projected_area(corners, up_vector(wing))


def up_vector(wing):
    return np.cross(np.asarray(wing["chordwise"], float), np.asarray(wing["normal"], float))
