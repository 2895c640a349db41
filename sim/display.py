"""Simulated display and disk for the output module: record what is drawn, shown, saved;
fail chosen device operations."""

import contextlib

import numpy as np

from . import boot, core


class Device:
    """One screen and one disk. Every drawing or saving call is a device operation."""

    def __init__(self, fail_at=None, kind="os"):
        self.n = 0
        self.fail_at, self.kind = fail_at, kind
        self.raised = []
        self.failed_op = None
        self.frames = []  # scenes captured by screenshots
        self.shown = []  # scenes shown in a window
        self.files = {}  # path -> last complete content
        self.torn = set()
        self.figures_shown = []
        self.ops = []

    def op(self, name):
        self.n += 1
        self.ops.append(name)
        if self.n == self.fail_at:
            e = core.make_fault(self.kind, f"(device operation {self.n}, {name})")
            self.raised.append(e)
            self.failed_op = name
            raise e

    def save(self, path, content):
        path = str(path)
        self.files.pop(path, None)
        self.torn.add(path)  # what a failed save leaves is not a complete file
        self.op("save")
        self.torn.discard(path)
        self.files[path] = content


# 3D windows that nobody closed, and figures the user looks at. Showing a 3D window does not
# close it; a figure that was shown is closed by the user.
OPEN = []
SHOWN = []


def user_closes(everything=False):
    """The user closes the figures that were shown. After a failure he closes everything."""
    import matplotlib.pyplot as plt

    for fig in SHOWN:
        plt.close(fig)
    SHOWN.clear()
    if everything:
        plt.close("all")
        OPEN.clear()


def quads(mesh):
    """The faces of a surface, as an array (n, 4, 3)."""
    faces = np.asarray(mesh.faces).ravel()
    pts = np.asarray(mesh.points, dtype=float)
    out = []
    i = 0
    while i < len(faces):
        n = int(faces[i])
        out.append(pts[faces[i + 1 : i + 1 + n]])
        i += n + 1
    return out


def segments(mesh):
    lines = np.asarray(getattr(mesh, "lines", [])).ravel()
    pts = np.asarray(mesh.points, dtype=float)
    out = []
    i = 0
    while i < len(lines):
        n = int(lines[i])
        ids = lines[i + 1 : i + 1 + n]
        for a, b in zip(ids[:-1], ids[1:]):
            out.append((pts[a], pts[b]))
        i += n + 1
    return out


class Plotter:
    """Stands in for pyvista's window; keeps the scene that it would render."""

    device = None

    def __init__(self, *a, **k):
        self.scene = []
        self.device.op("open")
        OPEN.append(self)

    def close(self, *a, **k):
        OPEN[:] = [p for p in OPEN if p is not self]

    def add_mesh(self, mesh, *a, **k):
        if mesh.n_points == 0 and not k.get("render_points_as_spheres"):
            raise ValueError("Empty meshes cannot be plotted. Input mesh has zero points.")
        self.device.op("add_mesh")
        s = k.get("scalars")
        if isinstance(s, str):
            s = mesh[s]
        q = [np.array(x) for x in quads(mesh)]
        self.scene.append(
            {
                "quads": q,
                "segments": [(np.array(x), np.array(y)) for x, y in segments(mesh)],
                "scalars": None if s is None else np.array(s, dtype=float),
                "clim": k.get("clim"),
            }
        )

    def add_text(self, text, *a, **k):
        self.device.op("add_text")
        self.scene.append({"text": str(text)})

    def clear(self, *a, **k):
        self.scene = []

    def clear_actors(self, *a, **k):
        self.scene = []

    def show(self, *a, **k):
        self.device.op("show")
        self.device.shown.append(list(self.scene))

    def screenshot(self, *a, **k):
        self.device.op("screenshot")
        self.device.frames.append(list(self.scene))
        n = len(self.device.frames) - 1
        img = np.zeros((4, 4, 4), dtype=np.uint8)
        img[:, :, 0] = n % 256
        img[:, :, 1] = n // 256
        img[:, :, 3] = 255
        return img

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


def frame_of(img):
    """The number of the screenshot an image was made from."""
    a = np.asarray(img)
    return int(a[0, 0, 0]) + 256 * int(a[0, 0, 1])


def curves(fig):
    """What a figure shows: titles and labelled curves."""
    out = []
    for ax in fig.axes:
        lines = {}
        for ln in ax.get_lines():
            x, y = ln.get_data(orig=True)
            lines.setdefault(ln.get_label(), []).append((np.array(x, dtype=float), np.array(y, dtype=float)))
        out.append({"title": ax.get_title(), "xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel(), "lines": lines})
    return out


@contextlib.contextmanager
def installed(device, close=True):
    import matplotlib.figure
    import pyvista
    import webp

    cls = type("SimPlotter", (Plotter,), {"device": device})

    def save_image(img, file_path, *a, **k):
        device.save(file_path, {"frames": [frame_of(img)]})

    def save_images(imgs, file_path, *a, **k):
        fps = k.get("fps", a[0] if a else None)
        device.save(file_path, {"frames": [frame_of(i) for i in imgs], "fps": fps})

    def savefig(fig, fname, *a, **k):
        device.save(fname, {"figure": curves(fig)})

    def show(fig, *a, **k):
        device.op("figure.show")
        SHOWN.append(fig)
        device.figures_shown.append(curves(fig))

    def pshow(*a, **k):
        import matplotlib.pyplot as plt

        device.op("figure.show")
        for n in plt.get_fignums():
            SHOWN.append(plt.figure(n))
            device.figures_shown.append(curves(plt.figure(n)))

    def close_all(*a, **k):
        device.op("close")
        OPEN.clear()

    import matplotlib.pyplot as plt

    patches = [
        (pyvista, "Plotter", cls),
        (pyvista, "close_all", close_all),
        (webp, "save_image", save_image),
        (webp, "save_images", save_images),
        (matplotlib.figure.Figure, "savefig", savefig),
        (matplotlib.figure.Figure, "show", show),
        (plt, "show", pshow),
    ]
    saved = []
    mod = vars(boot.ps.output)
    for owner, name, new in patches:
        old = getattr(owner, name)
        saved.append((owner, name, old))
        setattr(owner, name, new)
        for k, v in list(mod.items()):  # names imported directly
            if v is old:
                saved.append((boot.ps.output, k, old))
                mod[k] = new
    try:
        yield device
    finally:
        for owner, name, old in saved:
            setattr(owner, name, old)
        if close:
            user_closes()
