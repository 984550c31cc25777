"""A film camera: stands in for the video encoder, looks at the figure at every frame and records what is on display."""
from __future__ import annotations

import os
from contextlib import contextmanager

import matplotlib

matplotlib.use("Agg")
import numpy as np  # noqa: E402
from matplotlib import animation, collections, colors, lines, patches, text  # noqa: E402
from matplotlib import pyplot as plt  # noqa: E402
from matplotlib.path import Path  # noqa: E402


def rgb(c):
    return tuple(round(float(v), 9) for v in colors.to_rgb(c))


def rgba(c, alpha=None):
    return tuple(round(float(v), 9) for v in colors.to_rgba(c, alpha))


def look(ax) -> dict:
    """Everything visible in the axes, in data coordinates"""
    s = dict(polys=[], circles=[], other=[], texts=[], lines=[], segments=[], markers=[], arrows=[])
    for a in ax.get_children():
        if a in (ax.patch, ax.xaxis, ax.yaxis, ax.title, ax._left_title, ax._right_title) or a in ax.spines.values():
            continue
        if not a.get_visible():
            continue
        z = float(a.get_zorder())
        if isinstance(a, patches.FancyArrow):
            s["arrows"].append(dict(xy=np.array(a.get_xy()), x=float(a._x), y=float(a._y), dx=float(a._dx), dy=float(a._dy), fc=rgb(a.get_facecolor()), z=z))
        elif isinstance(a, patches.Polygon):
            s["polys"].append(dict(xy=np.array(a.get_xy(), dtype=float), fc=rgb(a.get_facecolor()), alpha=a.get_alpha(), z=z, fill=a.get_fill(),
                                   mean_alpha=float(a.get_facecolor()[3])))
        elif isinstance(a, patches.Circle):
            s["circles"].append(dict(c=np.array(a.center, dtype=float), r=float(a.radius), fc=rgb(a.get_facecolor()), z=z))
        elif isinstance(a, patches.PathPatch):
            s["polys"].append(dict(path=a.get_path(), xy=np.array(a.get_path().vertices, dtype=float), fc=rgb(a.get_facecolor()), alpha=a.get_alpha(), z=z, fill=a.get_fill(),
                                   mean_alpha=float(a.get_facecolor()[3])))
        elif isinstance(a, text.Text):
            tr = a.get_transform()
            xy = np.array(a.get_position(), dtype=float)
            s["texts"].append(dict(s=a.get_text(), xy=xy, axes=tr == ax.transAxes, z=z, color=a.get_color()))
        elif isinstance(a, lines.Line2D):
            s["lines"].append(dict(xy=np.array(a.get_xydata(), dtype=float), c=rgb(a.get_color()), marker=a.get_marker(), ls=a.get_linestyle(), label=a.get_label(), z=z,
                                   drawstyle=a.get_drawstyle()))
        elif isinstance(a, collections.LineCollection):
            s["segments"].append(dict(segs=[np.array(v, dtype=float) for v in a.get_segments()], cols=[rgb(v) for v in a.get_colors()], z=z))
        elif isinstance(a, collections.PathCollection):
            s["markers"].append(dict(xy=np.array(a.get_offsets(), dtype=float), z=z))
        else:
            s["other"].append((type(a).__name__, z))
    s["xlim"], s["ylim"] = tuple(map(float, ax.get_xlim())), tuple(map(float, ax.get_ylim()))
    return s


class Camera(animation.AbstractMovieWriter):
    """Registered in place of the real encoder"""

    films: list = []

    def __init__(self, fps=5, codec=None, bitrate=None, extra_args=None, metadata=None):
        self.fps, self.frames, self.finished = fps, [], False
        super().__init__(fps=fps, metadata=metadata, codec=codec, bitrate=bitrate)

    @classmethod
    def isAvailable(cls):
        return True

    def setup(self, fig, outfile, dpi=None):
        self.outfile, self.fig, self.dpi = outfile, fig, dpi
        fig.canvas.draw_idle = lambda *a, **k: None  # nobody watches the screen
        Camera.films.append(self)

    def grab_frame(self, **kw):
        self.frames.append(look(self.fig.axes[0]))

    def finish(self):
        self.finished = True


@contextmanager
def camera():
    """Within: every video that is written is recorded instead; yields the list of films"""
    reg = animation.writers._registered
    old, Camera.films = dict(reg), []
    for k in list(reg) + ["ffmpeg", "pillow", "imagemagick", "html", "ffmpeg_file"]:
        reg[k] = Camera
    try:
        yield Camera.films
    finally:
        reg.clear()
        reg.update(old)
        plt.close("all")
