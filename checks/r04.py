"""R04: plots of collisions and of the logs of players."""
import functools
from collections import Counter
from dataclasses import fields

import numpy as np
from shapely.geometry import Polygon

from vlib import film, simkit as K, world as W
from vlib.film import plt
from checks import r01
from dg_commons.sim.collision_structures import combine_collision_reports
from dg_commons.sim.collision_visualisation import plot_collision
from dg_commons.sim.log_visualisation import plot_player_log, plot_players_logs

ID = "R04"
RULE = ("distinct (pair of colliding kinds, with the environment or not, kind of obstacle) classes of plotted collisions and (model kind, "
        "selection of players, figure) classes of plotted logs whose curves, arrows, outlines and labels were compared with report and log")
REQUIRE = {"summed up": 6, "long logs": 8, "collisions": 80, "arrows": 400, "outlines": 160, "environment": 15, "curves": 1500, "logs": 150, "locations": 100}
MIN_SITUATIONS = 60


def cross(w, r):
    return np.array([-w * r[1], w * r[0]])


def collision(c, ctx, rep):
    plt.close("all")
    plt.figure()
    plot_collision(rep, ctx.log)
    ax = plt.gca()
    s = film.look(ax)
    p = np.array(rep.impact_point.coords[0])
    n = np.asarray(rep.impact_normal, dtype=float)
    dots = [d for d in s["lines"] if d["xy"].shape == (1, 2)]
    c.eq(len(dots), 1, "one impact point")
    c.close(dots[0]["xy"][0], p, "impact point", atol=1e-9)
    arrows = list(s["arrows"])

    def take(x, v, what, scale=None, **kw):
        v = np.asarray(v, dtype=float)
        for i, d in enumerate(arrows):
            if not np.allclose([d["x"], d["y"]], x, atol=1e-7):
                continue
            w = np.array([d["dx"], d["dy"]])
            if scale is None:
                ok = abs(w[0] * v[1] - w[1] * v[0]) < 1e-7 * max(1, np.linalg.norm(v)) and w @ v >= 0 and (np.linalg.norm(w) > 0 or np.linalg.norm(v) < 1e-12)
            else:
                ok = np.allclose(w, scale * v, atol=1e-6 * max(1, np.linalg.norm(v)))
            if ok and all(d[k] == q for k, q in kw.items()):
                arrows.pop(i)
                c.count("arrows")
                return d
        c.fail(f"arrow of {what} is missing", at=x, vector=v, arrows=[(d["x"], d["y"], d["dx"], d["dy"]) for d in arrows])

    # common scale of the velocity arrows, from the figure itself
    big = max(((np.linalg.norm(r.velocity[0]), q) for q, r in rep.players.items()), default=(0, None))
    centres = {}
    for q, r in rep.players.items():
        if q in ctx.log:
            st, _ = r01.interpolate(ctx.log[q], float(rep.at_time))
            centres[q] = np.array([st.x, st.y])
        else:
            centres[q] = np.array(r.footprint.centroid.coords[0])
            c.count("environment")
    scale = None
    if big[0] > 1e-3:
        v = np.asarray(rep.players[big[1]].velocity[0], dtype=float)
        for d in arrows:
            w = np.array([d["dx"], d["dy"]])
            if np.allclose([d["x"], d["y"]], centres[big[1]], atol=1e-7) and w @ v > 0 and abs(w[0] * v[1] - w[1] * v[0]) < 1e-6 * np.linalg.norm(v):
                k = (w @ v) / (v @ v)
                if scale is None or abs(k - 0.3) < abs(scale - 0.3):
                    scale = k
        c.true(scale is not None, "the velocity before the impact is displayed at the player", player=big[1], at=centres[big[1]], v=v,
               arrows=[(d["x"], d["y"], d["dx"], d["dy"]) for d in arrows])
    take(p, n, "impact normal")
    texts = Counter(x["s"] for x in s["texts"])
    outl = [d["xy"] for d in s["lines"] if len(d["xy"]) > 1]
    fills = [d["xy"] for d in s["polys"]]
    for q, r in rep.players.items():
        x = centres[q]
        take(x, r.velocity[0], f"velocity of {q} before", scale)
        take(x, r.velocity_after[0], f"velocity of {q} after", scale)
        take(p, np.asarray(r.velocity[0]) + cross(r.velocity[1], p - x), f"velocity of {q} at the impact point", scale)
        ring = np.array((r.footprint.exterior if isinstance(r.footprint, Polygon) else r.footprint).coords)[:, :2]
        k = [i for i, o in enumerate(outl) if o.shape == ring.shape and np.allclose(o, ring, atol=1e-9)]
        c.true(bool(k), f"outline of {q}", expected=ring, shown=outl)
        outl.pop(k[0])
        c.count("outlines")
        lab = [t for t in s["texts"] if t["s"] == str(q) and np.allclose(t["xy"], x, atol=1e-6)]
        c.true(len(lab) >= 1, f"label of {q}", at=x, texts=[(t["s"], t["xy"]) for t in s["texts"]])
        texts[str(q)] -= 1
        for w in (r.velocity[1], r.velocity_after[1]):
            c.true(any(_number(t, w) for t in texts.elements()), f"rotational velocity of {q}", value=w, texts=list(texts))
        for name, loc in r.locations:
            lr = np.array((loc.exterior if isinstance(loc, Polygon) else loc).coords)[:, :2]
            c.true(any(len(f) in (len(lr), len(lr) + 1, len(lr) - 1) and np.allclose(f[: min(len(f), len(lr))], lr[: min(len(f), len(lr))], atol=1e-9) for f in fills),
                   f"impact location {name} of {q} is marked", expected=lr)
            c.true(texts[str(name)] > 0, f"impact location {name} of {q} is named", texts=list(texts))
            c.count("locations")
    c.true(not outl, "no other outlines", extra=outl)
    c.true(not arrows, "no other arrows", extra=[(d["x"], d["y"], d["dx"], d["dy"]) for d in arrows])
    c.count("collisions")
    plt.close("all")


def _number(t, w):
    try:
        return abs(float(t) - w) <= 6e-4 + 1e-6 * abs(w)
    except ValueError:
        return False


def crashes(c):
    w = K.world(c, n=c.int(2, 4), kinds=W.KINDS, crowded=True, obstacles=c.int(0, 3), sensors=False, extras=False, missions=0.0,
                max_steps=(15, 40), spread=4, after=None, record=False).run()
    ctx = w.ctx
    kinds = {p: s.kind for p, s in w.init_specs.items()}
    n = 0
    for rep in ctx.collision_reports:
        if rep.impact_point is None or any(r is None for r in rep.players.values()):
            continue
        collision(c, ctx, rep)
        qs = sorted(kinds.get(q, "env:" + rep.players[q].footprint.geom_type) for q in rep.players)
        c.situation("crash", *qs)
        n += 1
        if n >= 4:
            break
    # accidents summed up from several reports: a side may be hit more than once
    by = {}
    for rep in ctx.collision_reports:
        if rep.impact_point is not None and all(r is not None for r in rep.players.values()):
            by.setdefault(frozenset(rep.players), []).append(rep)
    for reps in by.values():
        if len(reps) > 1:
            rep = functools.reduce(combine_collision_reports, reps[: c.int(2, 4)])
            collision(c, ctx, rep)
            c.count("summed up")
            break


# ------------------------------------------------------------------ logs
def value(x):
    return x if isinstance(x, str) else float(x)


def curves(c, axes, lg, p):
    """The axes of one player, field by field"""
    want = [(f.name, lg.states, False) for f in fields(lg.states.values[0])] + [(f.name, lg.commands, True) for f in fields(lg.commands.values[0])]
    c.eq(len(axes), len(want), f"one diagram per state and command of {p}")
    for ax, (name, seq, step) in zip(axes, want):
        ls = [d for d in film.look(ax)["lines"] if not d["label"].startswith("_")] or film.look(ax)["lines"]
        c.eq(len(ls), 1, f"one curve of {p}.{name}")
        d = ls[0]
        c.eq(d["label"], name, f"name of the curve of {p}")
        leg = ax.get_legend()
        c.true(leg is not None and [t.get_text() for t in leg.get_texts()] == [name], f"legend of {p}.{name}")
        ts = [float(t) for t in seq.timestamps]
        vs = [getattr(v, name) for v in seq.values]
        line = [x for x in ax.get_lines() if x.get_label() == d["label"]][0]
        c.close([float(t) for t in line.get_xdata(orig=True)], ts, f"times of {p}.{name}", atol=1e-12)
        got = list(line.get_ydata(orig=True))
        c.eq(len(got), len(vs), f"samples of {p}.{name}")
        for g, v in zip(got, vs):
            c.true(value(g) == value(v), f"value of {p}.{name}", got=g, expected=v)
        if step and len(ts) > 1:
            # what the diagram shows between two polls is the command in force
            c.true(line.get_drawstyle() == "steps-post", f"{p}.{name} holds from the instant it is given", drawstyle=line.get_drawstyle())
        c.count("curves")


def logs(c):
    kinds = [W.KINDS[(c.index + 5 * i) % len(W.KINDS)] for i in range(c.int(1, 3))]
    ctx, specs = r01.synthetic(c, kinds)
    plt.close("all")
    names = list(ctx.log)
    before = r01.digest(ctx.log)
    k = c.index % 4
    how_fig = c.pick(["given", "not current", "current"])

    def shown(lg, **kw):
        if how_fig == "not current":
            other = plt.figure()
        plot_players_logs(lg, *([] if how_fig == "current" else [fig]), **kw)
        if how_fig == "not current":
            c.true(not any(ax.lines for ax in other.axes), "nothing is drawn in other figures")

    if k == 0:  # the current figure
        p = c.pick(names)
        fig = plt.figure()
        plot_player_log(ctx.log[p])
        sel, how = [p], "current"
    elif k == 1:  # a given figure that is not the current one
        p = c.pick(names)
        fig = plt.figure()
        other = plt.figure()
        plot_player_log(ctx.log[p], fig)
        for ax in other.axes:
            c.true(not ax.lines, "nothing is drawn in other figures")
        sel, how = [p], "given"
    elif k == 2:
        fig = plt.figure()
        shown(ctx.log)
        sel, how = names, "all"
    else:
        fig = plt.figure()
        sel = [p for p in names if c.chance(0.5)]
        shown(ctx.log, only_players=set(sel) | ({"nobody"} if c.chance(0.3) else set()))
        how = "some"
    axes = [a for a in fig.axes if a.lines]
    i = 0
    for p in sel:
        lg = ctx.log[p]
        n = len(fields(lg.states.values[0])) + len(fields(lg.commands.values[0]))
        curves(c, axes[i: i + n], lg, p)
        c.situation("log", specs[p].kind, how)
        c.count("logs")
        i += n
    c.eq(i, len(axes), "no other diagrams")
    c.eq(r01.digest(ctx.log), before, "plotting does not modify the log")
    plt.close("all")


def long_logs(c):
    """hours of driving: every sample is shown"""
    ctx, specs = r01.synthetic(c, [c.pick(W.KINDS)], n=c.pick([c.int(300, 1200), c.int(1200, 4000)]))
    plt.close("all")
    (p,) = ctx.log
    fig = plt.figure()
    plot_player_log(ctx.log[p], fig)
    curves(c, [a for a in fig.axes if a.lines], ctx.log[p], p)
    c.count("long logs")
    c.situation("long log", specs[p].kind)
    plt.close("all")


FAMILIES = [("long logs", long_logs, 12, 150), ("crashes", crashes, 70, 1200), ("logs", logs, 160, 2000)]
