"""S07: digests of repeated runs (same process, other interpreter processes with other hash seeds) and of replays of logs."""
import hashlib
import json
import os
import pathlib
import subprocess
import sys
from copy import deepcopy

from vlib import digests
from vlib import simkit as K
from vlib.core import clone
from dg_commons.sim.agents.agent import NPAgent
from dg_commons.sim.sim_perception import IdObsFilter

ID = "S07"
RULE = ("distinct (kind of world, kind of repetition: same process, other interpreter with another hash seed, replay of the "
        "logged commands; collisions; departures) for which complete outcomes were compared bit by bit")
REQUIRE = {"repeated in process": 60, "repeated in another process": 40, "hash seeds": 4, "replays": 60}
MIN_SITUATIONS = 10
VERIF = pathlib.Path(__file__).resolve().parents[1]
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))


def sit(c, how, kind, ctx):
    c.situation(how, kind, "collision" if ctx.collision_reports else "free", "left" if len(ctx.players) < len(ctx.models) else "all")


def build(c, kind):
    return K.lf_world(c) if kind == "lf" else K.world(c, record=False)


def twice(c):
    kind = "lf" if c.index % 3 == 0 else "world"
    a = build(clone(c), kind).run()
    b = build(clone(c), kind).run()
    d = K.first_difference(K.digest(a.ctx), K.digest(b.ctx))
    c.true(d is None, "two runs from equal initial data differ", difference=d)
    c.count("repeated in process")
    sit(c, "twice", kind, a.ctx)


def undelayed(w):
    """Non-playing agents go by the time stamp of what they observe: give them sensors that do not delay it"""
    w.ctx.sensors = {p: IdObsFilter() for p in w.order}
    return w


def replay(c):
    kind = "lf" if c.index % 3 == 0 else "world"
    a = build(clone(c), kind).run()
    log = a.ctx.log
    b = undelayed(build(clone(c), kind))
    b.ctx.players = {p: NPAgent(log[p].commands) for p in b.order}
    b.run()
    d = K.first_difference(K.digest(a.ctx, extras=False), K.digest(b.ctx, extras=False))
    c.true(d is None, "replaying the logged commands does not reproduce the run", difference=d)
    # and once more from the log of the replay, partially
    e = undelayed(build(clone(c), kind))
    e.ctx.players = {p: (NPAgent(b.ctx.log[p].commands) if i % 2 else e.ctx.players[p]) for i, p in enumerate(e.order)}
    e.run()
    d = K.first_difference(K.digest(a.ctx, extras=False), K.digest(e.ctx, extras=False))
    c.true(d is None, "replaying only some of the players does not reproduce the run", difference=d)
    c.count("replays")
    sit(c, "replay", kind, a.ctx)


def processes(c):
    """The same worlds in a fresh interpreter with another hash seed"""
    hs = [1, 2, 4242, 99, 31337, 7, 123456, 5][c.index % 8]
    scen = str(REPO / "scenarios")
    fam = f"p{c.index // 8}"
    jobs = [[ID, c.seed, fam, i, "lf" if i % 2 else "world", scen] for i in range(8)]
    jobs += [[ID, c.seed, fam, 0, n, scen] for n in (["USA_Phoenix-51_10_T-1"] if c.index % 4 == 0 else [])]
    if c.tier == "thorough":
        jobs += [[ID, c.seed, fam, 0, "ESP_Barcelona-20_23_T-1", scen]]
    env = dict(os.environ, PYTHONHASHSEED=str(hs))
    r = subprocess.run([sys.executable, "-B", str(VERIF / "vlib" / "digests.py")], input=json.dumps(jobs), capture_output=True,
                       text=True, env=env, timeout=600)
    lines = [l for l in r.stdout.splitlines() if l.startswith("RESULT ")]
    c.true(r.returncode == 0 and lines, "worlds that run here fail in a fresh interpreter", err=r.stderr[-1500:])
    res = json.loads(lines[-1][7:])
    c.count("hash seeds")
    for j, other in zip(jobs, res):
        mine = digests.outcome(*j)
        h = [hashlib.sha256(repr(x).encode()).hexdigest() for x in mine]
        bad = [repr(x)[:60] for x, p, q in zip(mine, h, other) if p != q]
        c.true(h == other, f"the outcome depends on the interpreter (hash seed {hs})", world=j[:5], differing=bad)
        c.count("repeated in another process")
        c.situation("process", j[4], hs)


FAMILIES = [("twice", twice, 80, 2000), ("replay", replay, 80, 2000), ("processes", processes, 8, 64)]
