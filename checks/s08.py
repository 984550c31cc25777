"""S08: outcome of a simulation alone (in a process of its own) vs. with other simulations before, inside, between its steps and in parallel."""
import hashlib
import os
import random
import sys
import threading

from dataclasses import replace

from shapely.affinity import rotate, translate
from shapely.geometry import LineString, box

from vlib import fresh
from vlib import simkit as K
from vlib import world as W
from vlib.core import Case, clone
import dg_commons
from dg_commons.sim.simulator import Simulator

ID = "S08"
RULE = ("distinct (way of mixing simulations, kinds of worlds, overlapping player names or not, number of simulations) plus the number "
        "of distinct step interleavings forced by the scheduler, each with all outcomes compared with those of the simulations run alone")
REQUIRE = {"reused": 40, "nested": 40, "interleaved": 30, "threads": 8, "preempted": 40, "preemptions": 2000, "context switches": 3000, "distinct schedules": 30, "siblings with another outcome": 40}
MIN_SITUATIONS = 14


def sub(c, k):
    """k-th world of the case"""
    return Case(c.prop, c.seed, f"{c.family}-{c.index}", k, c.tier)


def other_shape(s):
    """Another shape with the same bounds"""
    a, b, u, v = s.bounds
    return box(a, b, u, v) if s.geom_type == "Polygon" else LineString([(a, v), (u, b)])


RESHAPE = {"shapes": other_shape, "moved": lambda s: translate(s, 1.5, -1)}


def build(c, k, kind, record=False, light=False, twist=None):
    d = sub(c, k)
    if kind == "lf":
        w = K.lf_world(d, n=2 if light else None, steps=(6, 12) if light else (10, 25), record=record)
    else:
        w = K.world(d, record=record, kinds=None if kind == "world" else [kind], max_steps=(6, 20) if light else None,
                    obstacles=6 if twist else None, n=4 if twist else 2 if kind in W.KINDS else None, spread=5 if twist else None, reshape=RESHAPE.get(twist))
    x = w.ctx
    if twist == "bodies":
        for p, m in x.models.items():
            if isinstance(m, K.ToyModel):
                m.g = replace(m.g, e=1.1 - m.g.e, m=m.g.m * 3)
                m.shape = rotate(m.shape, 40, origin=(0, 0))
    elif twist == "goals" and x.missions:
        ps = sorted(x.missions)
        x.missions = {p: x.missions[q] for p, q in zip(ps, ps[1:] + ps[:1])}
        if len(ps) == 1:
            x.missions = {}
    elif twist == "clock":
        x.param = replace(x.param, dt_commands=x.param.dt_commands * 2 + x.param.dt)
    watch(x)
    return w


def watch(ctx):
    """Notes the shapes that are shown to the agents"""
    ctx.shown = []
    for p, ag in ctx.players.items():
        def get(obs, p=p, old=ag.get_commands):
            ctx.shown.append((p, str(obs.time), tuple((q, None if o.occupancy is None else hashlib.md5(o.occupancy.wkb).hexdigest()) for q, o in obs.players.items())))
            return old(obs)

        ag.get_commands = get


def outcome(ctx):
    return K.digest(ctx) + ctx.shown


def _alone(seed, prop, family, index, tier, k, kind, kw):
    return outcome(build(Case(prop, seed, family, index, tier), k, kind, **kw).run().ctx)


def alone(c, k, kind, **kw):
    return fresh.call(__name__, "_alone", c.seed, c.prop, c.family, c.index, c.tier, k, kind, kw)


def cmp(c, how, ref, ctx):
    d = K.first_difference(ref, outcome(ctx))
    c.true(d is None, f"the outcome of a simulation changes {how}", difference=d)


class Boom(Exception):
    pass


def reuse(c):
    kinds = [c.pick(["world", "toy", "lf"] if c.index % 4 == 0 else ["world", "toy"]) for _ in range(3)]
    refs = [alone(c, k, kd) for k, kd in enumerate(kinds)]
    sim = Simulator()
    crashed = False
    if c.chance(0.4):
        # a run that was aborted by an agent
        w = build(c, 7, "toy")
        p = w.order[c.int(0, len(w.order) - 1)]
        n = c.int(0, 4)

        def boom(ag, obs, pol=w.ctx.players[p].policy):
            if ag.n >= n:
                raise Boom()
            return pol(ag, obs)

        w.ctx.players[p].policy = boom
        try:
            w.run(sim)
        except Boom:
            crashed = True
            c.count("aborted runs")
    for i in (0, 1, 2, 1):
        w = build(c, i, kinds[i])
        w.run(sim)
        cmp(c, "when its simulator is reused", refs[i], w.ctx)
    c.count("reused")
    c.situation("reuse", *sorted(kinds), "after abort" if crashed else "")


def nested(c):
    ka, kb = c.pick(["world", "toy"]), c.pick(["toy", "toy", "world"])
    ra, rb = alone(c, 0, ka), alone(c, 1, kb)
    same_seed = c.chance(0.4)
    if same_seed:
        rb, kb = ra, ka
    a = build(c, 0, ka)
    victim = c.pick(a.order)
    when = {c.int(0, 6), 0 if c.chance(0.3) else c.int(0, 6)}
    old = a.ctx.players[victim].policy
    inner = []

    def policy(ag, obs):
        if ag.n in when:
            w = build(c, 0 if same_seed else 1, kb)
            w.run()
            inner.append(w)
        return old(ag, obs)

    a.ctx.players[victim].policy = policy
    a.run()
    cmp(c, "when another one runs inside of an agent", ra, a.ctx)
    for w in inner:
        cmp(c, "when it runs inside of an agent of another one", rb, w.ctx)
        c.count("nested")
    overlap = bool(inner) and bool(set(a.names) & set(inner[0].names))
    c.situation("nested", ka, kb, "same names" if overlap else "other names", len(inner))


def siblings(c):
    """Worlds that differ in one respect only, run one after the other and alternately in one process"""
    twists = [None] + c.rng.sample(["shapes", "shapes", "moved", "bodies", "goals", "clock"], 2)
    kind = c.pick(["toy", "toy", "world"])
    refs = {t: alone(c, 0, kind, twist=t or "none") for t in twists}
    c.count("siblings with another outcome", sum(refs[t] != refs[None] for t in twists))
    sim = Simulator() if c.chance(0.3) else None
    order = twists + twists[::-1]
    early = {t: build(c, 0, kind, twist=t or "none") for t in twists} if c.chance(0.5) else {}
    for t in order:
        w = early.pop(t, None) or build(c, 0, kind, twist=t or "none")
        w.run(sim)
        cmp(c, f"when it is run after one that differs from it ({t})", refs[t], w.ctx)
        c.situation("siblings", t, "one simulator" if sim else "", "built before" if early else "")


class Scheduler:
    """Hands the processor from one simulation to another at monitored events, as a seeded random schedule says"""

    def __init__(self, n, seed, p):
        self.rng, self.p = random.Random(seed), p
        self.cv = threading.Condition()
        self.turn = 0
        self.alive = set(range(n))
        self.log = []

    def start(self, i):
        with self.cv:
            self.cv.wait_for(lambda: self.turn == i)

    def point(self, i):
        with self.cv:
            if self.rng.random() < self.p and len(self.alive) > 1:
                self.turn = self.rng.choice(sorted(self.alive - {i}))
                self.log.append((i, self.turn))
                self.cv.notify_all()
                self.cv.wait_for(lambda: self.turn == i)

    def done(self, i):
        with self.cv:
            self.alive.discard(i)
            if self.alive:
                self.turn = self.rng.choice(sorted(self.alive))
            self.cv.notify_all()


def interleaved(c):
    n = c.int(2, 4)
    kinds = [c.pick(["world", "toy", "toy", "lf"] if c.index % 3 == 0 else ["world", "toy"]) for _ in range(n)]
    ks = [c.int(0, 1) if c.chance(0.3) else k for k in range(n)]  # sometimes the same world several times
    if len(set(ks)) < n:
        kinds = [kinds[ks[i]] if ks[i] < n else kinds[i] for i in range(n)]
    refs = [alone(c, k, kd, light=True) for k, kd in zip(ks, kinds)]
    ws = [build(c, k, kd, record=True, light=True) for k, kd in zip(ks, kinds)]
    sch = Scheduler(n, c.int(0, 10**9), c.pick([0.1, 0.5, 0.9]))
    errs = []

    def go(i):
        sch.start(i)
        try:
            ws[i].run()
        except BaseException as e:
            errs.append(e)
        finally:
            sch.done(i)

    for i, w in enumerate(ws):
        w.tr.hook = lambda e, i=i: sch.point(i)
    ths = [threading.Thread(target=go, args=(i,), daemon=True) for i in range(n)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if errs:
        raise errs[0]
    for r, w in zip(refs, ws):
        cmp(c, "when the steps of several simulations are interleaved", r, w.ctx)
    c.count("interleaved", n)
    c.count("context switches", len(sch.log))
    c.count("distinct schedules")
    names = [x for w in ws for x in w.names]
    c.situation("interleaved", n, "lf" if "lf" in kinds else "no lf", "same names" if len(names) > len(set(names)) else "other names",
                "same worlds" if len(set(ks)) < n else "")
    c.note(schedule=hashlib.sha256(repr(sch.log).encode()).hexdigest(), switches=len(sch.log))


def threads(c):
    n = c.int(3, 6)
    kinds = [c.pick(["world", "toy", "lf"]) for _ in range(n)]
    if c.chance(0.5):
        kinds = [c.pick(list(W.KINDS))] * n
    refs = [alone(c, k, kd, light=True) for k, kd in enumerate(kinds)]
    ws = [build(c, k, kd, light=True) for k, kd in enumerate(kinds)]
    errs = []
    bar = threading.Barrier(n)

    def go(w):
        try:
            bar.wait()
            w.run()
        except BaseException as e:
            errs.append(e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(c.pick([1e-6, 1e-5, 1e-4]))
    try:
        ths = [threading.Thread(target=go, args=(w,), daemon=True) for w in ws]
        [t.start() for t in ths]
        [t.join() for t in ths]
    finally:
        sys.setswitchinterval(old)
    if errs:
        raise errs[0]
    for r, w in zip(refs, ws):
        cmp(c, "when several simulations run concurrently in threads", r, w.ctx)
    c.count("threads")
    c.situation("threads", "lf" if "lf" in kinds else "no lf")


HERE = os.path.dirname(dg_commons.__file__) + os.sep


class Preempt(Scheduler):
    """As above, at lines of the library; all run freely once nobody gets on (somebody may wait for a lock)"""

    def __init__(self, n, seed, p):
        super().__init__(n, seed, p)
        self.free, self.seen = False, 0

    def wait(self, i):
        while not (self.turn == i or self.free):
            n = self.seen
            if not self.cv.wait_for(lambda: self.turn == i or self.free, timeout=3) and self.seen == n:
                self.free = True
                self.cv.notify_all()

    def start(self, i):
        with self.cv:
            self.wait(i)

    def point(self, i):
        self.seen += 1
        if self.free or self.rng.random() >= self.p or len(self.alive) < 2:
            return
        with self.cv:
            self.turn = self.rng.choice(sorted(self.alive - {i}))
            self.log.append((i, self.turn))
            self.cv.notify_all()
            self.wait(i)

    def tracer(self, i):
        def local(frame, event, arg):
            if event == "line":
                self.point(i)
            return local

        def tr(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(HERE) else None

        return tr


def preempted(c):
    """Simulations in threads that are interrupted in the middle of the library's functions"""
    kind = list(W.KINDS)[c.index % len(W.KINDS)] if c.chance(0.8) else c.pick(["toy", "world"])
    n = c.pick([2, 2, 3])
    refs = [alone(c, k, kind, light=True) for k in range(n)]
    ws = [build(c, k, kind, light=True) for k in range(n)]
    build(c, 9, kind, light=True).run()  # what is imported late is there
    sch = Preempt(n, c.int(0, 10**9), 10 ** c.u(-3, -1))
    errs = []

    def go(i):
        sch.start(i)
        sys.settrace(sch.tracer(i))
        try:
            ws[i].run()
        except BaseException as e:
            errs.append(e)
        finally:
            sys.settrace(None)
            sch.done(i)

    ths = [threading.Thread(target=go, args=(i,), daemon=True) for i in range(n)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if errs:
        raise errs[0]
    for r, w in zip(refs, ws):
        cmp(c, "when several simulations in threads are interrupted anywhere", r, w.ctx)
    c.count("preempted", n)
    c.count("preemptions", len(sch.log))
    c.situation("preempted", kind, n, "no more order" if sch.free else "")


def fresh_objects(c):
    """Simulators and contexts that exist at the same time share nothing"""
    w1, w2 = build(c, 0, "toy"), build(c, 1, "toy")
    s1, s2 = Simulator(), Simulator()
    r1, r2 = alone(c, 0, "toy"), alone(c, 1, "toy")
    w1.run(s1)
    d1 = outcome(w1.ctx)
    w2.run(s2)
    cmp(c, "when another simulator exists", r2, w2.ctx)
    c.true(outcome(w1.ctx) == d1 == r1, "the record of a finished simulation changed when another one was run")
    w3 = build(c, 1, "toy")
    w3.run(s1)
    c.true(outcome(w1.ctx) == d1, "the record of a finished simulation changed when its simulator was used again")
    c.situation("fresh objects")


FAMILIES = [("siblings", siblings, 60, 1500), ("reuse", reuse, 48, 1500), ("nested", nested, 48, 1500), ("interleaved", interleaved, 40, 1500),
            ("threads", threads, 16, 200), ("preempted", preempted, 32, 800), ("fresh objects", fresh_objects, 20, 300)]
