"""V02: delayed sensing never leaks fresh information."""
from vlib import triangulate  # before anything of dg_commons
from bisect import bisect_right
from dataclasses import replace
from decimal import Decimal as D

from frozendict import frozendict

from vlib import simkit as K
from vlib import world as W
from dg_commons.perception.sensor import FullRangeSensor
from dg_commons.sim.scenarios import DgScenario
from dg_commons.sim.sim_perception import DelayedObsFilter, FovObsFilter, GhostObsFilter, IdObsFilter, ObsFilter
from dg_commons.sim.simulator_structures import PlayerObservations, SimObservations

ID = "V02"
RULE = ("distinct (inner sensor, latency relative to the polling, polling pattern, how many observations back the answer was) classes "
        "in which the answer of a delayed sensor was compared with the recorded history of its inner sensor")
REQUIRE = {"answers compared": 4000, "answers before the latency elapsed": 600, "delayed answers": 2000, "nested answers": 600, "answers in simulation": 1000, "long histories": 30, "polls while nobody moves": 500}
MIN_SITUATIONS = 120


class Rec(ObsFilter):
    """records what the inner sensor delivered, and when"""

    def __init__(self, inner):
        self.inner, self.seen = inner, []

    def sense(self, scenario, full_obs, pov):
        out = self.inner.sense(scenario, full_obs, pov)
        self.seen.append((full_obs.time, snapshot(out), out))
        return out


def snapshot(obs):
    return {n: (type(p.state).__name__, W.vals(p.state).tolist(), p.occupancy.wkb) for n, p in obs.players.items()}


def expected(seen, L, t):
    old = [s for s in seen if s[0] <= t - L]
    return (old[-1] if old else seen[0]), len(seen) - (len(old) if old else 1), not old


def inner_of(c):
    k = c.pick(["everything", "everything", "range", "ghost", "dropping"])
    f = {"everything": IdObsFilter, "range": lambda: FovObsFilter(FullRangeSensor(range=c.u(5, 30))), "ghost": lambda: GhostObsFilter(IdObsFilter(), "P1", c.u(0, 20)),
         "dropping": lambda: K.DropSensor(c.int(2, 3))}[k]()
    return k, f


class Traffic:
    """players moving about, some leaving and coming"""

    def __init__(self, c):
        self.c = c
        self.models = {f"P{i}": W.spec(c, c.pick(W.KINDS), at=(c.u(-15, 15), c.u(-15, 15), c.ang())).build() for i in range(c.int(1, 4))}
        self.still, self.last = 0, None

    def at(self, t):
        c = self.c
        out = {}
        self.still = self.still - 1 if self.still else c.int(1, 9) if c.chance(0.06) else 0
        if self.still and self.last is not None:
            # nobody moves, comes or goes
            c.count("polls while nobody moves")
            return SimObservations(players=self.last, time=t) if c.chance(0.5) else SimObservations(players=frozendict(self.last), time=t)
        for n, m in self.models.items():
            s = m.get_state()
            s.x += c.u(-1, 1)
            s.y += c.u(-1, 1)
            m.set_state(s)
            if n == "P0" or c.chance(0.85):
                out[n] = PlayerObservations(state=m.get_state(), occupancy=m.get_footprint())
        self.last = frozendict(out)
        return SimObservations(players=self.last, time=t)


def polls(c):
    """(pattern, polling times, latency)"""
    dt = c.pick(K.DTS)
    t0 = c.pick([D(0), D(0), D("1.3"), D(7)])
    n = c.int(15, 40)
    how = c.pick(["regular", "irregular", "sparse", "bursts"])
    if how == "regular":
        ts = [t0 + i * dt for i in range(n)]
    elif how == "sparse":
        ts = [t0 + i * dt * 7 for i in range(n // 2)]
    elif how == "irregular":
        k, ts = 0, []
        for _ in range(n):
            ts.append(t0 + k * dt)
            k += c.pick([1, 1, 2, 3, 9])
    else:
        k, ts = 0, []
        for _ in range(n):
            ts.append(t0 + k * dt)
            k += c.pick([0, 1, 1, 12])  # also twice at the same time
    lat = c.pick(["zero", "period", "multiple", "off grid", "long", "tiny"])
    L = {"zero": D(0), "period": dt, "multiple": c.int(2, 8) * dt, "off grid": D(str(round(c.u(0.2, 6), 3))) * dt, "long": D(100), "tiny": D("0.001")}[lat]
    return how, ts, lat, L


SCEN = DgScenario()


def compare(c, flt, rec, ts, L, traffic, where):
    for t in ts:
        full = traffic.at(t)
        untouched = snapshot(full)
        got = flt.sense(SCEN, full, "P0")
        (made, content, _), back, early = expected(rec.seen, L, t)
        kw = dict(t=t, latency=L, made=[s[0] for s in rec.seen][-12:])
        c.true(isinstance(got, SimObservations), "an observation is returned")
        c.eq(got.time, made + L, "the answer is stamped with the time it was made plus the latency", **kw)
        c.eq(snapshot(got), content, "the answer is what the inner sensor delivered at that time", **kw)
        c.eq(snapshot(full), untouched, "the full observation is left untouched")
        c.eq(full.time, t, "the full observation keeps its time")
        c.count("answers compared")
        c.count("answers before the latency elapsed" if early else "delayed answers")
        c.situation(*where, "early" if early else min(back, 10))


def history(c):
    how, ts, lat, L = polls(c)
    k, inner = inner_of(c)
    rec = Rec(inner)
    flt = DelayedObsFilter(rec, L)
    c.note(pattern=how, latency=L, inner=k)
    compare(c, flt, rec, ts, L, Traffic(c), (k, lat, how))
    c.eq(len(rec.seen), len(ts), "the inner sensor is asked once per poll")
    # earlier answers have not been altered since
    for t, content, out in rec.seen:
        c.eq(snapshot(out), content, "what the inner sensor delivered is not altered")
        c.eq(out.time, t, "time stamps of what the inner sensor delivered are not altered")


def nested(c):
    """delays add up, and other filters around or within a delay commute with it"""
    dt = c.pick(K.DTS)
    ts = [i * dt for i in range(c.int(15, 40))]
    a, b = c.int(0, 6), c.int(0, 6)
    rec = Rec(IdObsFilter())
    two = DelayedObsFilter(DelayedObsFilter(rec, a * dt), b * dt)
    traffic = Traffic(c)
    ghost = c.pick(["P1", "P2", "nobody"])
    d = c.u(0, 25)
    inside, around = DelayedObsFilter(GhostObsFilter(IdObsFilter(), ghost, d), a * dt), GhostObsFilter(DelayedObsFilter(IdObsFilter(), a * dt), ghost, d)
    for t in ts:
        full = traffic.at(t)
        got = two.sense(SCEN, full, "P0")
        made, content, _ = expected(rec.seen, (a + b) * dt, t)[0]
        c.eq(snapshot(got), content, "two delays amount to one of their sum", t=t, latencies=(a * dt, b * dt))
        if t >= (a + b) * dt:
            c.eq(got.time, t, "time stamps of two delays add up", latencies=(a * dt, b * dt))
        x, y = inside.sense(SCEN, full, "P0"), around.sense(SCEN, full, "P0")
        c.eq((x.time, snapshot(x)), (y.time, snapshot(y)), "ghosting before or after a delay is the same", t=t)
        c.count("nested answers")
        c.situation("nested", min(a, 3), min(b, 3), ghost, "early" if t < (a + b) * dt else "late")


def simulation(c):
    """the delay as experienced by agents in a simulation"""
    w = K.world(c, n=c.int(2, 4), sensors=False)
    recs, hist = {}, {}
    for n in w.names:
        k, inner = inner_of(c)
        L = c.pick([D(0), D("0.1"), D("0.05"), D("0.17"), D("0.33"), D(1)])
        recs[n] = (Rec(inner), L, k)
        w.ctx.sensors[n] = DelayedObsFilter(recs[n][0], L)
    t0 = w.t0
    w.run()
    truth = {}
    n_compared = 0
    for e in w.tr.of("poll"):
        t, obs = e.a
        rec, L, k = recs[e.who]
        (made, content, _), back, early = expected([s for s in rec.seen if s[0] <= e.t], L, e.t)
        c.eq(t, made + L, "time stamp of what an agent was told", agent=e.who, latency=L, at=e.t)
        c.eq({p: (type(s).__name__, W.vals(s).tolist(), o.wkb) for p, (s, o) in obs.items()}, content, "what an agent was told", agent=e.who, latency=L, at=e.t)
        c.true(early or made <= e.t - L, "an agent was told something fresh")
        c.count("answers in simulation")
        c.situation("simulation", k, "early" if early else min(back, 6))


def long(c):
    """latencies of very many polls: nothing that is still owed may be forgotten, at any age"""
    n = c.pick([150, 300, 600, 1100])
    back = c.pick([n // 8, n // 2, n // 2, n - 5])
    dt = c.pick(K.DTS)
    m = W.spec(c, "bicycle", at=(0, 0, 0)).build()
    s, foot = m.get_state(), m.get_footprint()
    L = back * dt + c.pick([0, 0, c.int(1, 3)]) * dt / 4
    flt = DelayedObsFilter(IdObsFilter(), L)
    made = []
    step = c.pick([1, 1, 2])
    rest = c.pick([1, 1, 2, 7])  # polls between two movements
    for i in range(n):
        t = i * step * dt
        full = SimObservations(players=frozendict({"P0": PlayerObservations(state=replace(s, x=float(i // rest)), occupancy=foot)}), time=t)
        made.append(t)
        got = flt.sense(SCEN, full, "P0")
        k = max(bisect_right(made, t - L) - 1, 0)
        c.true(got.players["P0"].state.x == k // rest, "the answer is what the inner sensor delivered at that time", at=t, latency=L, polls=i + 1, answer=got.players["P0"].state.x, expected=k // rest)
        c.eq(got.time, made[k] + L, "the answer is stamped with the time it was made plus the latency", at=t)
    c.count("long histories")
    c.situation("long", n, back)


FAMILIES = [("long", long, 40, 600), ("history", history, 240, 6000), ("nested", nested, 60, 1500), ("simulation", simulation, 60, 1500)]
