"""S03: recording sensors compare every snapshot with the models' states at the beginning of the step."""
from vlib import simkit as K

ID = "S03"
RULE = ("distinct (number of active players, position of the sensing player in the step, some players already moved, "
        "some players left, sensor kind) situations in which a snapshot handed to a sensor was compared player by player with the "
        "physical states and footprints at the beginning of the step")
REQUIRE = {"snapshots checked": 1500, "player observations checked": 4000, "snapshots after others moved": 800,
           "snapshots after others left": 100, "deliveries checked": 1500, "worlds with players on the spot": 30}
MIN_SITUATIONS = 30


class Monitor:
    """Online: knows at each event what the world looked like before the step"""

    def __init__(self, c, w):
        self.c, self.w = c, w
        self.t = None

    def __call__(self, e):
        if e.kind not in ("sense", "sensed", "poll", "advance", "update"):
            return
        c, ctx = self.c, self.w.ctx
        if e.t != self.t:
            # first event of a step: nobody has moved yet
            self.t = e.t
            self.before = {p: (ctx.models[p].get_state(), ctx.models[p].get_footprint()) for p in ctx.players}
            self.moved = set()
            self.n = 0
        if e.kind == "update":
            self.moved.add(e.who)
        elif e.kind == "sense":
            t, obs = e.a
            c.eq(e.b[1], e.who, "a player's sensor was asked from the point of view of another player")
            c.true(e.b[0] is ctx.dg_scenario or e.b[0] == ctx.dg_scenario, "scenario passed to the sensor")
            c.eq(t, self.t, f"time stamp of the snapshot for {e.who}")
            c.eq(set(obs), set(self.before), f"players in the snapshot for {e.who} at {self.t}")
            for p, (s, occ) in obs.items():
                bs, bf = self.before[p]
                c.true(type(s) is type(bs) and s == bs, f"state of {p} in the snapshot for {e.who} at {self.t}", got=s, expected=bs)
                c.true(occ.equals_exact(bf, 1e-12), f"footprint of {p} in the snapshot for {e.who} at {self.t}", got=occ, expected=bf)
                c.count("player observations checked")
            c.count("snapshots checked")
            if self.moved:
                c.count("snapshots after others moved")
            if len(self.before) < len(self.w.names):
                c.count("snapshots after others left")
            c.situation(len(self.before), min(self.n, 3), bool(self.moved), len(self.before) < len(self.w.names),
                        type(ctx.sensors[e.who].inner).__name__)
            self.n += 1
        elif e.kind == "sensed":
            self.out = (e.who, e.a)
        elif e.kind == "poll":
            who, (t, out) = self.out
            c.eq(who, e.who, "observations of another player's sensor")
            gt, got = e.a
            c.eq(gt, t, f"time stamp delivered to {e.who}")
            c.eq(set(got), set(out), f"players delivered to {e.who} by its sensor")
            for p in out:
                c.true(got[p][0] == out[p][0] and got[p][1].equals_exact(out[p][1], 1e-12),
                       f"{e.who} received something else about {p} than its sensor produced", got=got[p][0], expected=out[p][0])
            c.count("deliveries checked")


def run(c, **kw):
    w = K.world(c, **kw)
    w.tr.hook = Monitor(c, w)
    w.run()


def case(c):
    run(c, n=c.int(2, 6))


def case_fast(c):
    """Fast players (a leak of a moved state is large) and frequent departures"""
    run(c, n=c.int(3, 7), kinds=["toy"], missions=0.8, spread=4)


def case_default(c):
    """Without sensors every agent receives the full snapshot"""
    w = K.world(c, n=c.int(2, 5), sensors=False)
    mon = {"t": None}

    def hook(e):
        ctx = w.ctx
        if e.kind not in ("poll", "update", "advance"):
            return
        if e.t != mon["t"]:
            mon["t"] = e.t
            mon["before"] = {p: (ctx.models[p].get_state(), ctx.models[p].get_footprint()) for p in ctx.players}
        if e.kind == "poll":
            t, obs = e.a
            c.eq(t, e.t, "time stamp of the observations")
            c.eq(set(obs), set(mon["before"]), "players observed")
            for p, (s, occ) in obs.items():
                c.true(s == mon["before"][p][0] and occ.equals_exact(mon["before"][p][1], 1e-12),
                       f"{e.who} observed {p} otherwise than it was at {t}", got=s, expected=mon["before"][p][0])
            c.count("deliveries checked")

    w.tr.hook = hook
    w.run()


def case_turn(c):
    """Players that turn on the spot, rest, or start late: nothing remembered of them may stand in for what they are now"""
    run(c, n=c.int(2, 5), kinds=["toy", "toy", "diff", "obstacle"], manners=["spin", "spin", "rest", "late", "straight", "any"])
    c.count("worlds with players on the spot")


FAMILIES = [("turning", case_turn, 40, 1000), ("mixed", case, 100, 3000), ("fast", case_fast, 60, 2000), ("default sensors", case_default, 40, 1000)]
