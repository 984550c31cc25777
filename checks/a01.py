"""A01: scripted agents do what they were told, at the simulation's time."""
from decimal import Decimal as D
from fractions import Fraction as F
from dataclasses import replace

from frozendict import frozendict

from vlib import simkit as K
from vlib import world as W
from dg_commons import DgSampledSequence
from dg_commons.sim.agents.agent import NPAgent, PolicyAgent
from dg_commons.sim.models.vehicle import VehicleCommands
from dg_commons.sim.scenarios import DgScenario
from dg_commons.sim.simulator_structures import InitSimObservations, PlayerObservations, SimObservations

ID = "A01"
RULE = ("distinct (kind of agent, kind of time stamps, place of the query in the plan, start time of the simulation, players around) classes in which a scripted "
        "agent's command was compared with its plan or policy")
REQUIRE = {"plan queries": 3000, "on a sample": 500, "between samples": 500, "after the plan": 300, "policy queries": 600, "in simulation": 300, "before the plan": 100, "same state again": 200}
MIN_SITUATIONS = 30


def obs(c, me, models, t):
    return SimObservations(players=frozendict({n: PlayerObservations(state=m.get_state(), occupancy=m.get_footprint()) for n, m in models.items()}), time=t)


def plan(c):
    kind = c.pick(["decimal", "integer", "float", "irregular"])
    n = c.pick([1, 2, c.int(3, 30)])
    start = c.pick([0, 0, 2])
    if kind == "integer":
        ts = [start + i for i in range(n)]
    elif kind == "decimal":
        ts = [D(start) + i * c_ for c_ in [D(c.pick(["0.1", "0.05", "0.3"]))] for i in range(n)]
    elif kind == "float":
        h = c.pick([0.1, 0.25, c.u(0.03, 0.9)])
        ts = [start + i * h for i in range(n)]
    else:
        t, ts = D(start), []
        for _ in range(n):
            ts.append(t)
            t += D(str(round(c.u(0.01, 1.0), 2)))
    cmds = [VehicleCommands(acc=c.u(-5, 5), ddelta=c.u(-1, 1)) for _ in range(n)]
    return kind, ts, cmds


def expected(ts, cmds, t):
    best = None
    for a, u in zip(ts, cmds):
        if F(a) <= F(t):
            best = u
    return best


def same(u, w):
    return type(u) is type(w) and u.acc == w.acc and u.ddelta == w.ddelta and u.lights == w.lights


def scripted(c):
    kind, ts, cmds = plan(c)
    seq = DgSampledSequence[VehicleCommands](timestamps=list(ts), values=[replace(u) for u in cmds])
    ag = NPAgent(seq)
    me = c.pick(["P1", "Ego"])
    models = {n: W.spec(c, "car", at=(c.u(-9, 9), c.u(-9, 9), c.ang())).build() for n in {me, *c.rng.sample(["A", "B", "C"], c.int(0, 2))}}
    ag.on_episode_init(InitSimObservations(my_name=me, seed=0, dg_scenario=DgScenario(), goal=None))
    for _ in range(12):
        how = c.pick(["on a sample", "between samples", "after the plan", "before the plan"])
        a, b = F(ts[0]), F(ts[-1])
        if how == "on a sample":
            t = D(str(c.pick(ts))) if kind == "float" else D(c.pick(ts))
            if kind == "float" and F(t) not in [F(x) for x in ts]:
                # a decimal next to a float sample: either side is a matter of representation
                continue
        elif how == "after the plan":
            t = D(str(round(float(b) + c.u(0.001, 50), 3)))
        elif how == "before the plan":
            t = D(str(round(float(a) - c.u(0.001, 2), 3)))
            c.raises(lambda: ag.get_commands(obs(c, me, models, t)), "nothing is planned before the plan starts")
            c.count(how)
            c.count("plan queries")
            continue
        else:
            t = D(str(round(float(a) + c.u(0, 1) * float(b - a), 4)))
            if t < a or min(abs(F(x) - F(t)) for x in ts) < F(1, 10**9):
                continue
        u = ag.get_commands(obs(c, me, models, t))
        w = expected(ts, cmds, t)
        c.true(same(u, w), "the command is the plan's latest at or before the simulation time", at=t, got=u, expected=w, times=ts[:10])
        c.count(how)
        c.count("plan queries")
        c.situation("plan", kind, min(len(ts), 3), how, len(models))


def policy(c):
    me = c.pick(["P1", "Ego", "z"])
    kinds = {}
    models = {}
    for n in [me, *c.rng.sample(["A", "B", "C"], c.int(0, 3))]:
        kinds[n] = c.pick(W.KINDS)
        models[n] = W.spec(c, kinds[n], at=(c.u(-9, 9), c.u(-9, 9), c.ang())).build()
    items = list(models.items())
    c.rng.shuffle(items)
    models = dict(items)
    seen = []

    def f(x):
        seen.append(x)
        return ("reply", len(seen))

    ag = PolicyAgent(f)
    ag.on_episode_init(InitSimObservations(my_name=me, seed=0, dg_scenario=DgScenario(), goal=None))
    for i in range(4):
        o = obs(c, me, models, D(i) / 10)
        u = ag.get_commands(o)
        c.eq(len(seen), i + 1, "the policy is asked once per call")
        x = seen[-1]
        w = models[me].get_state()
        c.true(type(x) is type(w) and W.vals(x).tolist() == W.vals(w).tolist(), "the policy is applied to the player's own state", got=x, expected=w)
        c.eq(u, ("reply", i + 1), "the command is what the policy says")
        c.count("policy queries")
        if c.chance(0.4):
            c.count("same state again")
            continue  # nothing moved: asked all the same
        s = models[me].get_state()
        s.x += 1.0
        models[me].set_state(s)
    # another episode under another name
    if len(models) > 1:
        other = c.pick([n for n in models if n != me])
        ag.on_episode_init(InitSimObservations(my_name=other, seed=0, dg_scenario=DgScenario(), goal=None))
        ag.get_commands(obs(c, other, models, D(0)))
        c.true(W.vals(seen[-1]).tolist() == W.vals(models[other].get_state()).tolist(), "in another episode the agent is who it is told to be")
    c.situation("policy", kinds[me], len(models))


def simulation(c):
    """plans and policies executed by the simulator"""
    w = K.world(c, n=c.int(1, 4), kinds=["car", "truck", "bicycle"], sensors=c.chance(0.5), missions=0.2, t0=c.pick([D(0), D(0), D("0.5")]))
    plans, pols = {}, {}
    for n in w.names:
        r = w.ctx.players[n]
        if c.chance(0.6):
            kind, ts, cmds = plan(c)
            if F(ts[0]) > F(w.t0):
                ts = [t - ts[0] for t in ts]
            plans[n] = (ts, cmds, kind)
            r.inner = NPAgent(DgSampledSequence[VehicleCommands](timestamps=list(ts), values=[replace(u) for u in cmds]))
        else:
            r.inner = PolicyAgent(lambda x: VehicleCommands(acc=0.1 * x.vx - 0.5, ddelta=0.01 * x.x))
            pols[n] = True
    w.run()
    last = {}
    for e in w.tr.ev:
        if e.kind == "poll":
            last[e.who] = e
        elif e.kind == "reply":
            t, seen = last[e.who].a
            if e.who in plans:
                ts, cmds, kind = plans[e.who]
                if min(abs(F(x) - F(t)) for x in ts) < F(1, 10**9) and t not in ts:
                    continue
                wnt = expected(ts, cmds, t)
                c.true(same(e.a, wnt), "the command is the plan's latest at or before the time observed", at=t, got=e.a, expected=wnt)
            else:
                x = seen[e.who][0]
                c.true(e.a.acc == 0.1 * x.vx - 0.5 and e.a.ddelta == 0.01 * x.x, "the command is the policy's for the state observed", at=t)
            c.count("in simulation")
            c.situation("simulation", "plan" if e.who in plans else "policy", "later start" if w.t0 else "start at 0", len(seen))


FAMILIES = [("scripted", scripted, 500, 10000), ("policy", policy, 250, 4000), ("simulation", simulation, 60, 1200)]
