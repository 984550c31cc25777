"""S05: independent stopping rule and mission completion, evaluated after each step from recorded states."""
from copy import deepcopy
from decimal import Decimal as D

from vlib import simkit as K

ID = "S05"
RULE = ("distinct (rule that ended the run, limit hit exactly or not, mission coverage, collision before the end) classes of "
        "complete runs whose length and departures were compared with an independent evaluation of the rules")
REQUIRE = {"runs": 150, "goal evaluations": 2000, "departures": 60, "ended by max time": 20, "ended by collision": 15,
           "ended by missions": 15, "ended by no players": 8}
MIN_SITUATIONS = 15


def check(c, w):
    ctx, tr = w.ctx, w.tr
    dt = ctx.param.dt
    ups = {p: {e.t: e for e in tr.of("update", p)} for p in w.names}
    n_steps = len({e.t for e in tr.of("update")})
    max_t, after = ctx.param.max_sim_time, ctx.param.sim_time_after_collision
    reports = sorted(r.at_time for r in ctx.collision_reports)
    active = set(w.names)
    t = w.t0
    k = 0
    reason = None
    while reason is None:
        c.true(k < n_steps, f"the simulation ended at {ctx.time} although no stopping rule holds at {t}", steps=n_steps,
               active=sorted(active), max_t=max_t, first_collision=reports[:1], after=after)
        for p in w.names:
            c.true((t in ups[p]) == (p in active), f"{p} was {'not ' if p in active else ''}advanced in the step at {t}")
        tn = t + dt
        for p in sorted(active & set(w.init_goals)):
            s = ups[p][t].c[0]
            c.count("goal evaluations")
            if w.init_goals[p].is_fulfilled(deepcopy(s), tn):
                active.discard(p)
                c.count("departures")
        t, k = tn, k + 1
        first = next((r for r in reports if r < t), None)
        if t > max_t:
            reason = "max time"
        elif first is not None and t > first + after:
            reason = "collision"
        elif not active:
            reason = "no players"
        elif w.init_goals and not (active & set(w.init_goals)):
            reason = "missions"
    c.eq(n_steps, k, f"number of steps; the stopping rule '{reason}' held first at {t}", end=ctx.time)
    c.eq(set(ctx.players), active, "players that did not complete their mission")
    c.eq(ctx.time, t, "end time")
    c.true(ctx.sim_terminated, "the context is not marked as terminated")
    c.count("runs")
    c.count("ended by " + reason)
    cov = "none" if not w.init_goals else ("all" if len(w.init_goals) == len(w.names) else "some")
    c.situation(reason, "exact" if (max_t - w.t0) % dt == 0 else "between", cov, "coll" if reports else "free", "t0" if w.t0 else "0")


def case(c):
    w = K.world(c)
    check(c, w.run())


def case_crash(c):
    """Collisions and every allowance after a collision, boundary equality included"""
    dt = c.pick(K.DTS)
    w = K.world(c, n=c.int(2, 5), kinds=["toy"], spread=4, dt=dt, missions=0.25, max_steps=(20, 60),
                after=dt * c.pick([0, 1, 2, 5, D("0.5"), D("1.5"), 100]))
    check(c, w.run())


def case_missions(c):
    dt = c.pick(K.DTS)
    w = K.world(c, n=c.int(1, 5), kinds=["toy"], spread=30, obstacles=0, missions=c.pick([1.0, 0.6]), dt=dt, after=dt * 100,
                max_steps=(30, 60))
    check(c, w.run())


FAMILIES = [("mixed", case, 80, 3000), ("crashes", case_crash, 80, 3000), ("missions", case_missions, 80, 3000)]
