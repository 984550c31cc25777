"""S02: online trace specification of initialisation, polling and advancing."""
from decimal import Decimal as D

from vlib import simkit as K

ID = "S02"
RULE = ("distinct (polling ratio class, mission outcome, first/later step, number of players) situations in which the calls made "
        "to agents and models were compared with the schedule computed independently from the periods")
REQUIRE = {"steps checked": 1500, "polls checked": 800, "advances checked": 3000, "skipped polls": 500, "inits checked": 150}
MIN_SITUATIONS = 30


def check_trace(c, w):
    ctx, tr = w.ctx, w.tr
    dt, dtc = ctx.param.dt, ctx.param.dt_commands
    # initialisation
    firsts = {}
    for i, e in enumerate(tr.ev):
        if e.who not in firsts and e.kind in ("init", "poll", "reply", "extra", "update", "sense"):
            firsts[e.who] = e
    inits = tr.of("init")
    c.eq(sorted(e.who for e in inits), sorted(w.names), "players initialised")
    first_other = next((i for i, e in enumerate(tr.ev) if e.kind in ("poll", "update", "sense", "extra")), len(tr.ev))
    last_init = max((i for i, e in enumerate(tr.ev) if e.kind == "init"), default=-1)
    c.true(last_init < first_other, "an agent was initialised after the first step began")
    for e in inits:
        p, o = e.who, e.a
        c.count("inits checked")
        c.eq(o.my_name, p, "name given on initialisation")
        c.eq(o.seed, ctx.seed, "seed given on initialisation")
        g = w.init_goals.get(p)
        c.true((o.goal is None) == (g is None), f"goal given to {p} on initialisation", got=o.goal, expected=g)
        if g is not None:
            c.true(type(o.goal) is type(g) and o.goal == g, f"{p} was given another goal", got=o.goal, expected=g)
            if isinstance(g, K.ToyGoal):
                c.eq(o.goal.tag, [p], "goal of another player")
        c.true(o.model_geometry == w.init_specs[p].g, f"geometry given to {p}", got=o.model_geometry)
        c.true(o.model_params == w.init_specs[p].p, f"parameters given to {p}", got=o.model_params)
        c.true(o.dg_scenario is not None and len(o.dg_scenario.static_obstacles) == len(ctx.dg_scenario.static_obstacles),
               "scenario given on initialisation")
    # steps
    ev = [e for e in tr.ev if e.kind in ("poll", "reply", "update")]
    times = []
    for e in ev:
        if not times or times[-1] != e.t:
            times.append(e.t)
    c.eq(times, [w.t0 + k * dt for k in range(len(times))], "times at which steps were made")
    left = {p: max(e.t for e in tr.of("update", p)) for p in w.names if p not in ctx.players}
    last, held = None, {}
    for k, t in enumerate(times):
        es = [e for e in ev if e.t == t]
        due = last is None or t - last >= dtc
        active = [p for p in w.names if p not in left or left[p] >= t]
        c.count("steps checked")
        for p in w.names:
            mine = [e.kind for e in es if e.who == p]
            exp = [] if p not in active else (["poll", "reply", "update"] if due else ["update"])
            c.eq(mine, exp, f"calls made for {p} in the step at {t} (last poll {last}, period {dtc})", dt=dt)
        for e in es:
            if e.kind == "poll":
                c.count("polls checked")
            elif e.kind == "reply":
                held[e.who] = e.a
            elif e.kind == "update":
                cmd, h = e.b
                c.count("advances checked")
                c.eq(h, dt, f"length of the step of {e.who} at {t}")
                c.true(type(cmd) is type(held[e.who]) and cmd == held[e.who], f"{e.who} advanced at {t} with other commands than its latest",
                       got=cmd, expected=held[e.who])
        if due:
            last = t
        else:
            c.count("skipped polls")
        r = dtc / dt
        c.situation("int" if r == int(r) else "frac", "<1" if r < 1 else ">=1", min(len(active), 4), "due" if due else "hold",
                    "first" if k == 0 else "later", "left" if len(active) < len(w.names) else "all", "t0" if w.t0 else "0")
    c.eq(ctx.time, w.t0 + dt * len(times), "simulation time after the run")


def case(c):
    check_trace(c, K.world(c).run())


def case_odd(c):
    """Periods that are no multiples of each other, start times that are on no grid"""
    dt = D(c.int(1, 600)) / D(c.pick([1000, 4000, 10000])) + D("0.001")
    dtc = (dt * D(c.int(1, 500)) / 100).quantize(D("0.0001")) + D("0.0001")
    w = K.world(c, dt=dt, dtc=dtc, t0=D(c.int(0, 500)) / 100, kinds=["toy"], max_steps=(20, 80))
    check_trace(c, w.run())


def case_shared_times(c):
    """The simulator's clock must come from the context: a context that starts late is polled at once"""
    w = K.world(c, t0=D(c.int(1, 10**6)) / 1000, kinds=["toy"])
    check_trace(c, w.run())


FAMILIES = [("mixed", case, 100, 4000), ("odd periods", case_odd, 120, 5000), ("late start", case_shared_times, 40, 800)]
