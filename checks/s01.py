"""S01: the log of a simulation against the trace of what models and agents really did."""
from decimal import Decimal as D

import numpy as np

from vlib import simkit as K
from vlib import world as W
from vlib.core import same

ID = "S01"
RULE = ("distinct (model kind, agent behaviour, mission outcome, polling ratio) combinations whose complete logs were compared "
        "entry by entry with the recorded trace of model states, agents' replies and extras")
REQUIRE = {"states compared": 2000, "commands compared": 800, "extras compared": 100, "completed missions": 20,
           "interpolations": 500}
MIN_SITUATIONS = 40


def check_log(c, w):
    ctx, tr = w.ctx, w.tr
    c.eq(set(ctx.log.keys()), set(w.names), "players in the log")
    for p in w.names:
        lg, ups = ctx.log[p], tr.of("update", p)
        exp = [(e.t, e.a[0]) for e in ups]
        done = p not in ctx.players
        if done:
            exp.append((ups[-1].t + ctx.param.dt, ups[-1].c[0]))
            c.count("completed missions")
        got = list(lg.states)
        c.eq([t for t, _ in got], [t for t, _ in exp], f"times of the logged states of {p}")
        for (t, s), (_, r) in zip(got, exp):
            c.true(s == r, f"logged state of {p} at {t} differs from the physical state", got=s, expected=r)
            c.count("states compared")
        rep = [(e.t, e.a) for e in tr.of("reply", p)]
        got = list(lg.commands)
        c.eq([t for t, _ in got], [t for t, _ in rep], f"times of the logged commands of {p}")
        for (t, u), (_, r) in zip(got, rep):
            c.true(u == r and type(u) is type(r), f"logged command of {p} at {t} is not the returned one", got=u, expected=r)
            c.count("commands compared")
        ex = [(e.t, e.a) for e in tr.of("extra", p) if e.a is not None]
        got = list(lg.extra)
        c.eq([t for t, _ in got], [t for t, _ in ex], f"times of the logged extras of {p}")
        for (t, u), (_, r) in zip(got, ex):
            c.true(same(u, r), f"logged extra of {p} at {t}", got=u, expected=r)
            c.count("extras compared")
        c.eq(list(lg.info.timestamps), [t for t, _ in rep], f"times of the logged computation times of {p}")
        c.true(all(v >= 0 for v in lg.info.values), "negative computation time")
        c.situation(w.init_specs[p].kind, "done" if done else "active", str(ctx.param.dt_commands / ctx.param.dt)[:5],
                    w.ctx.players.get(p).extra_kind if p in w.ctx.players else "-")
        interp(c, p, lg, exp, rep, ex)
    c.eq(ctx.log.get_init_time(), w.t0, "initial time of the log")
    c.eq(ctx.log.get_last_time(), max(lg.states.get_end() for lg in ctx.log.values()), "last time of the log")


def interp(c, p, lg, states, cmds, extras):
    ts = [t for t, _ in states]
    for _ in range(6):
        i = c.int(0, len(ts) - 1)
        if c.chance(0.25) or i == len(ts) - 1:
            t, ref = states[i][0], states[i][1]
            f = None
        else:
            f = D(c.int(1, 99)) / 100
            t = ts[i] + (ts[i + 1] - ts[i]) * f
        e = lg.at_interp(t)
        if f is None:
            for n in W.comps(e.state):
                c.close(getattr(e.state, n), getattr(ref, n), f"log of {p} queried at a sample", atol=1e-9)
        else:
            a, b = states[i][1], states[i + 1][1]
            for n in W.comps(e.state):
                r = float(getattr(a, n)) * (1 - float(f)) + float(getattr(b, n)) * float(f)
                c.close(getattr(e.state, n), r, f"interpolated state of {p}, component {n} at {t}", atol=1e-7, rtol=1e-7)
        u = [v for tt, v in cmds if tt <= t][-1]
        c.true(e.commands == u, f"held command of {p} at {t}", got=e.commands, expected=u)
        xs = [v for tt, v in extras if tt <= t]
        c.true(same(e.extra, xs[-1] if xs else None), f"held extra of {p} at {t}", got=e.extra, expected=xs[-1:] )
        c.count("interpolations")


def case(c):
    w = K.world(c)
    w.run()
    check_log(c, w)


def case_real(c):
    w = K.world(c, kinds=W.KINDS, n=c.int(1, 4), max_steps=(4, 16))
    w.run()
    check_log(c, w)


def case_queries(c):
    """at_interp of the whole log at common times"""
    w = K.world(c, missions=0.0, after=D(100))
    w.run()
    ends = [lg.states.get_end() for lg in w.ctx.log.values()]
    for _ in range(5):
        t = w.t0 + (min(ends) - w.t0) * D(c.int(0, 1000)) / 1000
        e = w.ctx.log.at_interp(t)
        c.eq(set(e), set(w.names), "players in the interpolated entry")
        for p in w.names:
            one = w.ctx.log[p].at_interp(t)
            c.true(one.state == e[p].state and one.commands == e[p].commands and same(one.extra, e[p].extra),
                   "log entry of a player depends on how the log is queried")


def case_assembled(c):
    """logs put together from several runs"""
    from dg_commons import DgSampledSequence
    from dg_commons.sim.simulator_structures import PlayerLog, SimLog

    log, data = SimLog(), {}
    for i in range(c.int(1, 5)):
        kind = c.pick(W.KINDS)
        p = W.parameters(c, kind)
        a, n, h = D(c.int(-30, 30)) / 10, c.int(2, 8), D(c.pick(["0.1", "0.25", "1"]))
        ts = [a + k * h for k in range(n)]
        st, cm = [W.state(c, kind, p) for _ in ts], [W.command(c, kind, p) for _ in ts]
        data[f"P{i}"] = (ts, st, cm)
        log[f"P{i}"] = PlayerLog(states=DgSampledSequence[type(st[0])](ts, st), commands=DgSampledSequence[type(cm[0])](ts, cm),
                                 extra=DgSampledSequence[str]([], []), info=DgSampledSequence[float](ts, [0.0] * n))
    c.eq(log.get_init_time(), min(ts[0] for ts, _, _ in data.values()), "the log begins with the first of its players")
    c.eq(log.get_last_time(), max(ts[-1] for ts, _, _ in data.values()), "the log ends with the last of its players")

    def put():
        log["other"] = c.pick([None, {}, (1, 2), log["P0"].states])

    c.raises(put, "only logs of players are accepted")
    c.eq(set(log), set(data), "players in the log")
    for n, (ts, st, cm) in data.items():
        interp(c, n, log[n], list(zip(ts, st)), list(zip(ts, cm)), [])
    lo, hi = max(ts[0] for ts, _, _ in data.values()), min(ts[-1] for ts, _, _ in data.values())
    if lo <= hi:
        t = lo + (hi - lo) * D(c.int(0, 100)) / 100
        e = log.at_interp(t)
        for n in data:
            one = log[n].at_interp(t)
            c.true(one.state == e[n].state and one.commands == e[n].commands and e[n].extra is None, "log entry of a player depends on how the log is queried")
    c.count("assembled")
    c.situation("assembled", len(data), lo <= hi)


FAMILIES = [("assembled", case_assembled, 100, 1500), ("mixed", case, 120, 4000), ("real models", case_real, 40, 1200), ("queries", case_queries, 20, 300)]
