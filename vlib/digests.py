"""Runs worlds in a fresh interpreter and prints the digests of their outcomes (used with different hash seeds)."""
import hashlib
import json
import logging
import pathlib
import sys

sys.dont_write_bytecode = True


def outcome(prop, seed, family, index, kind, scenarios):
    from vlib import simkit as K
    from vlib.core import Case

    c = Case(prop, seed, family, index, "quick")
    if kind == "lf":
        w = K.lf_world(c)
        ctx = w.run().ctx
    elif kind == "world":
        w = K.world(c, record=False)
        ctx = w.run().ctx
    else:
        from dg_commons.sim import SimParameters
        from dg_commons.sim.scenarios.factory import get_scenario_commonroad_replica
        from dg_commons.sim.simulator import Simulator
        from decimal import Decimal as D

        ctx = get_scenario_commonroad_replica(kind, scenarios_dir=scenarios, sim_param=SimParameters(max_sim_time=D("1.5")))
        Simulator().run(ctx)
    return K.digest(ctx)


def main():
    import os

    verif, repo = pathlib.Path(__file__).resolve().parents[1], pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
    sys.path[:0] = [str(verif), str(repo / "src")]
    logging.disable(logging.CRITICAL)
    import warnings

    warnings.simplefilter("ignore")
    sys.setrecursionlimit(5000)
    job = json.loads(sys.stdin.read())
    out = []
    for j in job:
        d = outcome(*j)
        out.append([hashlib.sha256(repr(x).encode()).hexdigest() for x in d])
    sys.stdout.write("\nRESULT " + json.dumps(out) + "\n")


if __name__ == "__main__":
    main()
