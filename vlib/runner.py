"""Runs one check: every case of every family in forked workers, writes the evidence, reports violations."""
import argparse
import importlib
import json
import logging
import os
import pathlib
import signal
import sys
import time
import traceback
from collections import Counter

VERIF = pathlib.Path(__file__).resolve().parents[1]
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
sys.dont_write_bytecode = True
sys.path[:0] = [str(VERIF), str(REPO / "src")]
T0 = time.time()
CPU_LIMIT = 150  # seconds of processor time after which a single case counts as not terminating
WALL_LIMIT = 400  # the same in real time (deadlocks)


class _Hang(BaseException):
    pass


def _on_prof(signum, frame):
    raise _Hang()


def _quiet():
    logging.disable(logging.CRITICAL)
    import warnings

    warnings.simplefilter("ignore")


def known_findings(prop):
    out = {}
    for line in (VERIF / "KNOWN_FINDINGS.txt").read_text().splitlines():
        if line.startswith("known:"):
            f = dict(w.split("=", 1) for w in line[6:].split()[:2])
            if f["property"] == prop:
                out[f["sig"]] = line.split(None, 3)[3]
    return out


def run_case(mod, prop, seed, tier, fam, index):
    from vlib.core import Case, Violation

    name, fn = fam[0], fam[1]
    case = Case(prop, seed, name, index, tier)
    res = {"family": name, "index": index, "verdict": "ok", "message": ""}
    limit = getattr(mod, "CPU_LIMIT", CPU_LIMIT)
    signal.signal(signal.SIGPROF, _on_prof)
    signal.signal(signal.SIGALRM, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT)
    try:
        fn(case)
    except Violation as e:
        res["verdict"], res["message"] = "violation", str(e)
    except _Hang:
        res["verdict"] = "violation"
        res["message"] = f"no answer within {limit} s of processor time or {WALL_LIMIT} s"
        res["hang"] = True
    except MemoryError:
        raise
    except Exception as e:
        res["verdict"] = "violation"
        res["message"] = f"unexpected {type(e).__name__}: {str(e)[:500]}"
        res["traceback"] = traceback.format_exc()[-4000:]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
    res["counts"] = dict(case.counts)
    res["sig"] = sorted(case.sig)
    res["facts"] = case.facts
    return res


def _worker(wid, jobs, nw, mod, prop, seed, tier, fams, wpipe):
    _quiet()
    sys.stdout = open(os.devnull, "w")
    sys.stderr = open(os.devnull, "w")
    with os.fdopen(wpipe, "w") as out:
        for fi, index in jobs[wid::nw]:
            r = run_case(mod, prop, seed, tier, fams[fi], index)
            out.write(json.dumps(r) + "\n")
            out.flush()
            if r.get("hang"):
                return  # one is enough, the next ones would take as long


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--self-test", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--family")
    ap.add_argument("--index", type=int)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    if a.self_test:
        # everything a check needs is installed and importable; nothing has to be built
        import numpy, scipy, shapely, networkx, frozendict, cachetools, geometry, commonroad  # noqa
        import vlib.core  # noqa

        n = len(list((VERIF / "checks").glob("[a-z][0-9][0-9].py")))
        print(f"ready: {n} checks, python {sys.version.split()[0]}")
        return
    tier = "thorough" if a.tier == "thorough" else "quick"
    prop, seed = a.prop, a.seed
    _quiet()
    sys.setrecursionlimit(5000)
    out_dir = VERIF / "out"
    out_dir.mkdir(exist_ok=True)
    try:
        mod = importlib.import_module(f"checks.{prop.lower()}")
    except Exception as e:
        # the repository itself does not import (any more)
        traceback.print_exc()
        rp = out_dir / f"{prop}-import.json"
        rp.write_text(json.dumps({"property": prop, "message": repr(e), "traceback": traceback.format_exc()}))
        in_repo = "/src/dg_commons/" in traceback.format_exc()
        if in_repo:
            print(f"VIOLATION property={prop} replay={rp}")
        sys.exit(1 if in_repo else 2)
    fams = mod.FAMILIES
    if a.replay:
        rp = pathlib.Path(a.replay)
        d = json.loads((rp if rp.is_absolute() else VERIF / rp).read_text())
        a.family, a.index, seed, tier = d["family"], d["index"], d["seed"], d["tier"]
    if a.family is not None:
        fam = next(f for f in fams if f[0] == a.family)
        r = run_case(mod, prop, seed, tier, fam, a.index or 0)
        print(json.dumps(r, indent=1))
        sys.exit(0 if r["verdict"] == "ok" else 1)

    jobs = []
    for fi, f in enumerate(fams):
        n = f[2] if tier == "quick" else f[3]
        jobs += [(fi, i) for i in range(n)]
    # deterministic shuffle so that expensive families are spread over the workers
    import random

    random.Random(7).shuffle(jobs)
    nw = max(1, min(a.jobs, len(jobs)))
    readers = []
    sys.stdout.flush()
    for w in range(nw):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            rc = 0
            try:
                _worker(w, jobs, nw, mod, prop, seed, tier, fams, wr)
            except BaseException:
                traceback.print_exc()
                rc = 3
            finally:
                os._exit(rc)
        os.close(wr)
        readers.append((pid, r))
    import threading

    results, lock = [], threading.Lock()

    def drain(fd):
        with os.fdopen(fd) as f:
            for line in f:
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                with lock:
                    results.append(d)

    ths = [threading.Thread(target=drain, args=(r,)) for _, r in readers]
    [t.start() for t in ths]
    [t.join() for t in ths]
    bad_workers = 0
    for pid, _ in readers:
        _, st = os.waitpid(pid, 0)
        bad_workers += st != 0
    results.sort(key=lambda d: (d["family"], d["index"]))
    counts, sigs, per_family = Counter(), set(), Counter()
    violations, known_seen = [], {}
    known = known_findings(prop)
    for d in results:
        counts.update(d["counts"])
        sigs.update(d["sig"])
        per_family[d["family"]] += 1
        if d["verdict"] == "violation":
            sig = d["family"] if d["family"].startswith("known_") else None
            if sig is not None and sig in known:
                known_seen[sig] = known[sig]
            else:
                violations.append(d)
    done = len(results)
    crashed = done < len(jobs)
    samples = [{"family": d["family"], "index": d["index"], "facts": d["facts"], "counts": d["counts"]}
               for d in results if d["facts"]][:: max(1, done // 5)][:5]
    if not samples:
        samples = [{"family": d["family"], "index": d["index"], "counts": d["counts"]} for d in results][:3]
    coverage = {
        "evaluations": done,
        "distinct_nontrivial": len(sigs),
        "rule": mod.RULE,
        "samples": samples,
        "cases_per_family": dict(per_family),
        "observed": dict(sorted(counts.items())),
        "situations": sorted(sigs)[:200],
        "violations": len(violations),
        "known_findings": len(known_seen),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
          "wall_s": round(time.time() - T0, 2)}
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    for s, what in sorted(known_seen.items()):
        print(f"KNOWN-FINDING: property={prop} {what}")
    if violations:
        shown = Counter()
        for d in violations:
            shown[d["family"]] += 1
            if shown[d["family"]] > 2:
                continue
            rp = out_dir / f"{prop}-{d['family']}-{d['index']}-s{seed}.json"
            rp.write_text(json.dumps({"property": prop, "seed": seed, "tier": tier, **d}, indent=1))
            print(f"VIOLATION property={prop} replay={rp}")
            print(f"  [{d['family']} #{d['index']}] {d['message'][:600]}")
        print(f"{prop}: {len(violations)} violating cases of {done} in {time.time() - T0:.1f} s")
        sys.exit(1)
    if crashed or bad_workers:
        # a worker died (e.g. was killed): that is a failure of the run unless a monitor saw a violation
        print(f"{prop}: only {done} of {len(jobs)} cases were answered ({bad_workers} workers died)")
        sys.exit(2)
    short = {k: (counts.get(k, 0), v) for k, v in getattr(mod, "REQUIRE", {}).items() if counts.get(k, 0) < v}
    if short or len(sigs) < getattr(mod, "MIN_SITUATIONS", 1):
        print(f"{prop}: vacuous run, observed too little: {short}, {len(sigs)} situations")
        sys.exit(2)
    print(f"{prop}: held on {done} executions, {counts['checks']} checks, {len(sigs)} situations, "
          f"{time.time() - T0:.1f} s")
    sys.exit(0)


if __name__ == "__main__":
    main()
