"""N01: finding and loading recorded scenarios, and lanes in them."""
import math
import os
import subprocess
import sys
import tempfile

import numpy as np
from commonroad.common.file_reader import CommonRoadFileReader
from commonroad.common.file_writer import CommonRoadFileWriter, OverwriteExistingFile
from commonroad.planning.planning_problem import PlanningProblemSet
from commonroad.scenario.obstacle import ObstacleType
from commonroad.scenario.scenario import Location, Scenario
from commonroad.geometry.shape import Rectangle
from shapely.geometry import Point, Polygon

import dg_commons
from checks.l04 import drive, dyn, network, route_curve
from vlib import roads as R
from dg_commons.maps.lanes import DgLanelet
from dg_commons.sim.scenarios import load_commonroad_scenario
from dg_commons.sim.scenarios.utils import dglane_from_position

ID = "N01"
RULE = ("distinct (layout of the folders, kind of name, decoys) classes of folder trees in which a scenario was looked up, and (road layout, selection) "
        "classes in which the lane of a position was compared with the chains of lanelets through it")
REQUIRE = {"found": 250, "missing": 60, "decoys": 300, "linked": 20, "same content": 60, "assigned": 40, "lanes": 300, "forks": 30, "off the road": 60, "default folder": 3}
MIN_SITUATIONS = 40
CPU_LIMIT = 300
_text = {}


def some_network(c):
    k, ls, routes = network(c)
    return k, ls, routes


def written(c):
    """a scenario and its text; the time step tells files apart"""
    k, ls, routes = some_network(c)
    sc = Scenario(dt=0.1)
    sc.add_objects(ls)
    route = c.pick([r for r in routes if r])
    _, states = drive(c, ls, route, 0.0)
    o = dyn(c, 5000, ObstacleType.CAR, Rectangle(4.0, 1.8), states, 5.0)
    sc.add_objects([o])
    with tempfile.TemporaryDirectory() as tmp:
        w = CommonRoadFileWriter(sc, PlanningProblemSet(), author="v", affiliation="v", source="v", tags=set(), location=Location(), decimal_precision=12)
        p = os.path.join(tmp, "x.xml")
        w.write_to_file(p, OverwriteExistingFile.ALWAYS, check_validity=False)
        text = open(p).read()
    c.eq(text.count('timeStepSize="0.1"'), 1, "harness: the time step is in the file")
    return k, sc, o, text


def put(tmp, rel, text, step):
    p = os.path.join(tmp, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(text.replace('timeStepSize="0.1"', f'timeStepSize="{step}"'))
    return p


def tree(tmp):
    return sorted((os.path.relpath(os.path.join(r, f), tmp), os.path.getsize(os.path.join(r, f))) for r, _, fs in os.walk(tmp) for f in fs)


NAMES = ["USA_Lanker-1_1_T-1", "A", "a.b", "weird name (1)", "x+y[0]", "ÄÖ-1", "C-DEU_B471-2_1", "123", "demo.xml.v2"]
DIRS = ["", "", "testing", "commonroad-scenarios/x", "a/b/c", "recorded/hand-crafted", "z", ".hidden", "dir.xml", "USA_Lanker"]


def finding(c):
    k, sc, o, text = written(c)
    with tempfile.TemporaryDirectory() as tmp:
        root = os.path.join(tmp, c.pick(["scenarios", "src", "s p a c e", "deep/er"]))
        names = c.rng.sample(NAMES, c.int(1, 5))
        steps = {}
        for i, n in enumerate(names):
            steps[n] = round(0.11 + 0.01 * i, 2)
            d = c.pick(DIRS)
            linked = c.chance(0.2)
            if linked:
                # the folder of the file is linked into the tree
                put(os.path.join(tmp, "elsewhere"), f"l{i}/{n}.xml", text, steps[n])
                os.makedirs(os.path.join(root, d), exist_ok=True)
                os.symlink(os.path.join(tmp, "elsewhere", f"l{i}"), os.path.join(root, d, f"link{i}"))
                c.count("linked")
            else:
                put(root, os.path.join(d, n + ".xml"), text, steps[n])
            # similar names
            for dec in (f"{n}-1.xml", f"x{n}.xml", f"{n}.xml.bak", f"{n}.XML", f"{n}", f"{n}.xmlx", f"{n.swapcase()}_.xml", f"{n[:-1]}.xml"):
                if c.chance(0.3) and dec[:-4] not in names and dec != ".xml":
                    p = os.path.join(c.pick(DIRS), dec)
                    if not os.path.exists(os.path.join(root, p)):
                        try:
                            put(root, p, text, 0.77)
                            c.count("decoys")
                        except OSError:
                            pass
        before = tree(tmp)
        arg = root if c.chance(0.7) else os.path.join(root, "")
        cwd = os.getcwd()
        for n in names:
            how = c.pick(["plain", "extension"])
            s, pp = load_commonroad_scenario(n + (".xml" if how == "extension" else ""), arg)
            c.close(s.dt, steps[n], "the scenario that was asked for", atol=1e-12, name=n, files=[f for f, _ in before])
            c.true(isinstance(pp, PlanningProblemSet), "planning problems come along")
            c.count("found")
            c.situation("find", n, how)
        for n in ["nobody", "dir", *(x[:-1] for x in names if len(x) > 1), *(x + "-1" for x in names), names[0] + ".XML", "", *(x.lower() for x in names)]:
            fn = n if n.endswith(".xml") else n + ".xml"
            if any(os.path.basename(f) == fn for f, _ in before) or any(fn in fs for _, _, fs in os.walk(root, followlinks=True)):
                continue
            c.raises(lambda: load_commonroad_scenario(n, arg), "a scenario that is not there", exc=FileNotFoundError)
            c.count("missing")
        c.eq(tree(tmp), before, "loading leaves the files alone")
        c.eq(os.getcwd(), cwd, "working directory")


def content(c):
    k, sc, o, text = written(c)
    with tempfile.TemporaryDirectory() as tmp:
        p = put(tmp, "a/S.xml", text, 0.2)
        s, _ = load_commonroad_scenario("S", tmp)
        ref, _ = CommonRoadFileReader(p).open(lanelet_assignment=True)
    c.eq(sorted(l.lanelet_id for l in s.lanelet_network.lanelets), sorted(l.lanelet_id for l in sc.lanelet_network.lanelets), "lanelets")
    for l in sc.lanelet_network.lanelets:
        m = s.lanelet_network.find_lanelet_by_id(l.lanelet_id)
        c.close(m.left_vertices, l.left_vertices, "left boundary", atol=1e-6)
        c.close(m.right_vertices, l.right_vertices, "right boundary", atol=1e-6)
        c.eq(sorted(m.successor), sorted(l.successor), "successors")
        c.eq(sorted(m.predecessor), sorted(l.predecessor), "predecessors")
    c.eq([d.obstacle_id for d in s.dynamic_obstacles], [o.obstacle_id], "obstacles")
    b = s.dynamic_obstacles[0]
    c.close(b.initial_state.position, o.initial_state.position, "initial position", atol=1e-6)
    got = b.initial_center_lanelet_ids
    pt = Point(*o.initial_state.position)
    deep = {l.lanelet_id for l in sc.lanelet_network.lanelets if area(l).contains(pt) and area(l).exterior.distance(pt) > 1e-3}
    c.true(got is not None and deep <= set(got), "obstacles are assigned to the lanelets they are on", got=got, expected=deep)
    c.count("assigned", bool(deep))
    c.eq(got, ref.dynamic_obstacles[0].initial_center_lanelet_ids, "as read by CommonRoad")
    c.count("same content")
    c.situation("content", k)


def area(l):
    return Polygon(np.vstack([l.left_vertices, l.right_vertices[::-1]]))


# ------------------------------------------------------------------ lanes
def chains(ls, first):
    """all chains of successors from a lanelet (as lists of ids), without repetition"""
    by = {l.lanelet_id: l for l in ls}
    out = []

    def go(path):
        nxt = [s for s in by[path[-1]].successor if s not in path]
        if not nxt:
            out.append(path)
        for s in nxt:
            go(path + [s])

    go([first])
    return out


def joined(ls, ids):
    by = {l.lanelet_id: l for l in ls}
    p = []
    for i, k in enumerate(ids):
        p += [tuple(x) for x in by[k].center_vertices[(1 if i else 0):]]
    return np.array(p)


def lanes(c):
    k, ls, routes = some_network(c)
    sc = R.scenario(ls)
    net = sc.lanelet_network
    by = {l.lanelet_id: l for l in ls}
    for _ in range(6):
        l = c.pick(ls)
        i = c.int(0, len(l.center_vertices) - 2)
        a, w = c.u(0.1, 0.9), c.u(-0.7, 0.7)
        mid = (1 - a) * l.center_vertices[i] + a * l.center_vertices[i + 1]
        lef = (1 - a) * l.left_vertices[i] + a * l.left_vertices[i + 1]
        p = mid + w * (lef - mid)
        here = {x.lanelet_id for x in ls if area(x).contains(Point(p))}
        near = {x.lanelet_id for x in ls if area(x).distance(Point(p)) < 1e-6 or area(x).exterior.distance(Point(p)) < 1e-3}
        if not here or near - here or any(area(by[x]).exterior.distance(Point(p)) < 1e-3 for x in here):
            continue
        firsts, seen = set(), 0
        for sel in range(len(here)):
            options = None
            got_chains = []
            j = 0
            while options is None or j < len(options):
                lane = dglane_from_position(p, net, sel, j) if (sel, j) != (0, 0) or c.chance(0.5) else dglane_from_position(p, net)
                c.true(isinstance(lane, DgLanelet), "a lane")
                got = np.array([q.q.p for q in lane.control_points])
                cands = [(f, ch) for f in here for ch in all_chains(ls, f)]
                fit = [(f, ch) for f, ch in cands if same(joined(ls, ch), got)]
                c.true(bool(fit), "the lane is a chain of lanelets beginning with one the position is on", position=p, on=here, got=got[[0, -1]], selection=(sel, j))
                f, ch = fit[0]
                if options is None:
                    options = chains(ls, f)
                    firsts.add(f)
                c.true(f == ch[0] and any(ch[0] == o[0] for o in options), "the selected first lanelet", got=ch)
                if ch not in options:  # loops may be followed a bit further or not as far
                    c.true(any(ch[: len(o)] == o or o[: len(ch)] == ch for o in options) and looped(ls, ch), "the lane goes on to the end of the road", got=ch, options=options)
                    options = options if k != "ring" else [ch]
                got_chains.append(tuple(ch))
                wid = {tuple(np.round(x, 6)): np.linalg.norm(u - v) / 2 for i in ch for x, u, v in zip(by[i].center_vertices, by[i].left_vertices, by[i].right_vertices)}
                c.true(all(any(abs(q.r - w) < 1e-6 for x, w in wid.items() if np.allclose(x, q.q.p, atol=1e-5)) for q in lane.control_points), "the lane is as wide as the lanelets")
                j += 1
                c.count("lanes")
            c.eq(len(set(got_chains)), len(got_chains), "different successors are different lanes", got=got_chains)
            if len(got_chains) > 1:
                c.count("forks")
            c.situation("lane", k, len(here), len(got_chains), sel)
        c.eq(firsts, here, "every lanelet the position is on can be selected")
        # elsewhere
        q = np.array([c.u(-300, 300), c.u(-300, 300)])
        if all(area(x).distance(Point(q)) > 0.5 for x in ls):
            c.raises(lambda: dglane_from_position(q, net), "a position off the road has no lane", exc=AssertionError)
            c.count("off the road")


def looped(ls, ch):
    by = {l.lanelet_id: l for l in ls}
    return any(s in ch for s in by[ch[-1]].successor) or len(set(ch)) < len(ch)


def all_chains(ls, f):
    """complete chains and their beginnings, once more around for loops"""
    out = []
    for ch in chains(ls, f):
        for n in range(len(ch), 0, -1):
            if ch[:n] not in out:
                out.append(ch[:n])
        if ch[0] in {s for l in ls if l.lanelet_id == ch[-1] for s in l.successor}:
            out.append(ch + [ch[0]])
    return out


def slim(p):
    """without repeated points"""
    return np.array([x for i, x in enumerate(p) if i == 0 or np.linalg.norm(x - p[i - 1]) > 1e-9])


def same(p, q):
    p, q = slim(p), slim(q)
    return p.shape == q.shape and np.allclose(p, q, atol=1e-6)


# ------------------------------------------------------------------ default folder
PROG = "import sys; from dg_commons.sim.scenarios import load_commonroad_scenario as f\ntry:\n print('DT', f(sys.argv[1])[0].dt)\nexcept FileNotFoundError:\n print('MISSING')\n"


def default(c):
    k, sc, o, text = written(c)
    src = os.path.dirname(os.path.dirname(os.path.abspath(dg_commons.__file__)))
    with tempfile.TemporaryDirectory() as tmp:
        top = os.path.join(tmp, c.pick(["plain", "usr/src/app", "src", "my-src.git", "resources/src/x"]))
        os.makedirs(top)
        os.symlink(src, os.path.join(top, "src"))
        name = c.pick(NAMES)
        there = c.chance(0.75)
        put(top, f"scenarios/{c.pick(['', 'testing', 'a/b'])}/{name if there else 'other'}.xml".replace("//", "/"), text, 0.42)
        put(tmp, f"scenarios/{name}.xml" if top != os.path.join(tmp, "scenarios") else "s/x.xml", text, 0.66)
        env = dict(os.environ, PYTHONPATH=os.path.join(top, "src"))
        out = subprocess.run([sys.executable, "-c", PROG, name], env=env, cwd=tmp, capture_output=True, text=True, timeout=200)
        got = out.stdout.strip().splitlines()[-1:] or [out.stderr[-400:]]
        c.eq(got[0], "DT 0.42" if there else "MISSING", "without a folder, the scenarios folder next to the sources", top=os.path.relpath(top, tmp), name=name)
    c.count("default folder")
    c.situation("default", os.path.relpath(top, tmp), there)


FAMILIES = [("finding", finding, 130, 1500), ("content", content, 80, 800), ("lanes", lanes, 160, 2500), ("default", default, 10, 60)]
