"""P03: a trajectory tree returns exactly the branches put into it."""
from dataclasses import replace
from decimal import Decimal as D

from vlib import world as W
from dg_commons.dynamics import BicycleDynamics
from dg_commons.planning.trajectory import Trajectory, TrajectoryGraph
from dg_commons.seq.sequence import DgSampledSequence
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleState
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.models.vehicle_utils import VehicleParameters

ID = "P03"
RULE = ("distinct (shape of the tree, number of leaves, depth, recurring states, kind of timestamps, insertion order) classes in which trees returned "
        "by the real graph were compared with a reference tree kept next to it")
REQUIRE = {"trees": 300, "branches": 1500, "edges": 2500, "refused": 900, "recurring": 120, "ways that opened": 400}
MIN_SITUATIONS = 60


def state(c):
    return VehicleState(x=c.u(-50, 50), y=c.u(-50, 50), psi=c.ang(), vx=c.u(-3, 15), delta=c.u(-0.8, 0.8))


class Node:
    def __init__(self, key, parent=None, states=None, transition=None, cmd=None):
        self.key, self.parent, self.states, self.transition, self.cmd = key, parent, states, transition, cmd
        self.kids = []
        self.gen = 0 if parent is None else parent.gen + 1
        if parent:
            parent.kids.append(self)

    def branch(self):
        return ([] if self.parent is None else self.parent.branch()) + [self]


def grow(c, real=False):
    tk = c.pick(["decimal", "float", "int"])
    unit = {"decimal": D("0.5"), "float": 0.5, "int": 1}[tk]
    t0 = unit * c.int(0, 6)
    root = Node((t0, state(c)))
    g = TrajectoryGraph()
    g.add_node(root.key, gen=0)
    nodes, keys = [root], {root.key}
    shape = c.pick(["path", "star", "random", "random", "wide", "single"])
    size = 0 if shape == "single" else c.int(1, 14)
    recur = 0
    dyn = BicycleDynamics(VehicleGeometry.default_car(), VehicleParameters.default_car()) if c.chance(0.3) else None
    order = c.pick(["depth", "breadth", "any"])
    for _ in range(size):
        par = {"path": nodes[-1], "star": root, "wide": c.pick(nodes[: max(1, len(nodes) // 2)])}.get(shape) or (
            nodes[-1] if order == "depth" and c.chance(0.7) else nodes[0] if order == "breadth" and c.chance(0.5) else c.pick(nodes))
        t, x = par.key
        k = c.int(1, 3)
        t1 = t + unit * k
        cmd = VehicleCommands(acc=c.u(-4, 3), ddelta=c.u(-0.5, 0.5))
        if dyn:
            x1 = dyn.successor(x, cmd, 0.1 * k)
        elif c.chance(0.35):
            # a state seen before, now at another time
            x1 = c.pick(nodes).key[1]
        else:
            x1 = state(c)
        if (t1, x1) in keys:
            continue
        if any(n.key[1] == x1 for n in nodes):
            recur += 1
            x1 = replace(x1)
        n_in = c.int(0, 3)
        ts = [t + (t1 - t) * (D(i) if tk == "decimal" else i) / (n_in + 1) for i in range(n_in + 2)]
        ts[0], ts[-1] = t, t1
        # the transition need not begin or end precisely at the nodes
        tr = Trajectory(ts, [x if c.chance(0.5) else state(c)] + [state(c) for _ in range(n_in)] + [x1 if c.chance(0.5) else state(c)])
        st = Trajectory([t, t1], [x, x1])
        g.add_edge(states=st, transition=tr, commands=cmd)
        node = Node((t1, x1), par, st, tr, cmd)
        nodes.append(node)
        keys.add(node.key)
        c.count("edges")
    return g, root, nodes, tk, shape, order, recur


def flat(node):
    ts, vs = [], []
    for n in node.branch()[1:]:
        i = 1 if ts else 0
        ts += list(n.transition.timestamps)[i:]
        vs += list(n.transition.values)[i:]
    return ts, vs


def lst(t):
    return ([*t.timestamps], [*t.values])


def check(c, g, root, nodes, where):
    leaves = [n for n in nodes if not n.kids]
    c.eq(set(g.nodes), {n.key for n in nodes}, "nodes of the graph", where=where)
    for n in nodes:
        c.eq(g.nodes[n.key]["gen"], n.gen, "generation of a node is its parent's plus one", node=n.key)
    got = [lst(t) for t in g.get_all_trajectories()]
    exp = [([k.key[0] for k in n.branch()], [k.key[1] for k in n.branch()]) for n in leaves]
    c.eq(len(got), len(exp), "one trajectory per leaf")
    for e in exp:
        c.true(e in got, "each branch is among the trajectories", branch=e, got=got)
    if len(nodes) == 1:
        return
    got = [lst(t) for t in g.get_all_transitions()]
    exp = [flat(n) for n in leaves]
    c.eq(len(got), len(exp), "one transition per leaf")
    for e in exp:
        c.true(e in got, "each branch's states are among the transitions", branch=e, got=got)
    for n in nodes:
        br = n.branch()
        i = c.int(0, len(br) - 1)
        a = br[i]
        t = g.get_trajectory(source=a.key, target=n.key)
        c.eq(lst(t), ([k.key[0] for k in br[i:]], [k.key[1] for k in br[i:]]), "trajectory from a node to a descendant")
        if n.parent:
            whole = g.get_trajectory(source=root.key, target=n.key)
            cmds = g.commands_on_trajectory(whole)
            c.eq(lst(cmds), ([k.parent.key[0] for k in br[1:]], [k.cmd for k in br[1:]]), "commands along a branch in time order")
            c.true(isinstance(cmds, DgSampledSequence), "commands come as a sequence")
            tr = g.get_transition(source=root.key, target=n.key)
            c.eq(lst(tr), flat(n), "transition along a branch")
            c.true(isinstance(tr, Trajectory) and isinstance(whole, Trajectory), "branches are trajectories")
        c.count("branches")


def trees(c):
    g, root, nodes, tk, shape, order, recur = grow(c)
    check(c, g, root, nodes, "grown")
    c.count("trees")
    c.count("recurring", recur)
    depth = max(n.gen for n in nodes)
    c.situation(shape, tk, order, "recurring" if recur else "distinct", "leaves", min(3, sum(not n.kids for n in nodes)), "depth", min(depth, 4))
    # refusals
    t, x = c.pick(nodes).key
    absent = c.pick([(t + 1000, x), (t, replace(x, x=x.x + 1)), (t, replace(x, delta=x.delta + 1e-9))])
    for f in (lambda: g.get_trajectory(root.key, absent), lambda: g.get_trajectory(absent, root.key), lambda: g.get_transition(root.key, absent),
              lambda: g.get_transition(absent, root.key), lambda: g.check_node(absent), lambda: g.commands_on_trajectory(Trajectory([t - 1000, t], [x, x])),
              lambda: g.add_edge(states=Trajectory([absent[0], absent[0] + 1], [absent[1], state(c)]), transition=Trajectory([absent[0], absent[0] + 1], [absent[1], state(c)]))):
        c.raises(f, "queries about absent nodes are refused", exc=ValueError)
        c.count("refused")
    if len(nodes) > 1:
        n = c.pick([n for n in nodes if n.parent])
        others = [k for k in nodes if k not in n.branch()]
        for f in (g.get_trajectory, g.get_transition):
            c.raises(lambda: f(n.key, n.parent.key), "no way back from a child to its parent", exc=ValueError)
            if others:
                o = c.pick(others)
                if n not in o.branch():
                    c.raises(lambda: f(n.key, o.key), "no way into another branch", exc=ValueError)
                    c.count("refused")
            c.count("refused")
    # none of the queries changed the graph
    check(c, g, root, nodes, "afterwards")
    c.eq(g.number_of_edges(), len(nodes) - 1, "one edge per child")


def growing(c):
    """queries in between do not disturb growing; an edge given twice is one edge"""
    g, root, nodes, tk, shape, order, recur = grow(c)
    for _ in range(3):
        par = c.pick(nodes)
        t1 = par.key[0] + 50 + len(nodes)
        x1 = state(c)
        tr = Trajectory([par.key[0], t1], [par.key[1], x1])
        cmd = VehicleCommands(acc=c.u(-1, 1), ddelta=0.0)
        g.add_edge(states=tr, transition=tr, commands=cmd)
        if c.chance(0.5):
            g.add_edge(states=tr, transition=tr, commands=cmd)
        nodes.append(Node((t1, x1), par, tr, tr, cmd))
        c.count("edges")
        check(c, g, root, nodes, "growing")
    c.count("trees")
    c.situation("growing", shape, tk)


def joined(c):
    """parts of a tree grown apart, asked about, joined, and asked again: what was no path before the joining is one afterwards"""
    unit = c.pick([D("0.5"), 0.5, 1])
    g = TrajectoryGraph()
    n = c.int(2, 5)  # parts, each a little tree
    root = Node((unit * 0, state(c)))
    g.add_node(root.key, gen=0)
    parts = [[root]]

    def extend(nodes):
        par = c.pick(nodes)
        t1 = par.key[0] + unit * c.int(1, 3)
        node = Node((t1, state(c)), par)
        node.states = Trajectory([par.key[0], t1], [par.key[1], node.key[1]])
        node.transition = Trajectory([par.key[0], par.key[0] + unit / 4 if not isinstance(unit, int) else par.key[0] + 0.25, t1], [par.key[1], state(c), node.key[1]])
        node.cmd = VehicleCommands(acc=c.u(-4, 3), ddelta=c.u(-0.5, 0.5))
        g.add_edge(states=node.states, transition=node.transition, commands=node.cmd)
        nodes.append(node)
        c.count("edges")

    for _ in range(c.int(0, 3)):
        extend(parts[0])
    joins = []
    for _ in range(n - 1):
        par = c.pick([m for p in parts for m in p])
        t1 = par.key[0] + unit * c.int(1, 3)
        node = Node((t1, state(c)))
        node.gen = par.gen + 1
        g.add_node(node.key, gen=node.gen)
        part = [node]
        parts.append(part)
        joins.append((par, node))
        for _ in range(c.int(0, 3)):
            extend(part)
    ask = [g.get_trajectory, g.get_transition]
    c.rng.shuffle(joins)
    for par, node in joins:
        above, below = par.branch(), [m for p in parts for m in p if node in m.branch()]
        for _ in range(3):
            a, b = c.pick(above), c.pick(below)
            for f in ask:
                c.raises(lambda: f(a.key, b.key), "no way into a part of the tree that is not joined yet", exc=ValueError)
        node.parent = par
        par.kids.append(node)
        node.states = node.transition = Trajectory([par.key[0], node.key[0]], [par.key[1], node.key[1]])
        node.cmd = VehicleCommands(acc=c.u(-4, 3), ddelta=c.u(-0.5, 0.5))
        g.add_edge(states=node.states, transition=node.transition, commands=node.cmd)
        for a in above:
            for b in below:
                br = b.branch()
                br = br[br.index(a):]
                keys = ([k.key[0] for k in br], [k.key[1] for k in br])
                t = g.get_trajectory(a.key, b.key)
                c.eq(lst(t), keys, "a trajectory across an edge added later")
                if c.chance(0.4):
                    c.eq(lst(g.commands_on_trajectory(t)), (keys[0][:-1], [k.cmd for k in br[1:]]), "commands across an edge added later")
                    c.eq(lst(g.get_transition(a.key, b.key))[0][-1], b.key[0], "a transition across an edge added later")
                c.count("ways that opened")
    check(c, g, root, [m for p in parts for m in p], "joined")
    c.count("trees")
    c.situation("joined", n, type(unit).__name__, min(4, max(m.gen for p in parts for m in p)))


FAMILIES = [("trees", trees, 350, 6000), ("growing", growing, 100, 1500), ("joined", joined, 120, 1800)]
