"""L04: converting a recorded scenario preserves its obstacles."""
import math
import os
import tempfile

import numpy as np
from commonroad.common.file_reader import CommonRoadFileReader
from commonroad.common.file_writer import CommonRoadFileWriter, OverwriteExistingFile
from commonroad.geometry.shape import Circle, Polygon as CrPolygon, Rectangle
from commonroad.planning.planning_problem import PlanningProblemSet
from commonroad.prediction.prediction import TrajectoryPrediction
from commonroad.scenario.obstacle import DynamicObstacle, ObstacleType, StaticObstacle
from commonroad.scenario.scenario import Location
from commonroad.scenario.state import InitialState, KSState
from commonroad.scenario.trajectory import Trajectory

from shapely.geometry import Polygon as SPolygon

from vlib import roads as R
from vlib.core import rot, wrap
from vlib.curve import Curve
from dg_commons.sim.models import extract_pose_from_state
from dg_commons.sim.models.pedestrian import PedestrianModel
from dg_commons.sim.models.vehicle import VehicleModel
from dg_commons.sim.scenarios import NotSupportedConversion
from dg_commons.sim.scenarios.factory import get_scenario_commonroad_replica
from dg_commons.sim.scenarios.model_from_dyn_obstacle import infer_model_from_cr_dyn_obstacle

ID = "L04"
RULE = ("distinct (road layout, obstacle type, shape, moving or not, on which lanelets) classes in which obstacles written to a CommonRoad file came "
        "back from the real conversion and were compared with what had been recorded")
REQUIRE = {"scenarios": 40, "players": 120, "static": 120, "skipped": 10, "lanes from the network": 60, "on a crossing": 5, "lanes from the trajectory": 15, "recorded players": 6, "single models": 80, "refused": 30}
MIN_SITUATIONS = 40
CPU_LIMIT = 300

SUPPORTED = (ObstacleType.CAR, ObstacleType.TRUCK, ObstacleType.BUS, ObstacleType.BICYCLE)
OTHER = (ObstacleType.PEDESTRIAN, ObstacleType.MOTORCYCLE, ObstacleType.UNKNOWN, ObstacleType.TAXI, ObstacleType.TRAIN)


def network(c):
    """layout, lanelets and routes (sequences of lanelet indices a vehicle may take)"""
    k = c.pick(["straight chain", "bend", "fork", "crossing", "ring", "opposite lanes", "merge"])
    ids = c.pick([list(range(1, 30)), [11, 1, 111, 12, 2, 22, 112, 121, 3], [100, 10, 1, 1000, 101, 110, 11, 111, 2]])
    if k in ("straight chain", "bend"):
        n, m = c.int(1, 4), 6
        pts, ths = R.centerline(c, n=n * (m - 1) + 1, ds=c.u(3, 6), straight=k == "straight chain", kmax=0.02)
        ls = []
        for i in range(n):
            s = slice(i * (m - 1), (i + 1) * (m - 1) + 1)
            ls.append(R.lanelet(ids[i], pts[s], ths[s], np.full(m, 2.0), [ids[i - 1]] if i else [], [ids[i + 1]] if i < n - 1 else []))
        return k, ls, [list(range(i, j + 1)) for i in range(n) for j in range(i, n)]
    a = c.ang() if c.chance(0.5) else c.pick([math.pi, math.pi, -math.pi, math.pi / 2, 0.0])  # due west: headings wrap around
    o = np.array([c.u(-50, 50), c.u(-50, 50)])

    def arc(lid, start, th, kap, n, ds, pred, succ):
        P, T, (x, y) = [tuple(start)], [th], start
        for _ in range(n - 1):
            if abs(kap) < 1e-9:
                x, y = x + ds * math.cos(th), y + ds * math.sin(th)
            else:
                x += (math.sin(th + kap * ds) - math.sin(th)) / kap
                y += (-math.cos(th + kap * ds) + math.cos(th)) / kap
                th += kap * ds
            P.append((x, y))
            T.append(th)
        return R.lanelet(lid, P, T, np.full(n, 1.8), pred, succ), (x, y), th

    if k == "fork":
        l0, p, th = arc(ids[0], o, a, 0.0, 7, 4.0, [], [ids[1], ids[2]])
        l1, _, _ = arc(ids[1], p, th, 0.03, 8, 4.0, [ids[0]], [])
        l2, _, _ = arc(ids[2], p, th, -0.03, 8, 4.0, [ids[0]], [])
        return k, [l0, l1, l2], [[0, 1], [0, 2], [0], [1], [2]]
    if k == "merge":
        kap = c.sign() * 0.01 if c.chance(0.6) else 0.0  # its heading wraps around just before the other one joins
        l0, p, th = arc(ids[0], o, math.pi - 5.5 * 4 * kap if kap else a, kap, 7, 4.0, [], [ids[2]])
        turn = c.sign() * 0.15
        P, t = [np.array(p)], th  # from the side
        for _ in range(9):
            t -= turn / 2
            P.append(P[-1] - [math.cos(t), math.sin(t)])
            t -= turn / 2
        l1 = R.lanelet(ids[1], P[::-1], [th - turn * j for j in range(9, -1, -1)], np.full(10, 1.8), [], [ids[2]])
        l2, _, _ = arc(ids[2], p, th, 0.0, 7, 4.0, [ids[0], ids[1]], [])
        return k, [l0, l1, l2], [[0, 2], [1, 2], [0], [2]]
    if k == "crossing":
        b = a + c.sign() * c.u(0.9, 2.2)
        d, e = 40 * np.array([math.cos(a), math.sin(a)]), 40 * np.array([math.cos(b), math.sin(b)])
        ls = [R.straight(ids[0], o - d, o + d, 2.0, 9), R.straight(ids[1], o - e, o + e, 2.0, 9)]
        return k, ls, [[0], [1]]
    if k == "opposite lanes":
        d, n = 60 * np.array([math.cos(a), math.sin(a)]), 4.0 * np.array([-math.sin(a), math.cos(a)])
        return k, [R.straight(ids[0], o, o + d, 2.0, 8), R.straight(ids[1], o + n + d, o + n, 2.0, 8)], [[0], [1]]
    ls = R.ring(c, first=1, n=6, radius=25.0, r=2.0, at=tuple(o), m=7)
    return k, ls, [[i, (i + 1) % 6] for i in range(6)] + [[i] for i in range(6)]


def route_curve(ls, route):
    pts, ths = [], []
    for j, i in enumerate(route):
        p = np.array(ls[i].center_vertices)
        d = np.array(ls[i].left_vertices) - np.array(ls[i].right_vertices)
        t = np.arctan2(d[:, 1], d[:, 0]) - math.pi / 2
        s = 0 if j == 0 else 1
        pts += list(p[s:])
        ths += list(t[s:])
    return Curve(pts, ths, [2.0] * len(pts))


def drive(c, ls, route, lateral, overlap=False):
    """states of a vehicle going along a route: from somewhere on its first to somewhere on its last lanelet"""
    cur = route_curve(ls, route)
    first = len(ls[route[0]].center_vertices) - 1
    last = len(ls[route[-1]].center_vertices) - 1
    lo, hi = c.u(0.4, 0.5 * first), cur.n - 1 - c.u(0.4, 0.45 * last)
    if len(route) == 1:
        lo, hi = c.u(0.4, 0.4 * first), c.u(0.6 * first, first - 0.4)
        if overlap:  # begins or ends where the lanes cross
            mid = 0.5 * first + c.u(-0.2, 0.2)
            lo, hi = c.pick([(lo, mid), (lo, mid), (mid, hi), (mid - 0.12, mid + 0.08)])
            c.count("on a crossing")
    elif overlap:  # begins where two lanes have merged already
        lo = first - c.u(2.6, 4.4) / cur.lengths[first - 1]
        c.count("on a crossing")
    m = c.int(2, 25)
    out = []
    for b in np.linspace(lo, hi, m + 1):
        q = cur.at(b)
        out.append((q[:2] + lateral * np.array([-math.sin(q[2]), math.cos(q[2])]), wrap(q[2])))
    return cur, out


def obstacle_shape(c, rect=False):
    k = "rectangle" if rect else c.pick(["rectangle", "rectangle", "circle", "polygon"])
    if k == "rectangle":
        return k, Rectangle(c.u(1.5, 9), c.u(0.6, 2.6))
    if k == "circle":
        return k, Circle(c.u(0.3, 2))
    v = np.array([[-1.0, -1.0], [2.0 * c.u(0.5, 1), -1.0], [0.5, 1.5 * c.u(0.5, 1)], [-1, 1]])
    return k, CrPolygon(v - np.array(SPolygon(v).centroid.coords[0]))  # the recorded position is the centre of the shape


def init(p, th, v):
    return InitialState(position=np.array(p, float), orientation=float(th), velocity=float(v), time_step=0, acceleration=0.0, yaw_rate=0.0, slip_angle=0.0)


def dyn(c, oid, typ, shape, states, v):
    i = init(*states[0], v)
    st = [KSState(position=np.array(p, float), orientation=float(t), velocity=float(v), steering_angle=0.0, time_step=j) for j, (p, t) in enumerate(states[1:], 1)]
    return DynamicObstacle(oid, typ, shape, i, TrajectoryPrediction(Trajectory(1, st), shape))


def area_diff(a, b):
    return a.symmetric_difference(b).area / max(a.area, b.area)


def judge(c, ctx, obstacles, info, ego, ids):
    """obstacles: recorded dynamic ones in recorded order, then static ones; info: oid -> what the generator knows"""
    expected_players, expected_static = {}, []
    for i, o in enumerate(obstacles):
        kind = info[o.obstacle_id]["fate"]
        if kind == "player":
            name = f"P{i}"
            expected_players["Ego" if name == ego else name] = o
        elif kind == "static":
            expected_static.append(o)
        else:
            c.count("skipped")
    c.eq(set(ctx.players), set(expected_players), "one player per moving supported obstacle")
    c.eq(set(ctx.models), set(expected_players), "one model per moving supported obstacle")
    got = list(ctx.dg_scenario.static_obstacles)
    c.eq(len(got), len(expected_static), "each static or parked obstacle becomes a static obstacle, and nothing else does")
    for o in expected_static:
        place = o.occupancy_at_time(o.initial_state.time_step).shape.shapely_object
        c.true(any(area_diff(g.shape, place) < (0.01 if isinstance(o.obstacle_shape, Circle) else 1e-6) and g.obstacle_type == o.obstacle_type for g in got), "a static obstacle occupies the recorded place",
               place=place.wkt, got=[g.shape.wkt for g in got])
        c.count("static")
    for name, o in expected_players.items():
        m = ctx.models[name]
        x = m.get_state()
        i = o.initial_state
        c.close([x.x, x.y], i.position, "initial position", atol=1e-9, player=name)
        c.close(wrap(x.psi - i.orientation), 0, "initial heading", atol=1e-9, player=name)
        c.close(x.vx, i.velocity, "initial speed", atol=1e-9, player=name)
        g = m.model_geometry
        l, w = o.obstacle_shape.length, o.obstacle_shape.width
        c.close([g.lf + g.lr, 2 * g.w_half], [0.7 * l, 0.95 * w], "wheelbase and track follow the recorded dimensions", rtol=0.03, player=name, length=l, width=w)
        fp = m.get_footprint()
        local = rot(-x.psi) @ (np.array(fp.exterior.coords).T - np.array([[x.x], [x.y]]))
        dims = local.max(axis=1) - local.min(axis=1)
        c.true(abs(dims[0] - l) <= 0.75 + 0.13 * l and abs(dims[1] - w) <= 0.3 + 0.06 * w, "the body has about the recorded dimensions", got=dims, recorded=(l, w))
        c.true(m.has_collided is False, "players start unharmed")
        agent = ctx.players[name]
        lane = getattr(agent, "ref_lane")
        c.true(g is m.model_geometry, "geometry")
        pts = np.array([p.q.p for p in lane.control_points])
        ths = np.array([p.q.theta for p in lane.control_points])
        rs = [p.r for p in lane.control_points]
        ref = Curve(pts, ths, rs)
        start, end = i.position, o.prediction.trajectory.state_list[-1].position
        step = max([np.linalg.norm(np.array(o.prediction.trajectory.state_list[0].position) - start)] + ref.lengths)
        bs, ds = ref.closest(np.array(start), lo=-1 - float(np.linalg.norm(pts[0] - start)) if info[o.obstacle_id].get("known") is False else 0.0, hi=ref.n - 1.0, k=20)
        be, de = ref.closest(np.array(end), lo=0.0, hi=ref.n - 1.0, k=20)
        c.true(ds <= ref.radius(bs) + 0.05 and bs >= -1e-3 - np.linalg.norm(pts[0] - start), "the lane followed starts where the player starts", distance=ds, player=name)
        c.true(de <= ref.radius(be) + 0.05 and be <= ref.n - 1 + 1e-3, "the lane followed reaches the recorded final position", distance=de, progress=be, of=ref.n - 1, player=name)
        if not info[o.obstacle_id].get("loop"):
            c.true(be >= bs - 1e-3, "start and end come in order along the lane", start=bs, end=be)
        if info[o.obstacle_id].get("known"):
            # started in the direction of a lane of the network: the lane goes that way
            q = ref.at(max(bs, 0))
            c.le(abs(wrap(q[2] - i.orientation)), 0.35, "the lane followed is aligned with the player", player=name)
            net = np.concatenate([l.center_vertices for l in ctx.dg_scenario.scenario.lanelet_network.lanelets])
            c.le(max(np.hypot(*(net - p).T).min() for p in pts), 1e-6, "the lane followed is one of the network", player=name)
            c.count("lanes from the network")
        elif info[o.obstacle_id].get("known") is False:
            st = o.prediction.trajectory.state_list
            c.close(pts[-1], end, "a lane made of the recorded trajectory ends where it ends", atol=1e-6)
            c.le(max(ref.closest(np.array(s.position), k=20)[1] for s in st), 1e-3 + 0.05 * step, "a lane made of the recorded trajectory follows it")
            c.count("lanes from the trajectory")
        c.count("players")


def synthetic(c):
    k, ls, routes = network(c)
    sc = R.scenario(ls)
    info, dyns, stats = {}, [], []
    oid = 5000
    far = 1.0 * max(np.abs(np.concatenate([l.center_vertices for l in ls])).max(), 1)
    for _ in range(c.int(3, 9)):
        oid += c.int(1, 5)
        what = c.pick(["on route", "on route", "on route", "off road", "lane change", "parked", "parked", "unsupported", "barely", "jitter"])
        typ = c.pick(SUPPORTED)
        sk, shape = obstacle_shape(c, rect=True)
        v = c.u(1, 14)
        if what in ("on route", "unsupported"):
            if what == "unsupported":
                typ = c.pick(OTHER)
            route = c.pick(routes)
            _, st = drive(c, ls, route, c.u(-0.6, 0.6), overlap=k in ("crossing", "merge") and c.chance(0.7))
            d = dyn(c, oid, typ, shape, st, v)
            info[oid] = dict(fate="player" if what == "on route" else "skip", known=True, loop=k == "ring")
        elif what == "off road":
            p, th = np.array([far + c.u(80, 200), c.u(-50, 50)]), c.ang()
            st = [(p + j * c.u(0.8, 1.2) * np.array([math.cos(th), math.sin(th)]), th) for j in range(c.int(3, 12))]
            d = dyn(c, oid, typ, shape, st, v)
            info[oid] = dict(fate="player", known=False, loop=False)
        elif what == "lane change":
            if k != "opposite lanes":
                continue
            a, b = ls[0].center_vertices, ls[1].center_vertices[::-1]
            n = c.int(6, 20)
            s = np.linspace(0.15, 0.85, n)
            f = lambda q, t: np.array([np.interp(t, np.linspace(0, 1, len(q)), q[:, 0]), np.interp(t, np.linspace(0, 1, len(q)), q[:, 1])])
            P = [f(a, t) * (1 - t2) + f(b, t) * t2 for t, t2 in zip(s, np.clip((s - 0.3) / 0.4, 0, 1))]
            st = [(p, math.atan2(*(P[min(j + 1, n - 1)] - P[max(j - 1, 0)])[::-1])) for j, p in enumerate(P)]
            d = dyn(c, oid, typ, shape, st, v)
            info[oid] = dict(fate="player", known=False, loop=False)
        else:
            route = c.pick(routes)
            cur, st = drive(c, ls, route, c.u(-1, 1))
            p, th = st[0]
            typ = c.pick(SUPPORTED + OTHER)
            sk, shape = obstacle_shape(c)
            if what == "parked":
                st = [(p, th)] * c.int(2, 9)
            elif what == "jitter":  # moves a little and comes back
                st = [(p + c.u(-0.05, 0.05), th + c.u(-0.01, 0.01)) for _ in range(c.int(2, 9))]
            else:  # hardly more or hardly less than what counts as parked
                far_enough = c.chance(0.5)
                e = np.array([math.cos(th), math.sin(th)]) * (c.u(0.23, 0.5) if far_enough else c.u(0.1, 0.17))
                st = [(p, th), (p + e / 2, th), (p + e, th)]
                if far_enough:
                    typ = c.pick(SUPPORTED)
                    sk, shape = obstacle_shape(c, rect=True)
            d = dyn(c, oid, typ, shape, st, 0.0 if what == "parked" else 0.3)
            info[oid] = dict(fate="player" if what == "barely" and far_enough else "static", known=None, loop=True)
        c.situation(k, what, typ.value, sk)
        dyns.append(d)
    for _ in range(c.int(0, 4)):
        oid += c.int(1, 5)
        sk, shape = obstacle_shape(c)
        if c.chance(0.35):  # posts, debris, walls
            sk, shape = c.pick([("post", Circle(10 ** c.u(-2, 0))), ("debris", Rectangle(10 ** c.u(-2, -0.5), 10 ** c.u(-2, -0.5))), ("wall", Rectangle(c.u(20, 200), c.u(0.02, 0.3)))])
        typ = c.pick([ObstacleType.PARKED_VEHICLE, ObstacleType.BUILDING, ObstacleType.CONSTRUCTION_ZONE, ObstacleType.PILLAR])
        s = StaticObstacle(oid, typ, shape, init([c.u(-80, 80), c.u(-80, 80)], c.ang(), 0.0))
        stats.append(s)
        info[oid] = dict(fate="static")
        c.situation(k, "static", typ.value, sk)
    sc.add_objects(dyns + stats)
    ego = f"P{c.int(0, len(dyns))}" if c.chance(0.5) else None
    c.note(layout=k, ego=ego, obstacles=[(d.obstacle_id, d.obstacle_type, info[d.obstacle_id]) for d in dyns])
    with tempfile.TemporaryDirectory() as tmp:
        w = CommonRoadFileWriter(sc, PlanningProblemSet(), author="v", affiliation="v", source="v", tags=set(), location=Location(), decimal_precision=12)
        w.write_to_file(os.path.join(tmp, "synthetic.xml"), OverwriteExistingFile.ALWAYS, check_validity=False)
        back, _ = CommonRoadFileReader(os.path.join(tmp, "synthetic.xml")).open(lanelet_assignment=True)
        if c.chance(0.5):
            os.makedirs(os.path.join(tmp, "deeper", "down"))
            os.rename(os.path.join(tmp, "synthetic.xml"), os.path.join(tmp, "deeper", "down", "synthetic.xml"))
        ctx = get_scenario_commonroad_replica(c.pick(["synthetic", "synthetic.xml"]), scenarios_dir=tmp, ego_player=ego)
    # judged against what the file says
    judge(c, ctx, list(back.dynamic_obstacles) + list(back.static_obstacles), info, ego, None)
    for d in dyns:  # the file says what was recorded
        b = back.obstacle_by_id(d.obstacle_id)
        c.close(b.initial_state.position, d.initial_state.position, "harness: file keeps positions", atol=1e-6)
    c.count("scenarios")


def single(c):
    """the model of one obstacle"""
    typ = c.pick(SUPPORTED + OTHER)
    sk, shape = obstacle_shape(c, rect=True)
    if c.chance(0.35):  # buses and the like
        shape = Rectangle(c.u(9, 25), c.u(1.5, 3))
    p, th, v = (c.u(-200, 200), c.u(-200, 200)), c.ang(), c.pick([c.u(-1, 14), c.u(-1, 14), c.u(-2, 0)])
    turn = c.pick([0.0, c.u(-0.1, 0.1), c.u(-0.1, 0.1)])
    n = c.int(2, 5)
    rec = lambda th: dyn(c, 7, typ, shape, [((p[0] + j * v / 10, p[1]), wrap(th + j * turn)) for j in range(n)], v)
    if c.chance(0.2):  # pointing west: orientations are recorded modulo a full turn
        th = wrap(math.pi + c.u(-0.1, 0.1))
    d = rec(th)
    c.situation("single", typ.value)
    if typ not in SUPPORTED + (ObstacleType.PEDESTRIAN,):
        c.raises(lambda: infer_model_from_cr_dyn_obstacle(d, "red"), "obstacles of unsupported types have no model", exc=NotSupportedConversion)
        c.count("refused")
        return
    m = infer_model_from_cr_dyn_obstacle(d, "red")
    s = m.get_state()
    c.close([s.x, s.y, s.psi, s.vx], [*p, th, v], "the model starts where and as the obstacle does", atol=1e-12, type=typ)
    kind = "pedestrian" if typ == ObstacleType.PEDESTRIAN else "vehicle"
    c.true(isinstance(m, PedestrianModel if kind == "pedestrian" else VehicleModel), "kind of the model", type=typ, got=type(m))
    if kind == "vehicle":
        g = m.model_geometry
        c.eq(g.color, "red", "colour of the model")
        c.true(s.delta * turn > 0 if turn else abs(s.delta) < 1e-9, "wheels point to where the obstacle is turning", recorded=(th, turn), steering=s.delta)
        c.le(abs(s.delta), 2 * abs(turn) / shape.length + 1e-9, "wheels are turned as little as the obstacle turns", recorded=(th, turn), steering=s.delta)
        c.close(infer_model_from_cr_dyn_obstacle(rec(wrap(th + c.ang())), "red").get_state().delta, s.delta, "wheels do not depend on the world frame", atol=1e-9, recorded=(th, turn))
        c.close([g.lf, g.lr, g.w_half], [0.35 * shape.length, 0.35 * shape.length, 0.475 * shape.width], "axles follow the recorded dimensions", rtol=0.03)
        c.eq(g.vehicle_type, VehicleModel.default_bicycle(s).model_geometry.vehicle_type if typ == ObstacleType.BICYCLE else VehicleModel.default_car(s).model_geometry.vehicle_type, "kind of vehicle", type=typ)
    c.count("single models")


FILES = ["USA_Phoenix-51_10_T-1", "ESP_Barcelona-20_23_T-1"]


def recorded(c):
    f = FILES[c.index % len(FILES)]
    d = "/repo/scenarios/testing"
    back, _ = CommonRoadFileReader(f"{d}/{f}.xml").open(lanelet_assignment=True)
    ctx = get_scenario_commonroad_replica(f, scenarios_dir=d)
    info = {}
    for o in back.dynamic_obstacles:
        moved = np.linalg.norm(o.initial_state.position - o.prediction.trajectory.state_list[-1].position)
        if abs(moved - 0.2) < 0.02:
            return
        info[o.obstacle_id] = dict(fate="static" if moved < 0.2 else "player" if o.obstacle_type in SUPPORTED else "skip", known=None, loop=True)
    for o in back.static_obstacles:
        info[o.obstacle_id] = dict(fate="static")
    n = c.counts["players"]
    judge(c, ctx, list(back.dynamic_obstacles) + list(back.static_obstacles), info, None, None)
    c.count("recorded players", c.counts["players"] - n)
    c.situation("recorded", f)


FAMILIES = [("recorded", recorded, 2, 4), ("synthetic", synthetic, 80, 1200), ("single", single, 200, 2000)]
