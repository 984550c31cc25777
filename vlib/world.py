"""Random real models, states and commands of dg-commons (public constructors only)."""
from __future__ import annotations

import math
from dataclasses import dataclass, fields, replace

import numpy as np
from shapely.geometry import Polygon

from dg_commons.sim.models import Pacejka4p, Pacejka
from dg_commons.sim.models.diff_drive import DiffDriveCommands, DiffDriveModel, DiffDriveState
from dg_commons.sim.models.diff_drive_structures import DiffDriveGeometry, DiffDriveParameters
from dg_commons.sim.models.obstacles import DynObstacleParameters, ObstacleGeometry, StaticObstacle
from dg_commons.sim.models.obstacles_dyn import DynObstacleCommands, DynObstacleModel, DynObstacleState
from dg_commons.sim.models.pedestrian import (
    PedestrianCommands,
    PedestrianGeometry,
    PedestrianModel,
    PedestrianParameters,
    PedestrianState,
)
from dg_commons.sim.models.rocket import RocketCommands, RocketModel, RocketState
from dg_commons.sim.models.rocket_structures import RocketGeometry, RocketParameters
from dg_commons.sim.models.spacecraft import SpacecraftCommands, SpacecraftModel, SpacecraftState
from dg_commons.sim.models.spacecraft_structures import SpacecraftGeometry, SpacecraftParameters
from dg_commons.sim.models.spaceship import SpaceshipCommands, SpaceshipModel, SpaceshipState
from dg_commons.sim.models.spaceship_structures import SpaceshipGeometry, SpaceshipParameters
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleModel, VehicleState
from dg_commons.sim.models.vehicle_dynamic import VehicleModelDyn, VehicleStateDyn
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.models.vehicle_utils import VehicleParameters

KIN = ("car", "bicycle", "truck")
DYN = ("car_dyn", "bicycle_dyn", "truck_dyn")
KINDS = KIN + DYN + ("pedestrian", "diff", "spacecraft", "rocket", "spaceship", "obstacle")
# models that carry their full linear and rotational velocity in their state
FULLVEL = DYN + ("pedestrian", "spacecraft", "rocket", "spaceship", "obstacle")

STATES = {
    **{k: VehicleState for k in KIN},
    **{k: VehicleStateDyn for k in DYN},
    "pedestrian": PedestrianState,
    "diff": DiffDriveState,
    "spacecraft": SpacecraftState,
    "rocket": RocketState,
    "spaceship": SpaceshipState,
    "obstacle": DynObstacleState,
}
COMMANDS = {
    **{k: VehicleCommands for k in KIN + DYN},
    "pedestrian": PedestrianCommands,
    "diff": DiffDriveCommands,
    "spacecraft": SpacecraftCommands,
    "rocket": RocketCommands,
    "spaceship": SpaceshipCommands,
    "obstacle": DynObstacleCommands,
}
RATES = ("vx", "vy", "dpsi")


def comps(x) -> list[str]:
    """Names of the numeric components of a state or a command"""
    return [f.name for f in fields(x) if f.name not in ("idx", "lights")]


def as_dict(x) -> dict[str, float]:
    return {n: float(getattr(x, n)) for n in comps(x)}


def vals(x) -> np.ndarray:
    return np.array([float(getattr(x, n)) for n in comps(x)])


def random_polygon(c, rmin=0.4, rmax=2.0, n=None, convex=None) -> Polygon:
    """A random simple polygon around the origin, counter clockwise"""
    n = c.int(3, 9) if n is None else n
    convex = c.chance(0.6) if convex is None else convex
    while True:
        an = sorted(c.u(0, 2 * math.pi) for _ in range(n))
        gaps = [(b - a) % (2 * math.pi) for a, b in zip(an, an[1:] + an[:1])]
        if max(gaps) < 2.6 and min(gaps) > 0.15:
            break
    if convex:
        r = c.u(rmin, rmax)
        sx, sy = 1.0, c.u(0.5, 1.0)
        p = Polygon([(sx * r * math.cos(a), sy * r * math.sin(a)) for a in an])
    else:
        p = Polygon([(c.u(rmin, rmax) * math.cos(a), c.u(rmin, rmax) * math.sin(a)) for a in an])
    if not p.is_valid or p.area < 0.05:
        return random_polygon(c, rmin, rmax, n, convex)
    return p


def geometry(c, kind: str):
    d = c.chance(0.3)  # defaults
    if kind in KIN + DYN:
        base = kind.split("_")[0]
        mk = getattr(VehicleGeometry, f"default_{base}")
        if d:
            return mk()
        s = {"car": (0.6, 1.1, 0.9, 1.9), "bicycle": (0.15, 0.4, 0.5, 1.2), "truck": (0.9, 1.5, 2.0, 5.0)}[base]
        lf = c.u(s[2], s[3])
        # the front/rear split of dynamic models stays close to the middle (load transfer)
        lr = c.u(s[2], s[3]) if kind in KIN else lf * c.u(0.8, 1.25)
        g = mk(m=c.u(60, 9000), Iz=c.u(60, 9000), w_half=c.u(s[0], s[1]), lf=lf, lr=lr)
        return replace(g, e=c.u(0.05, 0.95))
    if kind == "pedestrian":
        return PedestrianGeometry.default() if d else PedestrianGeometry(m=c.u(30, 120), Iz=c.u(5, 80), e=c.u(0.05, 0.9), color="pink")
    if kind == "diff":
        if d:
            return DiffDriveGeometry.default()
        r = c.u(0.3, 1.0)
        return replace(
            DiffDriveGeometry.default(m=c.u(1, 50), Iz=c.u(1, 50), wheelbase=r * c.u(1.0, 1.9), wheelradius=c.u(0.05, 0.3), radius=r),
            e=c.u(0.05, 0.9),
        )
    if kind == "spacecraft":
        if d:
            return SpacecraftGeometry.default()
        lf = c.u(1.2, 3)
        return replace(
            SpacecraftGeometry.default(m=c.u(20, 200), Iz=c.u(20, 300), w_half=c.u(0.5, 1.5), lf=lf, lr=lf + c.u(0.1, 2)),
            e=c.u(0.05, 0.9),
        )
    if kind == "rocket":
        if d:
            return RocketGeometry.default()
        return replace(
            RocketGeometry.default(m=c.u(1, 6), Iz=c.u(0.5, 5), w_half=c.u(0.1, 0.5), l_c=c.u(0.1, 0.6), l_f=c.u(0.05, 0.3), l_m=c.u(0.1, 0.5), l_r=c.u(0.1, 0.6)),
            e=c.u(0.05, 0.9),
        )
    if kind == "spaceship":
        if d:
            return SpaceshipGeometry.default()
        return replace(
            SpaceshipGeometry.default(m=c.u(1, 6), Iz=c.u(0.5, 5), w_half=c.u(0.2, 0.7), l_c=c.u(0.3, 1), l_f=c.u(0.2, 0.8), l_r=c.u(0.5, 1.5)),
            e=c.u(0.05, 0.9),
        )
    if kind == "obstacle":
        return ObstacleGeometry(m=c.u(5, 5000), Iz=c.u(5, 5000), e=c.u(0.05, 0.95))
    raise ValueError(kind)


def parameters(c, kind: str):
    d = c.chance(0.3)
    if kind in KIN + DYN:
        base = kind.split("_")[0]
        if d:
            return getattr(VehicleParameters, f"default_{base}")()
        return VehicleParameters(
            vx_limits=(-c.u(0.5, 8), c.u(8, 40)),
            acc_limits=(-c.u(1, 10), c.u(1, 8)),
            delta_max=c.u(0.3, 1.1),
            ddelta_max=c.u(0.2, 2.0),
        )
    if kind == "pedestrian":
        if d:
            return PedestrianParameters.default()
        return PedestrianParameters(vx_limits=(-c.u(0.3, 2), c.u(1, 6)), acc_limits=(-c.u(1, 5), c.u(1, 5)), dtheta_max=c.u(0.5, 4))
    if kind == "diff":
        return DiffDriveParameters.default() if d else DiffDriveParameters.default(omega_limits=(-c.u(0.5, 8), c.u(1, 9)))
    if kind == "spacecraft":
        if d:
            return SpacecraftParameters.default()
        return SpacecraftParameters(vx_limits=(-c.u(5, 15), c.u(5, 15)), acc_limits=(-c.u(1, 10), c.u(1, 10)), dpsi_limits=(-c.u(0.5, 6), c.u(0.5, 6)))
    if kind == "rocket":
        if d:
            return RocketParameters.default()
        return RocketParameters.default(
            m_v=c.u(1, 3), C_T=c.u(0.005, 0.1), F_limits=(0.0, c.u(0.5, 5)),
            delta_limits=(-c.u(0.2, 1.2), c.u(0.2, 1.2)), ddelta_limits=(-c.u(0.1, 1.5), c.u(0.1, 1.5)),
        )
    if kind == "spaceship":
        if d:
            return SpaceshipParameters.default()
        return SpaceshipParameters.default(
            m_v=c.u(1, 3), C_T=c.u(0.005, 0.1), thrust_limits=(-c.u(0.5, 3), c.u(0.5, 4)),
            delta_limits=(-c.u(0.2, 1.2), c.u(0.2, 1.2)), ddelta_limits=(-c.u(0.1, 1.5), c.u(0.1, 1.5)),
        )
    if kind == "obstacle":
        if d:
            return DynObstacleParameters(vx_limits=(-10, 10), acc_limits=(-10, 10))
        return DynObstacleParameters(
            vx_limits=(-c.u(3, 20), c.u(3, 20)), acc_limits=(-c.u(1, 12), c.u(1, 12)),
            dpsi_limits=(-c.u(0.5, 3), c.u(0.5, 3)), ddpsi_limits=(-c.u(0.3, 3), c.u(0.3, 3)),
        )
    raise ValueError(kind)


def faint(c):
    """Mostly 1, sometimes small: what is slow or weak is not nothing"""
    return 10 ** c.u(-5, -1) if c.chance(0.05) else 1.0


def state(c, kind: str, p, g=None, *, at=None, inner: float = 0.8, speed=None):
    """A random state whose limited components lie within `inner` of their limits"""
    x, y, psi = (c.u(-30, 30), c.u(-30, 30), c.ang(1.5)) if at is None else at

    def lim(lo, hi):
        m, h = (lo + hi) / 2, (hi - lo) / 2 * inner
        v = c.u(m - h, m + h)
        return v * faint(c) if lo <= 0 <= hi else v

    def v(a):
        return c.u(-a, a) * faint(c)

    if kind in KIN:
        return VehicleState(x=x, y=y, psi=psi, vx=lim(*p.vx_limits) if speed is None else speed, delta=lim(-p.delta_max, p.delta_max))
    if kind in DYN:
        vx = c.u(0.15, inner * p.vx_limits[1]) if speed is None else speed
        return VehicleStateDyn(
            x=x, y=y, psi=psi, vx=vx, delta=c.u(-0.2, 0.2) * p.delta_max, vy=c.u(-0.08, 0.08) * vx, dpsi=c.u(-0.08, 0.08) * vx
        )
    if kind == "pedestrian":
        return PedestrianState(x=x, y=y, psi=psi, vx=lim(*p.vx_limits), vy=v(1), dpsi=v(1))
    if kind == "diff":
        return DiffDriveState(x=x, y=y, psi=psi)
    if kind == "spacecraft":
        return SpacecraftState(x=x, y=y, psi=psi, vx=v(8), vy=v(8), dpsi=lim(*p.dpsi_limits))
    if kind == "rocket":
        return RocketState(x=x, y=y, psi=psi, m=p.m_v + c.u(0.3, 3), vx=v(3), vy=v(3), dpsi=v(2), phi=lim(*p.delta_limits))
    if kind == "spaceship":
        return SpaceshipState(x=x, y=y, psi=psi, m=p.m_v + c.u(0.3, 3), vx=v(3), vy=v(3), dpsi=v(2), delta=lim(*p.delta_limits))
    if kind == "obstacle":
        return DynObstacleState(x=x, y=y, psi=psi, vx=lim(*p.vx_limits), vy=lim(*p.vx_limits), dpsi=lim(*p.dpsi_limits))
    raise ValueError(kind)


def command(c, kind: str, p, scale: float = 0.9, wild: bool = False):
    """A random command, within `scale` of the actuator limits (or far outside of them if wild)"""

    def lim(lo, hi):
        if wild:
            r = c.rng.random()
            if r < 0.25:
                return c.pick((lo, hi))
            if r < 0.75:
                return c.sign() * 10 ** c.u(0, 9)
        m, h = (lo + hi) / 2, (hi - lo) / 2 * scale
        v = c.u(m - h, m + h)
        return v * faint(c) if lo <= 0 <= hi else v

    if kind in KIN + DYN:
        return VehicleCommands(acc=lim(*p.acc_limits), ddelta=lim(-p.ddelta_max, p.ddelta_max))
    if kind == "pedestrian":
        return PedestrianCommands(acc=lim(*p.acc_limits), dpsi=lim(-p.dtheta_max, p.dtheta_max))
    if kind == "diff":
        return DiffDriveCommands(omega_l=lim(*p.omega_limits), omega_r=lim(*p.omega_limits))
    if kind == "spacecraft":
        return SpacecraftCommands(acc_left=lim(*p.acc_limits), acc_right=lim(*p.acc_limits))
    if kind == "rocket":
        return RocketCommands(F_left=lim(*p.F_limits), F_right=lim(*p.F_limits), dphi=lim(*p.ddelta_limits))
    if kind == "spaceship":
        return SpaceshipCommands(thrust=lim(*p.thrust_limits), ddelta=lim(*p.ddelta_limits))
    if kind == "obstacle":
        return DynObstacleCommands(acc_x=lim(*p.acc_limits), acc_y=lim(*p.acc_limits), acc_psi=lim(*p.ddpsi_limits))
    raise ValueError(kind)


def zero_command(kind: str):
    t = COMMANDS[kind]
    return t(**{n.name: 0.0 for n in fields(t) if n.name not in ("idx", "lights")})


def make(kind: str, x0, g, p, shape=None):
    x0 = replace(x0)
    if kind in KIN:
        return VehicleModel(x0, g, p)
    if kind in DYN:
        base = kind.split("_")[0]
        return VehicleModelDyn(x0, g, p, getattr(Pacejka4p, f"default_{base}_front")(), getattr(Pacejka4p, f"default_{base}_rear")())
    if kind == "pedestrian":
        return PedestrianModel(x0, g, p)
    if kind == "diff":
        return DiffDriveModel(x0, g, p)
    if kind == "spacecraft":
        return SpacecraftModel(x0, g, p)
    if kind == "rocket":
        return RocketModel(x0, g, p)
    if kind == "spaceship":
        return SpaceshipModel(x0, g, p)
    if kind == "obstacle":
        return DynObstacleModel(x0, shape, g, p)
    raise ValueError(kind)


@dataclass
class Spec:
    """Everything needed to build (again) a model"""

    kind: str
    x0: object
    g: object
    p: object
    shape: object = None

    def build(self, x0=None):
        return make(self.kind, self.x0 if x0 is None else x0, self.g, self.p, self.shape)


def spec(c, kind=None, **kw) -> Spec:
    kind = c.pick(KINDS) if kind is None else kind
    g, p = geometry(c, kind), parameters(c, kind)
    shape = None
    if kind == "obstacle":
        shape = random_polygon(c)
        # the documentation asks for a shape centered around the origin
        from shapely.affinity import translate

        shape = translate(shape, -shape.centroid.x, -shape.centroid.y)
    return Spec(kind, state(c, kind, p, g, **kw), g, p, shape)


def move(st, T):
    """The same state in a world moved by the rigid transformation T=(x,y,theta) (body frame velocities kept)"""
    tx, ty, th = T
    c, s = math.cos(th), math.sin(th)
    kw = dict(x=c * st.x - s * st.y + tx, y=s * st.x + c * st.y + ty, psi=st.psi + th)
    if isinstance(st, RocketState):  # global frame velocities
        kw.update(vx=c * st.vx - s * st.vy, vy=s * st.vx + c * st.vy)
    return replace(st, **kw)


def mirror(st):
    """Left-right mirrored state"""
    kw = dict(y=-st.y, psi=-st.psi)
    for n in ("vy", "dpsi", "delta"):
        if hasattr(st, n):
            kw[n] = -getattr(st, n)
    return replace(st, **kw)


def mirror_command(kind: str, u):
    """The command that does the same in the left-right mirrored world"""
    if kind in KIN + DYN or kind == "spaceship":
        return replace(u, ddelta=-u.ddelta)
    if kind == "pedestrian":
        return replace(u, dpsi=-u.dpsi)
    if kind == "diff":
        return replace(u, omega_l=u.omega_r, omega_r=u.omega_l)
    if kind == "spacecraft":
        return replace(u, acc_left=u.acc_right, acc_right=u.acc_left)
    if kind == "rocket":
        return replace(u, F_left=u.F_right, F_right=u.F_left)
    if kind == "obstacle":
        return replace(u, acc_y=-u.acc_y, acc_psi=-u.acc_psi)
    raise ValueError(kind)
