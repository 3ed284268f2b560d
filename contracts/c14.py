from contracts._common import *

ACT_T = [CTRL + "ControlledVehicle.act", CTRL + "ControlledVehicle.follow_road", CTRL + "MDPVehicle.act"]


class ManyLanes:
    """The lanes of one road: n of them, n unknown."""

    def __init__(self, n):
        self.n = n

    def __symlen__(self):
        return self.n


class Net:
    """A network of two roads (a, b), (b, d) with unknown numbers of lanes; lane k is known through its queries only."""

    def __init__(self, c, n, m, nxt):
        self.c, self.n, self.m, self.nxt, self.calls = c, n, m, nxt, []
        self.graph = {"a": {"b": ManyLanes(n)}, "b": {"d": ManyLanes(m)}}

    def get_lane(self, index):
        net = self

        class L:
            def is_reachable_from(self, position):
                return lt(0, T.uf("reach" + index[0] + index[1], T.lift(index[2])))

            def after_end(self, position, longitudinal=None, lateral=None):
                return lt(0, T.uf("after" + index[0] + index[1], T.lift(index[2])))
        return L()

    def next_lane(self, index, route=None, position=None, np_random=None):
        self.calls.append((index, route, position, np_random))
        return self.nxt


def _concrete(c, n, m):
    lanes = [straight(c, "s%d" % i) for i in range(n)]
    return network(c, {("a", "b"): lanes, ("b", "d"): [straight(c, "t%d" % i) for i in range(m)]})


def _setup(c):
    n, m = c.int("lanes", 1, s=(1, 5)), c.int("lanes_next", 1, s=(1, 5))
    k, k2 = c.int("id", 0, s=(0, 4)), c.int("id_next", 0, s=(0, 4))
    c.require(And(lt(k, n), lt(k2, m)))
    v = bare(c, c.choice("class", ["ControlledVehicle", "MDPVehicle"]), speed=c.real("v", s=(-3, 40)))
    v.target_lane_index = v.lane_index = ("a", "b", k)
    v.target_speed = c.real("target_speed", s=(-5, 40))
    v.speed_index = 1
    v.route = [("a", "b", k), ("b", "d", k2)]
    if c.sym:
        net = Net(c, n, m, ("b", "d", k2))
    else:
        net = _concrete(c, n, m)
        calls = net.calls = []

        def next_lane(index, route=None, position=None, np_random=None):
            calls.append((index, route, position, np_random))
            return ("b", "d", k2)
        net.next_lane = next_lane
    v.road = road(c, net)
    v.road.vehicles = [v]
    v.steering_control = lambda index: 0
    c.note("steering_control does not touch the targets (its own contract: C13.cascade)")
    return v, net, n, m


def same_index(a, b):
    return And(a[0] == b[0], a[1] == b[1], eq(a[2], b[2]))


@contract("C14.meta", ACT_T, seconds=60)
def meta(c):
    """Each meta-action moves exactly the set-point it names, within the lane range and only to a reachable lane; a finished
    target lane is first replaced by the next lane of the route."""
    v, net, n, m = _setup(c)
    action = c.choice("action", [None, "IDLE", "FASTER", "SLOWER", "LANE_LEFT", "LANE_RIGHT", "STOP"])
    if type(v).__name__ == "MDPVehicle" and action in ("FASTER", "SLOWER"):
        c.require(False)                                    # the speed grid's own contract: C15
    t0, ts0, route = v.target_lane_index, v.target_speed, v.route
    ended = c.fork(net.get_lane(t0).after_end(v.position))
    v.act(action)
    t1 = ("b", "d", v.route[1][2]) if ended else t0
    if ended:
        c.ensure("asked for the next lane of the route", And(len(net.calls) >= 1, same_index(net.calls[0][0], t0), net.calls[0][1] is route,
                                                             eq(net.calls[0][2], v.position), net.calls[0][3] is v.road.np_random))
    d = {"LANE_LEFT": -1, "LANE_RIGHT": 1}.get(action, 0)
    lanes = m if ended else n
    side = (t1[0], t1[1], clip(t1[2] + d, 0, lanes - 1))
    if d and c.fork(net.get_lane(side if c.sym else (side[0], side[1], int(side[2]))).is_reachable_from(v.position)):
        c.ensure("target lane moved by one within the road", same_index(v.target_lane_index, side))
    else:
        c.ensure("target lane otherwise unchanged", same_index(v.target_lane_index, t1))
    ds = {"FASTER": 5, "SLOWER": -5}.get(action, 0)
    c.ensure("target speed", eq(v.target_speed, ts0 + ds))


@contract("C14.step-size", [CTRL + "ControlledVehicle"])
def step_size(c):
    """The speed increment is 5 m/s."""
    from highway_env.vehicle.controller import ControlledVehicle as V
    c.ensure("DELTA_SPEED", V.DELTA_SPEED == 5)
