from contracts._common import *
from contracts.c14 import ManyLanes
from contracts.c21 import LABELS


@contract("C22.available", [ABS + "AbstractEnv.get_available_actions", ROAD + "RoadNetwork.side_lanes"])
def available(c):
    """Any number of lanes, any lane, any speed grid: IDLE always, lane changes exactly to existing reachable neighbours, speed
    changes exactly within the grid, and only along enabled axes; no duplicates, all in the space."""
    from highway_env.envs.common.action import DiscreteMetaAction as D
    n, k = c.int("lanes", 1, s=(1, 4)), c.int("lane", 0, s=(0, 3))
    c.require(lt(k, n))
    e = bare_env(c)
    v = bare(c, "MDPVehicle", "ego")
    v.lane_index = ("a", "b", k)
    v.target_lane_index = ("a", "b", c.int("target", 0, s=(0, 3)))      # irrelevant
    v.SPEED_COUNT, v.speed_index = c.int("speeds", 1, s=(1, 5)), c.int("speed index", 0, s=(0, 4))
    c.require(lt(v.speed_index, v.SPEED_COUNT))
    e.controlled_vehicles = [v]
    if c.sym:
        from highway_env.road.road import RoadNetwork

        class Net(RoadNetwork):
            def get_lane(self, index):
                class L:
                    def is_reachable_from(self, position):
                        return lt(0, T.uf("reach" + index[0] + index[1], T.lift(index[2]), position[0], position[1]))
                return L()
        net = Net()
        net.graph = {"a": {"b": ManyLanes(n)}}
    else:
        net = network(c, {("a", "b"): [along_x(c, "l%d" % i) for i in range(n)]})
    v.road = e.road = road(c, net)
    lon, lat = c.bool("longitudinal"), c.bool("lateral")
    c.require(Or(lon, lat))
    e.action_type = D(e, longitudinal=lon, lateral=lat)
    labels = LABELS[lon, lat]
    got = e.get_available_actions()
    c.ensure("no action twice", len(set(got)) == len(got))
    c.ensure("in the space", all(0 <= a < e.action_type.space().n for a in got))
    has = {l: labels.index(l) in got if l in labels else False for l in LABELS[True, True]}
    reach = lambda i: net.get_lane(("a", "b", i)).is_reachable_from(v.position)
    c.ensure("IDLE", has["IDLE"])
    for l, exists, i in (("LANE_LEFT", lt(0, k), k - 1), ("LANE_RIGHT", lt(k, n - 1), k + 1)):
        ok = lat and c.fork(exists) and c.fork(reach(i))
        c.ensure(l, iff(has[l], ok))
    c.ensure("FASTER", iff(has["FASTER"], lon and c.fork(lt(v.speed_index, v.SPEED_COUNT - 1))))
    c.ensure("SLOWER", iff(has["SLOWER"], lon and c.fork(lt(0, v.speed_index))))


def iff(a, b):
    return bool(a) == bool(b)


@contract("C22.discrete-only", [ABS + "AbstractEnv.get_available_actions"])
def discrete_only(c):
    """Continuous actions have no such list."""
    from highway_env.envs.common.action import ContinuousAction as A
    e = bare_env(c)
    e.action_type = A(e)
    c.ensure("refused", isinstance(c.raises(e.get_available_actions), ValueError))

