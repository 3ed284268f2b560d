from contracts._common import *
from contracts.c14 import ManyLanes

V = VEH + "Vehicle."


def classes(c):
    return vehicle_classes()[c.choice("class", ["Vehicle", "ControlledVehicle", "MDPVehicle", "IDMVehicle", "LinearVehicle", "BicycleVehicle"])]


@contract("C30.on-lane", [V + "make_on_lane", V + "__init__", CTRL + "ControlledVehicle", CTRL + "MDPVehicle", BEH + "IDMVehicle",
                          BEH + "LinearVehicle", DYN + "BicycleVehicle"])
def on_lane(c):
    """A vehicle of any kind is made on the lane's centre line at the given position, aligned with it, at the given speed or
    the lane's speed limit; targets default to its lane and speed."""
    lane = abstract_lane(c, speed_limit=None)
    lane.speed_limit = c.pos("limit", s=(5, 30))
    cls = classes(c)
    net = AnyNetwork(c, ("a", "b", c.int("closest", 0, s=(0, 2))), lane)
    asked = []
    net.get_lane = lambda index: (asked.append(index), lane)[1]
    r = road(c, net)
    s = c.real("s", s=(0, 60))
    speed = c.choice("speed given", [None, 0, 1])
    speed = c.real("v", s=(1, 30)) if speed == 1 else speed
    wanted = ("p", "q", 3)
    v = cls.make_on_lane(r, wanted, s, speed) if c.bool("speed mentioned") or speed != 0 else cls.make_on_lane(r, wanted, s)
    c.ensure("the requested lane", asked and asked[0] == wanted)
    c.ensure("on the centre line", eq(list(v.position), list(lane.position(s, 0))))
    c.ensure("aligned", eq(v.heading, lane.heading_at(s)))
    want = lane.speed_limit if speed is None else speed
    c.ensure("speed", eq(v.speed, want))
    c.ensure("on this road, unharmed, not yet driven", v.road is r and v.crashed is False and len(v.history) == 0 and
             list(v.action.values()) == [0, 0])
    if hasattr(v, "target_lane_index"):
        c.ensure("heads for the closest lane", v.target_lane_index == net.index)
        if cls.__name__ not in ("MDPVehicle",):
            c.ensure("target speed", eq(v.target_speed, want))


@contract("C30.object", [OBJ + "RoadObject.make_on_lane", OBJ + "RoadObject"])
def object_(c):
    """An object is placed on the lane's centre line, aligned with it, at rest."""
    from highway_env.road import objects as m
    lane = abstract_lane(c)
    net = AnyNetwork(c, ("p", "q", 3), lane)
    asked = []
    net.get_lane = lambda index: (asked.append(index), lane)[1]
    r = road(c, net)
    s = c.real("s", s=(0, 60))
    o = getattr(m, c.choice("class", ["Obstacle", "Landmark"])).make_on_lane(r, ("p", "q", 3), s)
    c.ensure("the requested lane", asked == [("p", "q", 3)])
    c.ensure("on the centre line", eq(list(o.position), list(lane.position(s, 0))))
    c.ensure("aligned, at rest, not hit", And(eq(o.heading, lane.heading_at(s)), eq(o.speed, 0), o.hit is False, o.road is r))


@contract("C30.random", [V + "create_random", V + "__init__"])
def random(c):
    """Any number of vehicles and lanes, any spacing: on the centre line of a lane of the network (the requested one), aligned,
    at the requested speed (a default one if none), 0.9 to 1.1 nominal offsets beyond the foremost vehicle."""
    cls = classes(c)
    spacing = c.pos("spacing", s=(.2, 3))
    speed = c.pos("v", s=(5, 35)) if c.bool("speed given") else None
    n = c.int("lanes", 1, s=(1, 4))
    lane = abstract_lane(c)
    asked = []
    roads = c.choice("roads", [[("a", "b")], [("a", "b"), ("a", "d"), ("e", "a")]])
    counts = {k: n if k == ("a", "b") else c.int("lanes" + k[1], 1, s=(1, 4)) for k in roads}
    want_id = c.int("id", 0, s=(0, 3)) if c.bool("lane given") else None

    class Net(AnyNetwork):
        def get_lane(self, index):
            asked.append(index)
            return lane
    net = Net(c, ("a", "b", 0), lane)
    net.graph = {}
    for (f, t), k in counts.items():
        net.graph.setdefault(f, {})[t] = ManyLanes(k) if c.sym else [lane] * k
    if want_id is not None:
        c.require(And(*[lt(want_id, k) for k in counts.values()]))
    pos = lambda k: [per(c, "x of", k, s=(0, 90)), per(c, "y of", k, s=(-5, 9))]
    vs, m = many(c, "vehicles", lambda k, tag: bare(c, "Vehicle", tag, pos=c.arr(pos(k))))
    r = road(c, net, vs)
    if not c.sym:
        for w in vs:
            w.lane = lane
    i = c.int("any vehicle", 0, s=(0, 3))
    if c.sym:
        c.at(i)
        c.require(Or(lt(i, m), eq(m, 0)))
    v = cls.create_random(r, speed=speed, lane_id=want_id, spacing=spacing)
    c.ensure("the road is left alone", r.vehicles is vs and (c.sym or len(vs) == m))
    index = asked[0]
    c.ensure("a lane of the network", index[:2] in counts and And(le(0, index[2]), lt(index[2], counts[index[:2]])))
    c.ensure("the requested lane", want_id is None or eq(index[2], want_id))
    c.ensure("speed", eq(v.speed, speed) if speed is not None else within(v.speed, 23, 25))
    k = counts[index[:2]]
    offset = spacing * 1.5 * v.speed * exp(-k / 6.)
    # where the code placed it: a draw u in [0.9, 1.1] beyond the foremost
    draws = [d for what, d in r.np_random.log if what == "uniform"]
    u = draws[-1]
    c.ensure("0.9 to 1.1 offsets", within(u, .9, 1.1) if not c.sym else And(le(T.num(9) / 10, u), le(u, T.num(11) / 10)))
    lon = lambda w: lane.local_coordinates(w.position)[0]
    placed = lambda x: And(eq(list(v.position), list(lane.position(x, 0))), eq(v.heading, lane.heading_at(x)))
    if not c.sym:
        front = max([lon(w) for w in vs]) if vs else 3 * offset
        c.ensure("beyond the foremost vehicle, on the centre line, aligned", placed(front + u * offset))
        return
    if c.fork(eq(m, 0)):
        c.ensure("three offsets and a bit on an empty road", placed(3 * offset + u * offset))
    else:
        foremost = [vs.at(p) for p in c.positions]
        c.ensure("beyond the foremost vehicle, on the centre line, aligned",
                 Or(*[And(placed(lon(w) + u * offset), le(lon(vs.at(i)), lon(w))) for w in foremost]))
