from contracts._common import *

NV = ROAD + "Road.neighbour_vehicles"


def _element(kinds):
    def make(c, tag):
        k = c.choice("kind" + tag, kinds)
        p = c.vec("p" + tag, 2, s=(-10, 60))
        if k == "Vehicle":
            return bare(c, "Vehicle", tag, pos=p, heading=0, speed=0)
        return obstacle(c, tag, k, pos=p, heading=0)
    return make


def candidate(lane, ego, x):
    """Is x a vehicle or obstacle other than ego whose position is on the lane (1 m margin)?"""
    from highway_env.road.objects import Landmark
    if x is ego or isinstance(x, Landmark):
        return False
    return lane.on_lane(x.position, margin=1)


def lon(lane, x):
    return lane.local_coordinates(x.position)[0]


def lookup(c, side, parts):
    """One lookup on an arbitrary roster; the postcondition of one side (preceding / following)."""
    front = side == "preceding"
    lane = abstract_lane(c)
    ego = bare(c, "Vehicle", "ego", heading=0, speed=0)
    which = c.choice("which lane", ["own", "other"])
    index = ("a", "b", 0)
    ego.lane_index = index if which == "own" else ("z", "z", 0)
    s = lon(lane, ego)
    mine, mine_s, its, its_s = ("v_front", "s_front", "v_rear", "s_rear") if front else ("v_rear", "s_rear", "v_front", "s_front")

    def ok(x):
        cand = candidate(lane, ego, x)
        return And(cand, le(s, lon(lane, x)) if front else lt(lon(lane, x), s))

    def better(best, x):
        """x, when it qualifies, does not beat best."""
        q = ok(x)
        if best is None:
            return Not(q)
        return Implies(q, le(lon(lane, best), lon(lane, x)) if front else le(lon(lane, x), lon(lane, best)))

    def inv(cc, seq, st, seen):
        v, sv = st[mine], st[mine_s]
        out = [("recorded with its coordinate", (v is None) == (sv is None)),
               ("other side recorded with its coordinate", (st[its] is None) == (st[its_s] is None))]
        if v is not None:
            out.append(("%s qualifies" % side, And(ok(v), eq(sv, lon(lane, v)))))
        for w, b in zip(seq.w, seen):
            if b and w is not ego:
                out.append(("%s is best so far" % side, better(v, w)))
        return out

    def havoc(cc, seq, seen):
        opts = ["none", "fresh"] + [i for i, b in enumerate(seen) if b and seq.w[i] is not ego]
        k = cc.choice("best", opts)
        x = None if k == "none" else seq.other(cc) if k == "fresh" else seq.w[k]
        y = cc.choice("other side", [None, "something"])
        return {mine: x, mine_s: None if x is None else lon(lane, x), its: y, its_s: None if y is None else cc.real("other_s")}

    spec = LoopSpec(("s_front", "s_rear", "v_front", "v_rear"), havoc, inv)
    if parts == "both":     # bounded / floats: a mixed roster
        vs = c.seq("vehicles", _element(["Vehicle"]), spec, bound=1 if c.sym else 6)
        os_ = c.seq("objects", _element(["Obstacle", "Landmark"]), spec, bound=1 if c.sym else 3)
    elif parts == "vehicles":
        vs, os_ = c.seq("vehicles", _element(["Vehicle"]), spec, bound=2 if c.sym else 6), []
    else:
        vs, os_ = [], c.seq("objects", _element(["Obstacle", "Landmark"]), spec, bound=2 if c.sym else 6)
    if isinstance(vs, list):
        vs.insert(c.choice("place of the vehicle itself", list(range(len(vs) + 1))), ego)
    else:
        vs.w.insert(0, ego)
    r = road(c, network(c, {("a", "b"): [lane], ("z", "z"): [abstract_lane(c, "z")]}), vs, os_)
    ego.road = r
    ask = lambda: r.neighbour_vehicles(ego) if which == "own" else r.neighbour_vehicles(ego, index)
    asked_before(c, [ego] + ([] if c.sym else [w for w in list(vs) + list(os_) if w is not ego]), ask)
    x = (r.neighbour_vehicles(ego) if which == "own" else r.neighbour_vehicles(ego, index))[0 if front else 1]
    if x is not None:
        c.ensure("%s qualifies" % side, ok(x))
    for w in list(c.elements(vs)) + list(c.elements(os_)):
        if w is not ego:
            c.ensure("%s is the closest, none is missed" % side, better(x, w))


@contract("C07.preceding-vehicle", [NV], seqs=True, bound=2, max_paths=4000, seconds=90)
def preceding_v(c):
    """Any number of vehicles: the reported preceding vehicle is on the lane, not behind, none is closer, none is missed."""
    lookup(c, "preceding", "vehicles")


@contract("C07.following-vehicle", [NV], seqs=True, bound=2, max_paths=4000, seconds=90)
def following_v(c):
    """Any number of vehicles: the reported following vehicle is on the lane, strictly behind, none is closer, none is missed."""
    lookup(c, "following", "vehicles")


@contract("C07.preceding-object", [NV], seqs=True, bound=2, max_paths=4000, seconds=90)
def preceding_o(c):
    """The same with any number of obstacles and landmarks on the road: obstacles count, landmarks and the vehicle itself do not."""
    lookup(c, "preceding", "objects")


@contract("C07.following-object", [NV], seqs=True, bound=2, max_paths=4000, seconds=90)
def following_o(c):
    """The same, behind."""
    lookup(c, "following", "objects")


@contract("C07.mixed", [NV], seqs=True, bound=1, max_paths=20000, seconds=110)
def mixed(c):
    """Any number of vehicles and objects together, either side."""
    lookup(c, c.choice("side", ["preceding", "following"]), "both")


@contract("C07.no-lane", [NV])
def no_lane(c):
    """Without any lane nothing is reported."""
    ego = bare(c, "Vehicle")
    ego.lane_index = None
    r = road(c, network(c, {("a", "b"): [abstract_lane(c)]}), (ego, bare(c, "Vehicle", "2")))
    c.ensure("nothing", tuple(r.neighbour_vehicles(ego)) == (None, None))
