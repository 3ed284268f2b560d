from contracts._common import *
from contracts.c12 import at, inside

CC = VEH + "Vehicle.check_collision"


def rects(v, o):
    return ((v.position, 0.9 * v.LENGTH, 0.9 * v.WIDTH, v.heading), (o.position, 0.9 * o.LENGTH, 0.9 * o.WIDTH, o.heading))


def compact(c, v, tag):
    """A vehicle with a body of its own size, so compact that the distance pre-check loses nothing (like every vehicle class)."""
    return sized(c, v, tag, s=((4.5, 5.5), (1, 2)))


def _hit(c, v, o):
    """Do the 90% footprints intersect, as the rectangle test (C12) decides."""
    from highway_env import utils
    want = rects(v, o)
    if not c.sym:
        import math
        c.require(0.45 * (math.hypot(v.LENGTH, v.WIDTH) + math.hypot(o.LENGTH, o.WIDTH)) <= v.LENGTH)
        return utils.rotated_rectangles_intersect(*want)
    hit = c.symbool("hit")

    def contract_of_intersect(r1, r2):
        same = lambda a, b: And(eq(a[0], b[0]), eq(a[1], b[1]), eq(a[2], b[2]), eq(a[3], b[3]))
        c.ensure("the footprints tested are the two vehicles' own, at 90%",
                 Or(And(same(r1, want[0]), same(r2, want[1])), And(same(r1, want[1]), same(r2, want[0]))))
        return hit
    c.patch(utils, "rotated_rectangles_intersect", contract_of_intersect)
    # C11.precheck: footprints this size only share a point when the centres are within one length
    c.require(Implies(hit, le(norm2(o.position - v.position), v.LENGTH)))
    c.note("rotated_rectangles_intersect implies a shared point (contract C12.sound) and hence, by C11.precheck, centres "
           "within one vehicle length")
    return hit


@contract("C11.precheck", [VEH + "Vehicle._is_colliding"])
def precheck(c):
    """Two 90% footprints (vehicle or object) that share a point have centres within one vehicle length (so the fast
    distance pre-check loses nothing)."""
    kind = c.choice("other", ["Vehicle", "Obstacle"])
    v = bare(c, "Vehicle", "1")
    o = bare(c, "Vehicle", "2") if kind == "Vehicle" else obstacle(c, "2")
    r1, r2 = rects(v, o)
    x1, y1 = c.real("x1", -r1[1] / 2, r1[1] / 2), c.real("y1", -r1[2] / 2, r1[2] / 2)
    x2, y2 = c.real("x2", -r2[1] / 2, r2[1] / 2), c.real("y2", -r2[2] / 2, r2[2] / 2)
    p1 = at(r1, x1, y1)
    # place the second so that the point (x2, y2) of its frame is that same point
    h = r2[3]
    o.position = c.arr([p1[0] - cos(h) * x2 + sin(h) * y2, p1[1] - sin(h) * x2 - cos(h) * y2])
    d = o.position - v.position
    u, w = (p1[0] - v.position[0], p1[1] - v.position[1]), (p1[0] - o.position[0], p1[1] - o.position[1])
    c.lemma("arms", And(le(x1 * x1 + y1 * y1, r1[1] * r1[1] / 4 + r1[2] * r1[2] / 4), le(x2 * x2 + y2 * y2, r2[1] * r2[1] / 4 + r2[2] * r2[2] / 4)))
    c.square(u[0] + w[0], u[1] + w[1])        # |u - w|^2 = 2|u|^2 + 2|w|^2 - |u + w|^2
    c.ensure("centres within one length", le(d[0] * d[0] + d[1] * d[1], v.LENGTH * v.LENGTH))


@contract("C11.vehicles", [CC, VEH + "Vehicle._is_colliding"])
def vehicles(c):
    """Two vehicles, collisions enabled: both crash and take the slower speed exactly when the footprints intersect."""
    k1, k2 = c.choice("class1", ["Vehicle", "IDMVehicle"]), c.choice("class2", ["Vehicle", "MDPVehicle"])
    v, o = bare(c, k1, "1", pos=c.vec("p1", 2, s=(-4, 4))), bare(c, k2, "2", pos=c.vec("p2", 2, s=(-4, 4)))
    v.crashed, o.crashed = False, c.bool("other crashed")
    compact(c, v, "1"), compact(c, o, "2")
    hit = _hit(c, v, o)
    sv, so, b, d = v.speed, o.speed, snap(v), snap(o)
    v.check_collision(o)
    slow = ite(le(absv(sv), absv(so)), sv, so)
    if c.fork(hit):
        c.ensure("both crash", And(v.crashed, o.crashed))
        c.ensure("same speed", eq(v.speed, o.speed))
        c.ensure("the slower of the two", And(eq(absv(v.speed), absv(slow)), Or(eq(v.speed, sv), eq(v.speed, so))))
        c.ensure("nothing else changes", And(unchanged(v, b, ("speed", "crashed")), unchanged(o, d, ("speed", "crashed"))))
    else:
        c.ensure("neither changes", And(unchanged(v, b), unchanged(o, d)))


@contract("C11.inert", [CC])
def inert(c):
    """No effect when either vehicle has collisions disabled, when it is checked against itself, or is already crashed."""
    v, o = bare(c, "Vehicle", "1", pos=c.vec("p1", 2, s=(-4, 4))), bare(c, "IDMVehicle", "2", pos=c.vec("p2", 2, s=(-4, 4)))
    why = c.choice("why", ["self off", "other off", "itself", "already crashed", "obstacle off"])
    if why == "self off":
        v.COLLISIONS_ENABLED = False
    elif why == "other off":
        o.COLLISIONS_ENABLED = False
    elif why == "itself":
        o = v
    elif why == "obstacle off":
        o = obstacle(c, "3")
        v.COLLISIONS_ENABLED = False
    else:
        v.crashed = True
    _hit(c, v, o)
    b, d = snap(v), snap(o)
    v.check_collision(o)
    c.ensure("nothing changes", And(unchanged(v, b), unchanged(o, d)))


@contract("C11.objects", [CC, VEH + "Vehicle._is_colliding"])
def objects(c):
    """An obstacle hit crashes and stops the vehicle and is marked; a landmark is only marked; untouched otherwise."""
    v = bare(c, c.choice("class", ["Vehicle", "MDPVehicle"]), pos=c.vec("p1", 2, s=(-4, 4)))
    kind = c.choice("object", ["Obstacle", "Landmark"])
    o = obstacle(c, cls=kind, pos=c.vec("p2", 2, s=(-4, 4)))
    v.crashed = False
    compact(c, v, "1")
    hit = _hit(c, v, o)
    b, d = snap(v), snap(o)
    v.check_collision(o)
    if not c.fork(hit):
        c.ensure("untouched", And(unchanged(v, b), unchanged(o, d)))
    elif kind == "Obstacle":
        c.ensure("crashes and stops", And(v.crashed, eq(v.speed, 0)))
        c.ensure("obstacle marked", And(o.hit, unchanged(o, d, ("hit",)), unchanged(v, b, ("crashed", "speed"))))
    else:
        c.ensure("landmark marked, vehicle unaffected", And(o.hit, unchanged(o, d, ("hit",)), unchanged(v, b)))


@contract("C11.road-step", [ROAD + "Road.step"], seqs=True, bound=3)
def road_step_all(c):
    """The same for rosters of any size: any two vehicles of the roster are each moved exactly once by dt, both before they
    are checked against each other, and any object is checked against any vehicle."""
    stepped, checked = {}, {}
    dt = c.pos("dt", s=(.01, 1))

    class Ghost:
        def __init__(self, name, fresh):
            self.name, self.fresh = name, fresh

        def step(self, d):
            if not self.fresh:
                c.ensure("each vehicle moved once, by dt, before any check", And(not stepped.get(self.name), not checked, eq(d, dt)))
                stepped[self.name] = True

        def check_collision(self, other):
            if not self.fresh and not other.fresh:
                c.ensure("checked after all have moved", And(stepped.get(self.name), stepped.get(other.name, other.name[0] == "o")))
                checked[self.name, other.name] = True

    def contracts(cc, seq, active, k):
        if seq.name == "vehicles" and not active and k == 0:        # the loop that moves
            def havoc(c2, sq, seen):
                stepped.clear()
                stepped.update({w.name: True for w, b in zip(sq.w, seen) if b})
                return {}
            return LoopSpec((), havoc, lambda c2, sq, st, seen: [
                ("moved so far", all(bool(stepped.get(w.name)) == b for w, b in zip(sq.w, seen)))])
        if seq.name == "vehicles" and not active:                   # the loop that checks each vehicle
            def havoc(c2, sq, seen):
                checked.clear()
                checked.update({(w.name, x.name): True for w, b in zip(sq.w, seen) if b for x in sq.w + os_.w})
                return {}
            return LoopSpec((), havoc, lambda c2, sq, st, seen: [
                ("checked so far", all(checked.get((w.name, x.name)) for w, b in zip(sq.w, seen) if b for x in sq.w + os_.w))])
        me = active[0].elem

        def havoc(c2, sq, seen):                                    # its inner loops
            if not me.fresh:
                for w, b in zip(sq.w, seen):
                    checked.pop((me.name, w.name), None)
                    if b:
                        checked[me.name, w.name] = True
            return {}
        return LoopSpec((), havoc, lambda c2, sq, st, seen: [
            ("partners checked so far", me.fresh or all(checked.get((me.name, w.name)) for w, b in zip(sq.w, seen) if b))])

    make = lambda kind: lambda cc, tag: Ghost(kind + tag, tag == "u")
    vs = c.seq("vehicles", make("v"), contracts, witnesses=2)
    os_ = c.seq("objects", make("o"), contracts, witnesses=1)
    r = road(c, None, vs, os_)
    r.step(dt)
    ve, oe = c.elements(vs), c.elements(os_)
    c.ensure("every vehicle moved", all(stepped.get(v.name) for v in ve))
    c.ensure("every pair checked", all(checked.get((a.name, b.name)) or checked.get((b.name, a.name)) for a in ve for b in ve if a is not b))
    c.ensure("every vehicle-object pair checked", all(checked.get((a.name, o.name)) for a in ve for o in oe))
