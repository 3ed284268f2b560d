from contracts._common import *

MM = EST + "MultipleModelVehicle."

# lanes of a small network: a road, two to choose from after it, and one after each
A, B0, B1, C0, C1 = ("a", "b", 0), ("b", "c", 0), ("b", "d", 1), ("c", "e", 0), ("d", "e", 0)
HYPOTHESES = [[], [[A]], [[A, B0]], [[A, B0], [A, B1]], [[A, B0, C0], [B1]], [[B0], [A, B1]], [[A, B0], [A, B0, C0]]]
CANDIDATES = [[], [[A]], [[A, B0]], [[A, ("b", "c", None)], [A, B1]], [[A, B0, C0]], [[("a", "b", None), B1, C1]], [[B0, ("c", "e", None)]]]


def hypothetical(c, hypotheses, **attrs):
    """A vehicle with the given route hypotheses, each with observations (some number of them) or none."""
    import highway_env.vehicle.uncertainty.estimation as e
    v = bare(c, e.MultipleModelVehicle, **attrs)
    v.data = []
    for k, route in enumerate(hypotheses):
        some = c.bool("observed")
        v.data.append((list(route), {"lateral": "data %d" % k, "longitudinal": k} if some else {}))
    return v


@contract("C46.update", [MM + "update_possible_routes"], bounded="up to two hypotheses and two candidates")
def update(c):
    """The candidates at the next intersection become hypotheses: not twice, extending (with its observations) a hypothesis they
    begin with; lanes left behind are left out, but for the last; the hypotheses that contradict their observations, and only they,
    are dropped; the vehicle's own route and the candidates are left alone."""
    import highway_env.vehicle.uncertainty.estimation as e
    known, found = c.choice("hypotheses", HYPOTHESES), c.choice("candidates", CANDIDATES)
    v = hypothetical(c, known, route=[A, B0])
    own = v.route
    passed = {}

    class Net:
        def get_lane(self, index):
            if index not in passed:
                passed[index] = c.symbool("past %s %s" % index[:2])
            return type("Lane", (), dict(after_end=lambda self, position, longitudinal=None, lateral=None: passed[index]))()
    v.road = road(c, Net())
    candidates = [own if r == [A, B0] else list(r) for r in found]
    kept = [list(r) for r in candidates]
    v.get_routes_at_intersection = lambda: candidates
    consistent, asked = {}, []

    def is_consistent_dataset(data, parameter_box=None):
        asked.append((data, parameter_box))
        if data not in consistent:
            consistent[data] = c.symbool("consistent")
        return consistent[data]
    c.patch(e, "is_consistent_dataset", is_consistent_dataset)
    before = [(list(r), d) for r, d in v.data]
    observations = [dict(d) for _, d in before]
    v.update_possible_routes()
    want = list(before)
    for r in found:
        r = [x if x[2] is not None else (x[0], x[1], 0) for x in r]
        for k, (h, d) in enumerate(want):
            if h == r:
                break
            if r[:len(h)] == h:
                want[k] = (r, d)
                break
        else:
            want.append((r, {}))
    want = [(r[1:] if len(r) > 1 and c.fork(past(c, passed, r[0])) else r, d) for r, d in want]
    for _, d in want:
        if d and d["lateral"] not in consistent:         # observations the code did not ask about
            consistent[d["lateral"]] = c.symbool("consistent")
    want = [(r, d) for r, d in want if not d or c.fork(consistent[d["lateral"]])]
    left = list(v.data)
    for r, d in want:
        hit = [x for x in left if x[0] == r and (x[1] is d or d == {} and x[1] == {})]
        c.ensure("a hypothesis with its observations", bool(hit))
        if hit:
            left.remove(hit[0])
    c.ensure("no other hypothesis", left == [])
    c.ensure("contradicted by its lateral observations, within the range of parameters", all(a[1] is v.STEERING_RANGE for a in asked))
    c.ensure("observations are left alone", all(d == o for (_, d), o in zip(before, observations)))
    c.ensure("its own route is left alone", v.route is own and own == [A, B0] and [list(r) for r in candidates] == kept)
    for r, d in v.data:
        for x in candidates + [own]:
            c.ensure("a list of its own", r is not x)


def past(c, passed, index):
    if index not in passed:          # a lane the code did not ask about
        passed[index] = c.symbool("past %s %s" % index[:2])
    return passed[index]


@contract("C46.observe", [MM + "act", MM + "collect_data", MM + "__init__", BEH + "LinearVehicle.act"], bounded="up to three hypotheses")
def observe(c):
    """While collecting, each decision updates the hypotheses, then adds to the observations of each what its first lane and the lane
    really followed make of the state; a vehicle that does not collect keeps them; then it decides as usual."""
    import highway_env.vehicle.uncertainty.estimation as e
    from highway_env.vehicle.behavior import IDMVehicle
    log = []
    hypotheses = c.choice("hypotheses", [[], [[A, B0]], [[A, B0], [B1]], [[A], [B0, C0], [B1]]])
    v = hypothetical(c, hypotheses, target_lane_index=("x", "y", 2))
    v.collecting_data = c.bool("collecting")
    new = ([C1], {})
    grows = c.bool("a new hypothesis")

    def update_possible_routes():
        log.append("update")
        if grows:
            v.data.append(new)
    v.update_possible_routes = update_possible_routes
    v.add_features = lambda data, lane_index, output_lane=None: log.append(("add", data, lane_index, output_lane))
    c.patch(IDMVehicle, "act", lambda self, action=None: log.append(("decide", self)))
    before = list(v.data)
    action = c.choice("action", [None, {"steering": 0}])
    v.act(action) if c.bool("action given") else v.act()
    if not v.collecting_data:
        c.ensure("decides", log == [("decide", v)])
        return
    every = before + ([new] if grows else [])
    c.ensure("updates first, decides last", log[0] == "update" and log[-1] == ("decide", v) and len(log) == 2 + len(every))
    c.ensure("observations of each", all(any(x[1] is d and x[2] == r[0] and x[3] == ("x", "y", 2) for x in log[1:-1]) for r, d in every))


class Way(Refuses):
    """The k-th hypothesis' route, of any length."""

    def __init__(self, k):
        self.k = k

    def __getitem__(self, i):
        return ("lane", self.k) if isinstance(i, int) and i == 0 else self._refuse()

    def copy(self):
        return Way(self.k)


class Seen(Refuses):
    """What was observed under the k-th hypothesis."""

    def __init__(self, k):
        self.k = k

    def __deepcopy__(self, memo):
        return Seen(self.k)


@contract("C46.observe-any", [MM + "act", MM + "collect_data", BEH + "LinearVehicle.act"], samples=40)
def observe_any(c):
    """The same for any number of hypotheses."""
    import highway_env.vehicle.uncertainty.estimation as e
    from highway_env.vehicle.behavior import IDMVehicle
    v = bare(c, e.MultipleModelVehicle, target_lane_index=("x", "y", 2))
    v.collecting_data = c.bool("collecting")
    v.data, _ = many(c, "before", lambda k, tag: (Way(k - 1000), Seen(k - 1000)))
    after, n = many(c, "hypotheses", lambda k, tag: (Way(k), Seen(k)))
    log, stage, wrong = [], ["start"], []

    def update_possible_routes():
        wrong.append(stage[0] != "start")
        stage[0], v.data = "updated", after

    def add_features(data, lane_index, output_lane=None):
        wrong.append(stage[0] != "updated")
        log.append((data, lane_index, output_lane))

    def decide(self, action=None):
        wrong.append(self is not v or stage[0] != ("updated" if v.collecting_data else "start"))
        stage[0] = "decided"
    v.update_possible_routes, v.add_features = update_possible_routes, add_features
    c.patch(IDMVehicle, "act", decide)
    hit = lambda k: [And(isinstance(d, Seen), eq(d.k, k), isinstance(l, tuple) and l[0] == "lane", eq(l[1], k), o == ("x", "y", 2)) for d, l, o in log]
    if c.sym:
        loop = c.loops["many"] = each(c, lambda: (log.clear(), wrong.clear()), lambda k: [("observations of each", And(len(log) == 1, *hit(k), not any(wrong)))])
    v.act()
    c.ensure("updates first, decides last", stage[0] == "decided" and not any(wrong))
    if c.sym:
        c.ensure("all of them", not v.collecting_data or loop.over == 1)
        c.ensure("nothing to observe", v.collecting_data or log == [])
    else:
        c.ensure("all of them", len(log) == (n if v.collecting_data else 0) and all(any(bool(d.k == k and l == ("lane", k) and o == ("x", "y", 2)) for d, l, o in log) for k in range(n if v.collecting_data else 0)))


@contract("C46.assume-any", [MM + "assume_model_is_valid", BEH + "IDMVehicle.create_from", PRED + "IntervalVehicle.create_from"], samples=40)
def assume_any(c):
    """The same for any number of hypotheses and any index."""
    import highway_env.vehicle.uncertainty.estimation as e
    r = road(c, AnyNetwork(c, lane=abstract_lane(c)))
    v = bare(c, e.MultipleModelVehicle, road=r, target_lane_index=("x", "y", 2), route=[A], timer=.5)
    v.data, n = many(c, "hypotheses", lambda k, tag: (Way(k), Seen(k)), 1, (1, 4))
    index = c.int("index", 0, s=(0, 6))
    before = snap(v)
    w = v.assume_model_is_valid(index)
    k = vmin(index, n - 1) if c.sym else min(index, n - 1)
    c.ensure("another vehicle", w is not v and w.road is r and isinstance(w, e.RegressionVehicle))
    c.ensure("following that route", And(isinstance(w.route, Way), eq(w.route.k, k), w.target_lane_index[0] == "lane", eq(w.target_lane_index[1], k)))
    c.ensure("a copy of the route", w.route is not v.data[k][0])
    c.ensure("with its observations, copied", And(isinstance(w.data, Seen), eq(w.data.k, k), w.data is not v.data[k][1]))
    c.ensure("the vehicle is left alone", unchanged(v, before))


@contract("C46.assume", [MM + "assume_model_is_valid", BEH + "IDMVehicle.create_from", PRED + "IntervalVehicle.create_from"], bounded="up to three hypotheses")
def assume(c):
    """Assuming a hypothesis (the last one for larger indices): another vehicle in the same state, following that route from its first
    lane, with the observations of that hypothesis; without hypotheses, one like it.  Nothing that happens to it changes them."""
    import highway_env.vehicle.uncertainty.estimation as e
    hypotheses = c.choice("hypotheses", [[], [[A, B0]], [[A, B0], [B1]], [[A], [B0, C0], [B1]]])
    net = AnyNetwork(c, lane=abstract_lane(c))
    r = road(c, net)
    v = hypothetical(c, hypotheses, road=r, target_lane_index=("x", "y", 2), route=[A], target_speed=c.real("target speed", s=(0, 30)), timer=.5)
    index = c.choice("index", [0, 1, 2, 5])
    kept = [(list(h), dict(d)) for h, d in v.data]
    before = snap(v)
    w = v.assume_model_is_valid(index)
    c.ensure("another vehicle", w is not v and w.road is r)
    c.ensure("in the same state", And(eq(w.position[0], v.position[0]), eq(w.position[1], v.position[1]), eq(w.heading, v.heading), eq(w.speed, v.speed),
                                      eq(w.target_speed, v.target_speed), w.timer == .5))
    if not kept:
        c.ensure("one like it", type(w) is e.MultipleModelVehicle and w.target_lane_index == ("x", "y", 2) and w.route == [A])
        return
    route, data = kept[min(index, len(kept) - 1)]
    c.ensure("following that route", isinstance(w, e.RegressionVehicle) and w.route == route and w.target_lane_index == route[0])
    c.ensure("with its observations", w.data == data)
    del w.route[:]
    w.data["more"] = 1
    w.position[0] = w.position[0] + 1
    c.ensure("the hypotheses are left alone", [(list(h), dict(d)) for h, d in v.data] == kept)
    c.ensure("the vehicle is left alone", unchanged(v, before))


@contract("C46.new", [MM + "__init__"])
def new(c):
    """A new vehicle has the hypotheses it is given, or none; two vehicles do not share them."""
    import highway_env.vehicle.uncertainty.estimation as e
    r = road(c, AnyNetwork(c, lane=abstract_lane(c)))
    given = c.choice("given", [None, "none", "some"])
    data = {None: None, "none": [], "some": [([A], {})]}[given]
    p, h, s = c.vec("position", 2), c.real("heading", s=(-4, 4)), c.real("speed", s=(-5, 30))
    make = lambda: e.MultipleModelVehicle(r, p, h, s, ("x", "y", 2), 3.5, [A], True, .5, **({} if given is None else dict(data=data)))
    v, w = make(), make()
    c.ensure("its hypotheses", v.data == (data or []) and (given != "some" or v.data is data))
    c.ensure("not shared", given == "some" or v.data is not w.data)
    c.ensure("its state", And(eq(v.position[0], p[0]), eq(v.position[1], p[1]), eq(v.heading, h), eq(v.speed, s), v.target_lane_index == ("x", "y", 2),
                              v.target_speed == 3.5, v.route == [A], v.timer == .5))
